package gosudachi

import (
	"errors"

	"github.com/msnoigrs/gosudachi/dictionary"
)

// zzCand is a candidate word of the harness: characters begin..end, ids and an arbitrary cost.
type zzCand struct {
	begin, end  int
	left, right int
	cost        int16
	pos         int16
}

// zzCandProvider offers the candidates beginning at a character of three bytes.
type zzCandProvider struct {
	cands []zzCand
	fail  int // character at which to fail, -1: never
}

func (p *zzCandProvider) GetConfigStruct() interface{}            { return nil }
func (p *zzCandProvider) SetUp(grammar *dictionary.Grammar) error { return nil }
func (p *zzCandProvider) ProvideOOV(inputText *InputText, offset int, hasOtherWords bool) ([]*LatticeNode, error) {
	var r []*LatticeNode
	if p.fail == offset/3 {
		return nil, errors.New("no")
	}
	for _, c := range p.cands {
		if c.begin != offset/3 {
			continue
		}
		n := CreateNodeOfOOV()
		n.SetParameter(int16(c.left), int16(c.right), c.cost)
		n.SetWordInfo(&dictionary.WordInfo{HeadwordLength: int16(3 * (c.end - c.begin)), PosId: c.pos, DictionaryFormWordId: -1})
		r = append(r, n)
	}
	return r, nil
}
