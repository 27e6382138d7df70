package gosudachi

import (
	"errors"

	"github.com/msnoigrs/gosudachi/dictionary"
	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzT10Call is one call of a plugin: its kind (0 input, 1 unknown words, 2 path), which one of that
// kind, and for unknown words the place and whether there are other words.
type zzT10Call struct {
	kind, k, at int
	other       bool
}

// zzT10Log is what the plugins of one run see.
type zzT10Log struct {
	calls  []zzT10Call
	failAt int
	texts  []string
	offer  map[int]int // 4*(byte offset)+k -> characters of the word offered; k 3: the fallback
	asked  map[int]bool
	nodes  []*LatticeNode
	paths  [][]*LatticeNode
	left   []*LatticeNode
	words  [][]*LatticeNode // candidates by end, as seen by the first path plugin
}

var errZzT10 = errors.New("plugin failed")

func (l *zzT10Log) call(c zzT10Call) error {
	l.calls = append(l.calls, c)
	if len(l.calls)-1 == l.failAt {
		return errZzT10
	}
	return nil
}

type zzT10Input struct {
	l        *zzT10Log
	k        int
	from, to rune
}

func (p *zzT10Input) GetConfigStruct() interface{} { return nil }
func (p *zzT10Input) SetUp() error                 { return nil }
func (p *zzT10Input) Rewrite(b *InputTextBuilder) error {
	p.l.texts = append(p.l.texts, string(b.GetText()))
	if err := p.l.call(zzT10Call{kind: 0, k: p.k}); err != nil {
		return err
	}
	if rs := b.GetText(); rs[0] == p.from {
		b.Replace(0, 1, []rune{p.to})
	}
	return nil
}

type zzT10Oov struct {
	l *zzT10Log
	k int
}

func (p *zzT10Oov) GetConfigStruct() interface{}            { return nil }
func (p *zzT10Oov) SetUp(grammar *dictionary.Grammar) error { return nil }
func (p *zzT10Oov) ProvideOOV(text *InputText, offset int, other bool) ([]*LatticeNode, error) {
	if err := p.l.call(zzT10Call{1, p.k, offset, other}); err != nil {
		return nil, err
	}
	k := p.k
	if p.l.asked[4*offset+k] {
		k = 3
	}
	p.l.asked[4*offset+k] = true
	size, ok := p.l.offer[4*offset+k]
	if !ok {
		size = sym.Choose("offered", 3)
		p.l.offer[4*offset+k] = size
	}
	end := offset
	for i := 0; i < size; i++ {
		if end < len(text.Bytea) {
			end += text.GetCodePointsOffsetLength(end, 1)
		}
	}
	if end == offset {
		return nil, nil
	}
	n := CreateNodeOfOOV()
	n.SetParameter(0, 0, int16(1000+k))
	n.IsOov = p.k != 0 // a provider may offer words it does not call unknown
	n.SetWordInfo(&dictionary.WordInfo{Surface: text.GetSubstring(offset, end), HeadwordLength: int16(end - offset), DictionaryFormWordId: -1})
	p.l.nodes = append(p.l.nodes, n)
	return []*LatticeNode{n}, nil
}

// zzT10Path joins the first two words of the path (the first such plugin) or gives the last word a
// new node (the second one).
type zzT10Path struct {
	l *zzT10Log
	k int
}

func (p *zzT10Path) GetConfigStruct() interface{}            { return nil }
func (p *zzT10Path) SetUp(grammar *dictionary.Grammar) error { return nil }
func (p *zzT10Path) Rewrite(text *InputText, path *[]*LatticeNode, lattice *Lattice) error {
	if p.k == 0 {
		for e := 0; e <= len(text.Bytea); e++ {
			p.l.words = append(p.l.words, append([]*LatticeNode(nil), lattice.GetNodesWithEnd(e)...))
		}
	}
	p.l.paths = append(p.l.paths, *path)
	if err := p.l.call(zzT10Call{kind: 2, k: p.k}); err != nil {
		return err
	}
	old := *path
	var r []*LatticeNode
	mk := func(b, e int) *LatticeNode {
		return zzNode(b, e, &dictionary.WordInfo{Surface: text.GetSubstring(b, e), HeadwordLength: int16(e - b), DictionaryFormWordId: -1, PosId: int16(p.k)})
	}
	if p.k == 0 && len(old) >= 2 {
		r = append(r, mk(old[0].GetBegin(), old[1].GetEnd()))
		r = append(r, old[2:]...)
	} else if p.k == 1 {
		last := old[len(old)-1]
		r = append(r, old[:len(old)-1]...)
		r = append(r, mk(last.GetBegin(), last.GetEnd()))
	} else {
		r = old
	}
	*path = r
	p.l.left = r
	return nil
}

type zzT10World struct {
	g   *dictionary.Grammar
	lex *dictionary.LexiconSet
}

var zzT10W *zzT10World

func ZZT10Setup() {
	d := &zzref.Dict{Version: zzref.SystemVersion, Pos: [][]string{zzNounPos, zzSymPos}, L: 1, R: 1, Words: []zzref.Word{
		zzref.W("あ", 0, 0, 5000, 0), zzref.W("ャ", 0, 0, 5000, 0), zzref.W("あ一", 0, 0, 100, 0), zzref.W("い", 0, 0, 300, 0)}}
	img, lay := d.Image()
	g := dictionary.NewGrammar(img, 272, false)
	g.CharCategory = zzCategories(zzCharDef)
	zzT10W = &zzT10World{g, dictionary.NewLexiconSet(dictionary.NewDoubleArrayLexicon(img, lay.Lexicon, false))}
}

// ZZT10Order: the order of the plugins' calls, what each is told and what is made of its answers.
func ZZT10Order() {
	w := zzT10W
	size := 1 + sym.Choose("size", 2)
	if sym.Thorough() {
		size = 1 + sym.Choose("more", 3)
	}
	rs := make([]rune, size)
	kinds := make([]int, size)
	for i := range rs {
		kinds[i] = sym.Choose("class", 6)
		switch kinds[i] {
		case 0:
			rs[i] = sym.Rune("hiragana", 'あ', 'う')
		case 1:
			rs[i] = '一'
		case 2:
			rs[i] = 'ァ' // no unknown word begins here
		case 3:
			rs[i] = 'ャ' // nor here, but there is a word
		case 4:
			rs[i] = 'a'
		case 5:
			rs[i] = '七'
		}
	}
	l := &zzT10Log{offer: map[int]int{}, asked: map[int]bool{}, failAt: sym.Choose("fails at", 7) - 1}
	ins := []*zzT10Input{{l, 0, '七', 'あ'}, {l, 1, 'あ', '一'}}
	if sym.Choose("order", 2) == 1 {
		ins[0].from, ins[0].to, ins[1].from, ins[1].to = 'あ', '一', '七', 'あ'
	}
	num := sym.Choose("providers", 4)
	var oovs []OovProviderPlugin
	for k := 0; k < num; k++ {
		oovs = append(oovs, &zzT10Oov{l, k})
	}
	t := NewJapaneseTokenizer(w.g, w.lex, []InputTextPlugin{ins[0], ins[1]}, oovs, []PathRewritePlugin{&zzT10Path{l, 0}, &zzT10Path{l, 1}})
	ms, err := t.Tokenize([]string{"C", "A", "B"}[size%3], string(rs))

	// what should have happened
	var want []zzT10Call
	call := func(c zzT10Call) bool {
		want = append(want, c)
		return len(want)-1 != l.failAt
	}
	finish := func(failed bool, what string) {
		sym.Assert(len(l.calls) == len(want), "the plugins are called as often as they should be")
		if len(l.calls) == len(want) {
			for i, c := range want {
				sym.Assert(l.calls[i] == c, "the plugins are called in order, where they should be and told what there is")
			}
		}
		sym.Assert((err != nil) == failed, what)
	}
	fail := func() {
		finish(true, "a plugin's error ends the call")
		sym.Assert(err == errZzT10, "a plugin's error is the call's error")
		sym.Reach("plugin failed")
	}
	for k, p := range ins {
		if !call(zzT10Call{kind: 0, k: k}) {
			fail()
			return
		}
		sym.Assert(sym.EqStr(l.texts[k], string(rs)), "an input plugin sees the text the previous ones left")
		if rs[0] == p.from {
			rs[0] = p.to
			kinds[0] = 1
			if p.to == 'あ' {
				kinds[0] = 0
			}
		}
	}
	at := make([]int, size+1)
	for i := range rs {
		at[i+1] = at[i] + 3
		if kinds[i] == 4 {
			at[i+1] = at[i] + 1
		}
	}
	reach := make([]bool, size+1)
	count := make([]int, size+1)
	reach[0] = true
	for i := 0; i < size; i++ {
		if !reach[i] || i > 0 && kinds[i] == 4 && kinds[i-1] == 4 {
			continue
		}
		other := false
		add := func(n int) {
			if n > 0 {
				other = true
				if i+n > size {
					n = size - i
				}
				reach[i+n] = true
				count[i+n]++
			}
		}
		switch {
		case kinds[i] == 0 && rs[i] == 'あ':
			add(1)
			if i+1 < size && kinds[i+1] == 1 {
				add(2)
			}
		case kinds[i] == 0 && rs[i] == 'い', kinds[i] == 3:
			add(1)
		}
		if kinds[i] != 2 && kinds[i] != 3 {
			for k := 0; k < num; k++ {
				if !call(zzT10Call{1, k, at[i], other}) {
					fail()
					return
				}
				add(l.offer[4*at[i]+k])
			}
		}
		if !other && num > 0 {
			if !call(zzT10Call{1, 0, at[i], false}) {
				fail()
				return
			}
			key := 4*at[i] + 3
			if kinds[i] == 2 {
				key = 4 * at[i] // asked for the first time
			}
			add(l.offer[key])
			sym.Reach("fallback")
		}
		if !other {
			finish(true, "a place without words ends the call")
			sym.Assert(err != errZzT10, "a place without words ends the call")
			sym.Reach("no word")
			return
		}
	}
	if !reach[size] {
		finish(true, "an unreachable end ends the call")
		return
	}
	for k := 0; k < 2; k++ {
		if !call(zzT10Call{kind: 2, k: k}) {
			fail()
			return
		}
	}
	finish(false, "the call succeeds")
	if err != nil {
		return
	}
	total := 0
	for i := 1; i <= size; i++ {
		total += count[i]
		sym.Assert(len(l.words[at[i]]) == count[i], "the words found and offered are the candidates")
	}
	seen := 0
	for e := 1; e < len(l.words); e++ {
		seen += len(l.words[e])
		for _, n := range l.words[e] {
			for _, x := range l.nodes {
				if n == x {
					sym.Reach("offered word")
				}
			}
		}
	}
	sym.Assert(seen == total, "the words found and offered are the candidates")
	sym.Assert(len(l.paths) == 2, "each path plugin is handed a path")
	if len(l.paths[0]) < 2 {
		sym.Assert(len(l.paths[1]) == len(l.paths[0]), "a path plugin is handed what the previous one left")
	} else {
		sym.Assert(len(l.paths[1]) == len(l.paths[0])-1, "a path plugin is handed what the previous one left")
		sym.Reach("joined")
	}
	sym.Assert(ms.Length() == len(l.left), "the morphemes are what the last path plugin left")
	for i := 0; i < ms.Length() && i < len(l.left); i++ {
		sym.Assert(ms.path[i] == l.left[i], "the morphemes are what the last path plugin left")
	}
	sym.Reach("done")
}

// ZZT10Empty: no plugin has anything to do on empty text.
func ZZT10Empty() {
	w := zzT10W
	l := &zzT10Log{offer: map[int]int{}, asked: map[int]bool{}, failAt: sym.Choose("fails at", 2) - 1}
	t := NewJapaneseTokenizer(w.g, w.lex, []InputTextPlugin{&zzT10Input{l: l}}, []OovProviderPlugin{&zzT10Oov{l, 0}}, []PathRewritePlugin{&zzT10Path{l, 0}})
	ms, err := t.Tokenize([]string{"A", "B", "C"}[sym.Choose("mode", 3)], "")
	sym.Assert(err == nil && ms != nil && ms.Length() == 0 && len(l.calls) == 0, "empty text has no morphemes")
	sym.Reach("empty")
}
