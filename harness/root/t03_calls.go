package gosudachi

import (
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

var zzT03World, zzT03Other *zzWorld

func ZZT03Setup() { zzT03World, zzT03Other = zzWorldNew(), zzWorldNew() }

func zzT03Text(max int) string {
	n := sym.Choose("len", max+1)
	var rs []rune
	for i := 0; i < n; i++ {
		switch sym.Choose("class", 5) {
		case 0:
			rs = append(rs, sym.Rune("hiragana", 'あ', 'う'))
		case 1:
			rs = append(rs, sym.Rune("upper", 'A', 'C'))
		case 2:
			rs = append(rs, '東')
		case 3:
			rs = append(rs, sym.Rune("digit", '0', '9'))
		case 4:
			rs = append(rs, '京')
		}
	}
	return string(rs)
}

// ZZT03Fresh: the second of two calls gives what a new tokenizer gives; the first result stays.
func ZZT03Fresh() {
	// nothing of the second world, plugins included, has been used before
	w1, w2 := *zzT03World, *zzT03Other
	max2 := 2
	if sym.Choose("providers", 2) == 1 {
		max2 = 1
		// only the one for characters of any kind
		w1.oov, w2.oov = w1.oov[1:], w2.oov[1:]
	}
	t := w1.tokenizer()
	max := 2
	if sym.Thorough() {
		max = 3
	}
	text1, text2 := zzT03Text(max), zzT03Text(max2)
	modes := []string{"C", "A", "B"}
	mode1 := modes[len(text1)%3]
	mode2 := modes[(len(text2)+1)%3]
	ms1, err1 := t.Tokenize(mode1, text1)
	var before []zzMorph
	if err1 == nil {
		before = zzMorphs(ms1)
	} else {
		sym.Reach("first failed")
	}
	ms2, err2 := t.Tokenize(mode2, text2)
	ms3, err3 := w2.tokenizer().Tokenize(mode2, text2)
	sym.Assert((err2 == nil) == (err3 == nil), "the call succeeds iff it does with a fresh tokenizer")
	if err2 == nil && err3 == nil {
		sym.Assert(zzSameMorphs(zzMorphs(ms2), zzMorphs(ms3)), "the result is that of a fresh tokenizer")
	} else if err2 != nil && err3 != nil {
		sym.Assert(err2.Error() == err3.Error(), "the error is that of a fresh tokenizer")
	}
	if err1 == nil {
		sym.Assert(zzSameMorphs(zzMorphs(ms1), before), "an earlier result does not change")
		sym.Reach("both")
	}
}

// ZZT03Failed: a first call that fails at any position and in any way, with arbitrary costs.
func ZZT03Failed() {
	n1, n2 := 1+sym.Choose("len1", 3), 1+sym.Choose("len2", 3)
	d := zzGrammar([][]string{zzNounPos}, 2, 2, []int16{0, sym.Int16("conn"), sym.Int16("conn"), sym.Int16("conn")}, "0x3041..0x309F HIRAGANA\n")
	lex := dictionary.NewLexiconSet(zzEmptyLexicon())
	mk := func(n int) *zzCandProvider {
		p := &zzCandProvider{fail: -1}
		for b := 0; b < n; b++ {
			for e := b + 1; e <= n && e <= b+2; e++ {
				p.cands = append(p.cands, zzCand{begin: b, end: e, left: b % 2, right: e % 2, cost: sym.Int16("cost")})
			}
		}
		return p
	}
	p := mk(n1)
	kind := sym.Choose("fail", 2)
	at := sym.Choose("at", n1)
	var rw []PathRewritePlugin
	fr := &zzFailRewrite{}
	if kind == 0 {
		p.fail = at
	} else {
		fr.fail = true
	}
	rw = append(rw, fr)
	t := NewJapaneseTokenizer(d, lex, nil, []OovProviderPlugin{p}, rw)
	_, err := t.Tokenize("C", strings.Repeat("あ", n1))
	if err != nil {
		sym.Reach("failed")
	}
	fr.fail = false
	q := mk(n2)
	for i := range q.cands {
		q.cands[i].pos = 0
	}
	*p = *q
	ms2, err2 := t.Tokenize("C", strings.Repeat("あ", n2))
	ms3, err3 := NewJapaneseTokenizer(d, lex, nil, []OovProviderPlugin{q}, nil).Tokenize("C", strings.Repeat("あ", n2))
	sym.Assert((err2 == nil) == (err3 == nil), "the call succeeds iff it does with a fresh tokenizer")
	if err2 == nil && err3 == nil {
		sym.Assert(zzSameMorphs(zzMorphs(ms2), zzMorphs(ms3)), "the result is that of a fresh tokenizer")
		sym.Reach("compared")
	}
}

type zzFailRewrite struct{ fail bool }

func (p *zzFailRewrite) GetConfigStruct() interface{}            { return nil }
func (p *zzFailRewrite) SetUp(grammar *dictionary.Grammar) error { return nil }
func (p *zzFailRewrite) Rewrite(text *InputText, path *[]*LatticeNode, lattice *Lattice) error {
	if p.fail {
		return zzErr("no")
	}
	return nil
}

type zzErr string

func (e zzErr) Error() string { return string(e) }
