package gosudachi

import (
	"unicode/utf8"

	"github.com/msnoigrs/gosudachi/dictionary"
	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// categories used: katakana with two characters that may not start an unknown word, a mark that
// is also hiragana, hiragana, and everything else
const zzP03Def = "0x30A1..0x30FF KATAKANA\n0x30E3 NOOOVBOW\n0x30F3 NOOOVBOW\n0x30FC HIRAGANA\n0x3041..0x309F HIRAGANA\n0x00E0..0x00EF KATAKANA\n0x00E1 NOOOVBOW\n0x1B000..0x1B0FF KATAKANA\n0x006B KATAKANA\n"

var zzP03Grammar *dictionary.Grammar

func ZZP03Setup() {
	zzP03Grammar = zzGrammar([][]string{zzNounPos, zzSymPos}, 1, 1, nil, zzP03Def)
}

func zzP03Cat(r rune) uint32 {
	kata := sym.Or(sym.And(r >= 0x30A1, r <= 0x30FF), sym.Or(sym.And(r >= 0xE0, r <= 0xEF), sym.Or(r == 0x6B, sym.And(r >= 0x1B000, r <= 0x1B0FF))))
	m := sym.Ite(kata, int(dictionary.KATAKANA), 0)
	m |= sym.Ite(sym.Or(r == 0xE1, sym.Or(r == 0x30E3, r == 0x30F3)), int(dictionary.NOOOVBOW), 0)
	m |= sym.Ite(sym.Or(r == 0x30FC, sym.And(r >= 0x3041, r <= 0x309F)), int(dictionary.HIRAGANA), 0)
	return uint32(sym.Ite(m == 0, int(dictionary.DEFAULT), m))
}

func zzP03(maxWords, maxLen int, lo, hi rune, withCandidate bool) {
	n := 1 + sym.Choose("words", maxWords)
	var rs []rune
	var cats []uint32
	var first []int // first character of each word
	var oov []bool
	at := []int{0}
	for i := 0; i < n; i++ {
		first = append(first, len(rs))
		l := 1 + sym.Choose("len", maxLen)
		for k := 0; k < l; k++ {
			r := rune('ア')
			if lo != 0 {
				r = sym.Rune("char", lo, hi)
			} else {
				// characters of every width
				switch sym.Choose("width", 5) {
				case 0:
					r = 'k'
				case 1:
					r = sym.Rune("two", 0xE0, 0xE3)
				case 2:
					r = sym.Rune("three", 0x30FD, 0x3100)
				case 3:
					r = sym.Rune("four", 0x1B0FE, 0x1B101)
				case 4:
					r = 'x'
				}
			}
			rs = append(rs, r)
			cats = append(cats, zzP03Cat(r))
			at = append(at, at[len(at)-1]+utf8.RuneLen(r))
		}
		oov = append(oov, sym.Bool("oov"))
	}
	first = append(first, len(rs))
	text := string(rs)
	input := zzInput(text, zzP03Grammar)
	lat := NewLattice(zzP03Grammar)
	lat.resize(len(text))
	var path []*LatticeNode
	for i := 0; i < n; i++ {
		b, e := at[first[i]], at[first[i+1]]
		node := zzNode(b, e, &dictionary.WordInfo{Surface: text[b:e], HeadwordLength: int16(e - b), NormalizedForm: text[b:e], DictionaryForm: text[b:e]})
		if oov[i] {
			node.SetOOV()
		}
		path = append(path, node)
	}
	var cand *LatticeNode
	if withCandidate && sym.Choose("candidate", 2) == 1 {
		cand = zzNode(0, 0, &dictionary.WordInfo{Surface: "cand"})
		b := sym.Choose("cbegin", n)
		e := b + 1 + sym.Choose("cspan", n-b)
		lat.Insert(at[first[b]], at[first[e]], cand)
	}
	orig := append([]*LatticeNode{}, path...)

	// which words are katakana words: all characters katakana, within one category run
	runOf := make([]int, len(rs))
	for i := 1; i < len(rs); i++ {
		if cats[runOf[i-1]]&cats[i] != 0 {
			runOf[i] = runOf[i-1]
		} else {
			runOf[i] = i
		}
	}
	kata := make([]bool, n)
	noStart := make([]bool, n)
	for i := 0; i < n; i++ {
		m := cats[first[i]]
		for k := first[i] + 1; k < first[i+1]; k++ {
			m &= cats[k]
		}
		if runOf[first[i]] != runOf[first[i+1]-1] {
			m = 0
		}
		kata[i] = m&dictionary.KATAKANA != 0
		noStart[i] = m&dictionary.NOOOVBOW != 0
	}

	minLength := sym.Choose("minLength", maxLen+2)
	cfg := &JoinKatakanaOovPluginConfig{OovPOS: &zzSymPos}
	if minLength != 1 { // 1 is the default
		cfg.MinLength = &minLength
	}
	p := NewJoinKatakanaOovPlugin(cfg)
	zzOk(p.SetUp(zzP03Grammar), "set-up")
	zzOk(p.Rewrite(input, &path, lat), "katakana joining succeeds")

	k := 0
	for i := 0; i < n; {
		if !kata[i] {
			sym.Assert(k < len(path) && path[k] == orig[i], "a word that is not katakana is left unchanged")
			k++
			i++
			continue
		}
		j := i
		wanted := false
		for j < n && kata[j] {
			if oov[j] || first[j+1]-first[j] < minLength {
				wanted = true
			}
			j++
		}
		s := i
		if wanted {
			for s < j && noStart[s] {
				s++
			}
		}
		if !wanted || j-s < 2 {
			for ; i < j; i++ {
				sym.Assert(k < len(path) && path[k] == orig[i], "a katakana run that is not to be joined is left unchanged")
				k++
			}
			sym.Reach("left")
			continue
		}
		for ; i < s; i++ {
			sym.Assert(k < len(path) && path[k] == orig[i], "words trimmed from the front are left unchanged")
			k++
			sym.Reach("trimmed")
		}
		sym.Assert(k < len(path), "the joined word is there")
		got := path[k]
		b, e := at[first[s]], at[first[j]]
		sym.Assert(got.Begin == b && got.End == e, "the whole katakana run is joined into one word")
		if cand != nil && cand.Begin == b && cand.End == e {
			sym.Assert(got == cand, "an existing candidate of the range is used")
			sym.Reach("candidate")
		} else {
			wi := got.GetWordInfo()
			sym.Assert(got.IsOOV() && wi.PosId == 1 && len(wi.Surface) == e-b && sym.EqStr(wi.Surface, text[b:e]), "the joined word is an unknown word over the run")
			sym.Reach("joined")
		}
		k++
		i = j
	}
	sym.Assert(k == len(path), "nothing is added")
	sym.Observe("words", len(path))
}

// ZZP03Words: arbitrary kana words.
func ZZP03Words() {
	if sym.Thorough() {
		zzP03(4, 2, 0x309E, 0x30FE, false)
		return
	}
	zzP03(3, 2, 0x309E, 0x30FE, false)
}

// ZZP03Long: longer paths of one-character words.
func ZZP03Long() {
	if sym.Thorough() {
		zzP03(9, 1, 0x30E2, 0x3100, false)
		return
	}
	zzP03(7, 1, 0x30E2, 0x3100, false)
}

// ZZP03Candidate: with a candidate of the joined range in the lattice.
func ZZP03Candidate() {
	if sym.Thorough() {
		zzP03(5, 1, 0x30E2, 0x3100, true)
		return
	}
	zzP03(4, 1, 0x30E2, 0x3100, true)
}

// ZZP03Widths: characters of one to four bytes.
func ZZP03Widths() {
	if sym.Thorough() {
		zzP03(3, 3, 0, 0, false)
		return
	}
	if sym.Choose("shape", 2) == 0 {
		zzP03(2, 2, 0, 0, false)
	} else {
		zzP03(3, 1, 0, 0, false)
	}
}

// zzP03Words are the words of a system and a user dictionary: one or two characters, katakana, a
// character no unknown word begins at, and another character.
var zzP03Lexicon *dictionary.LexiconSet

func ZZP03DictionarySetup() {
	ZZP03Setup()
	var ws []zzref.Word
	for _, c := range []string{"ア", "ャ", "漢"} {
		ws = append(ws, zzref.W(c, 0, 0, 0, 0), zzref.W(c+c, 0, 0, 0, 0))
	}
	d := &zzref.Dict{Version: zzref.SystemVersion, Words: ws}
	zzP03Lexicon = dictionary.NewLexiconSet(dictionary.NewDoubleArrayLexicon(d.Lexicon(nil, &zzref.Layout{}), 0, false))
	u := &zzref.Dict{Version: zzref.UserVersion1, Words: ws}
	for i := 0; i < 2; i++ {
		zzP03Lexicon.Add(dictionary.NewDoubleArrayLexicon(u.Lexicon(nil, &zzref.Layout{}), 0, false), 1)
	}
}

// ZZP03Dictionary: words of the system and of user dictionaries, and unknown ones.
func ZZP03Dictionary() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	n := 1 + sym.Choose("words", max)
	text := ""
	var path []*LatticeNode
	var kind, length []int
	var oov []bool
	for i := 0; i < n; i++ {
		k, l, d := sym.Choose("kind", 3), sym.Choose("len", 2), sym.Choose("dictionary", 4)
		b := len(text)
		for j := 0; j <= l; j++ {
			text += []string{"ア", "ャ", "漢"}[k]
		}
		var node *LatticeNode
		if d == 3 {
			node = zzNode(b, len(text), &dictionary.WordInfo{Surface: text[b:], HeadwordLength: int16(len(text) - b), NormalizedForm: text[b:], DictionaryForm: text[b:]})
			node.SetOOV()
		} else {
			node = NewLatticeNode(zzP03Lexicon, 0, 0, 0, int32(d<<28|2*k+l))
			node.SetRange(b, len(text))
		}
		path = append(path, node)
		kind, length, oov = append(kind, k), append(length, l+1), append(oov, d == 3)
	}
	orig := append([]*LatticeNode{}, path...)
	input := zzInput(text, zzP03Grammar)
	lat := NewLattice(zzP03Grammar)
	lat.resize(len(text))
	minLength := sym.Choose("minLength", 4)
	p := NewJoinKatakanaOovPlugin(&JoinKatakanaOovPluginConfig{OovPOS: &zzSymPos, MinLength: &minLength})
	zzOk(p.SetUp(zzP03Grammar), "set-up")
	zzOk(p.Rewrite(input, &path, lat), "katakana joining succeeds")
	var want []*LatticeNode // nil: a joined word
	var ends []int
	for i := 0; i < n; {
		j := i
		wanted := false
		for j < n && kind[j] < 2 {
			wanted = wanted || oov[j] || length[j] < minLength
			j++
		}
		s := i
		for s < j && kind[s] == 1 {
			s++
		}
		if j == i {
			j = i + 1
		}
		if !wanted || j-s < 2 {
			s = j
		}
		for ; i < s; i++ {
			want, ends = append(want, orig[i]), append(ends, orig[i].End)
		}
		if s < j {
			want, ends = append(want, nil), append(ends, orig[j-1].End)
			sym.Reach("joined")
		}
		i = j
	}
	sym.Assert(len(path) == len(want), "exactly the katakana runs with an unknown or short word are joined")
	at := 0
	for i, w := range path {
		if i >= len(want) {
			return
		}
		sym.Assert(w.Begin == at && w.End == ends[i], "exactly the katakana runs with an unknown or short word are joined")
		if want[i] != nil {
			sym.Assert(w == want[i], "a word that is not joined is left unchanged")
		} else {
			wi := w.GetWordInfo()
			sym.Assert(w.IsOOV() && wi.PosId == 1 && wi.Surface == text[at:ends[i]], "the joined word is an unknown word over the run")
		}
		at = ends[i]
	}
}
