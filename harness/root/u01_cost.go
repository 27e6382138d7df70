package gosudachi

import (
	"errors"
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

const zzAuto = -32768

// zzU01Word is a word of the reference.
type zzU01Word struct {
	surface     string
	left, right int
	cost        int
}

// zzU01 is a configuration with user dictionaries, and what is known of its words.
type zzU01 struct {
	matrix  []int16 // 2 x 2
	words   []zzU01Word
	oov     zzU01Word // a character no word begins at
	system  string
	users   []string
	images  [][]byte
	charDef string
	input   []InputTextPlugin
	path    []PathRewritePlugin
	extra   []OovProviderPlugin

	// what is special about the words of user dictionaries
	headword  string // of the first one
	unindexed bool   // the first one
	forms     bool   // the first one is the dictionary form of the others
}

var zzU01Pos = [][]string{zzNumPos, zzNounPos, zzSymPos}

func zzU01New(words []zzU01Word, matrix []int16) *zzU01 {
	u := &zzU01{matrix: matrix, words: words, oov: zzU01Word{"", 1, 0, 500}}
	d := &zzref.Dict{Version: zzref.SystemVersion, Pos: zzU01Pos, L: 2, R: 2, Matrix: make([]int16, 4)}
	for _, w := range words {
		pos := int16(1)
		if w.surface[0] >= '0' && w.surface[0] <= '9' {
			pos = 0 // a numeral
		}
		d.Words = append(d.Words, zzref.W(w.surface, int16(w.left), int16(w.right), 0, pos))
	}
	if len(words) > 1 {
		d.Words[1].A = []int32{0, 0} // costs are a matter of the longest units
		d.Words[1].B = []int32{0, 0}
	}
	img, lay := d.Image()
	for i, w := range words {
		lay.SetParam(img, i, 2, int16(w.cost))
	}
	for r := 0; r < 2; r++ {
		for l := 0; l < 2; l++ {
			lay.SetCost(img, l, r, matrix[l+2*r])
		}
	}
	u.system = sym.TempFile("system.dic", img)
	u.charDef = sym.TempFile("char.def", []byte("0x0030..0x0039 NUMERIC\n0x3041..0x309F HIRAGANA\n"))
	return u
}

// user adds a user dictionary.
func (u *zzU01) user(version uint64, words []zzU01Word) {
	d := &zzref.Dict{Version: version}
	if version == zzref.UserVersion2 {
		d.Pos = [][]string{zzWorldUserPos}
	}
	for i, w := range words {
		x := zzref.W(w.surface, int16(w.left), int16(w.right), 0, 1)
		if w.surface != "" {
			x.Norm, x.Reading = "いい", "ういい"
		}
		if i == 0 && u.headword != "" {
			x.Headword, x.HeadLen = u.headword, len(u.headword)
		}
		if i == 0 && u.unindexed {
			x.NotIndexed, x.Left = true, -1
		}
		if i > 0 && u.forms {
			x.DicForm = 0
		}
		d.Words = append(d.Words, x)
	}
	img, lay := d.Image()
	for i, w := range words {
		lay.SetParam(img, i, 2, int16(w.cost))
	}
	u.users = append(u.users, sym.TempFile("user"+string(rune('0'+len(u.users)))+".dic", img))
	u.images = append(u.images, img)
}

func (u *zzU01) open() (*JapaneseDictionary, error) {
	pos := zzSymPos
	l, r, c := int16(u.oov.left), int16(u.oov.right), int16(u.oov.cost)
	simple := NewSimpleOovProviderPlugin(&SimpleOovProviderPluginConfig{OovPos: &pos, LeftId: &l, RightId: &r, Cost: &c})
	return NewJapaneseDictionary(&BaseConfig{SystemDict: u.system, CharacterDefinitionFile: u.charDef, UserDict: u.users},
		u.input, append(u.extra, simple), u.path, nil)
}

// zzU01Auto checks got, the automatic cost of a word whose (rewritten) surface is text, given the words
// known before. It returns the words' total cost on the way.
func (u *zzU01) auto(got int, text string) {
	type seg struct {
		total, value int
		ok           bool
	}
	var all []seg
	var rec func(pos int, path []zzU01Word)
	rec = func(pos int, path []zzU01Word) {
		if pos == len(text) {
			s := seg{ok: true}
			prev := 0
			for _, w := range path {
				x := int(u.matrix[prev+2*w.left])
				s.ok = sym.And(s.ok, x != 32767)
				s.total += x + w.cost
				prev = w.right
			}
			x := int(u.matrix[prev])
			s.ok = sym.And(s.ok, x != 32767)
			s.total += x
			v := path[len(path)-1].cost - path[0].cost - 20*len(path)
			s.value = sym.Ite(v > 32767, 32767, sym.Ite(v < -32768, -32768, v))
			all = append(all, s)
			return
		}
		any := false
		for _, w := range u.words {
			if len(text)-pos >= len(w.surface) && text[pos:pos+len(w.surface)] == w.surface {
				any = true
				rec(pos+len(w.surface), append(path[:len(path):len(path)], w))
			}
		}
		if !any {
			rec(pos+len("あ"), append(path[:len(path):len(path)], u.oov))
		}
	}
	rec(0, nil)
	some := false
	for i := range all {
		best := all[i].ok
		for j := range all {
			best = sym.And(best, sym.Or(sym.Not(all[j].ok), all[i].total <= all[j].total))
		}
		some = sym.Or(some, sym.And(best, got == all[i].value))
	}
	sym.Assert(some, "an automatic cost is the cost of the last word less that of the first and 20 per word, in range")
}

// check compares the costs of dictionary dict (from 1) with what they should be and makes its words known.
func (u *zzU01) check(d *JapaneseDictionary, dict int, words []zzU01Word, rewritten []string) {
	auto := make([]bool, len(words))
	for i, w := range words {
		got := int(d.lexicon.GetCost(int32(dict<<28 | i)))
		if w.cost == zzAuto {
			text := w.surface
			if rewritten != nil {
				text = rewritten[i]
			}
			u.auto(got, text)
			auto[i] = true
			sym.Reach("automatic")
		} else {
			sym.Assert(got == w.cost, "a word with a cost of its own keeps it")
		}
		sym.Assert(int(d.lexicon.GetLeftId(int32(dict<<28|i))) == w.left, "connection ids are left alone")
		sym.Assert(int(d.lexicon.GetRightId(int32(dict<<28|i))) == w.right, "connection ids are left alone")
	}
	for i, w := range words {
		if auto[i] {
			w.cost = int(d.lexicon.GetCost(int32(dict<<28 | i)))
		}
		u.words = append(u.words, w)
	}
	got, ok := sym.FileContent(u.users[dict-1])
	sym.Assert(ok && sym.EqBytes(got, u.images[dict-1]), "the dictionary file is not modified")
}

// ZZU01Costs: arbitrary costs everywhere.
func ZZU01Costs() {
	a, b, c := int(sym.Int16("cost")), int(sym.Int16("cost")), 300
	if sym.Choose("third", 2) == 1 {
		c = int(sym.Int16("cost"))
		b = 200
	}
	m := []int16{0, 0, 0, 0}
	u := zzU01New([]zzU01Word{{"あ", 0, 0, a}, {"い", 1, 1, b}, {"あい", 0, 1, c}}, m)
	words := []zzU01Word{
		{[]string{"あ", "い", "あい", "いあ", "う", "あう"}[sym.Choose("surface", 6)], 0, 1, int(sym.Int16("own"))},
	}
	if sym.Choose("another", 2) == 1 {
		words = append([]zzU01Word{{"いう", 1, 0, int(sym.Int16("other"))}}, words...)
	}
	u.user(zzref.UserVersion2, words)
	d, err := u.open()
	zzOk(err, "a user dictionary can be loaded")
	u.check(d, 1, words, nil)
	sym.Reach("loaded")
}

// ZZU01Connections: arbitrary connection costs decide the segmentation.
func ZZU01Connections() {
	m := []int16{0, 0, 0, 0}
	m[sym.Choose("cell", 4)] = sym.Int16("connection")
	if sym.Thorough() {
		m[sym.Choose("cell", 4)] = sym.Int16("connection")
	}
	u := zzU01New([]zzU01Word{{"あ", 0, 0, 100}, {"い", 1, 1, -200}, {"あい", 0, 1, 250}, {"いう", 1, 0, 30}}, m)
	words := []zzU01Word{{[]string{"あい", "あいう", "いあう"}[sym.Choose("surface", 3)], 0, 1, zzAuto}, {"う", 0, 0, 7}}
	u.user(zzref.UserVersion2, words)
	d, err := u.open()
	if err != nil { // inhibited connections
		sym.Assert(m[0] == 32767 || m[1] == 32767 || m[2] == 32767 || m[3] == 32767, "a user dictionary can be loaded")
		sym.Reach("none")
		return
	}
	u.check(d, 1, words, nil)
	sym.Reach("loaded")
}

// ZZU01Later: the second dictionary's costs take the first one's words into account.
func ZZU01Later() {
	u := zzU01New([]zzU01Word{{"あ", 0, 0, int(sym.Int16("cost"))}, {"い", 1, 1, 400}}, []int16{0, 10, -10, 0})
	one := []zzU01Word{{"あい", 0, 1, zzAuto}, {"う", 1, 1, int(sym.Int16("own"))}}
	two := []zzU01Word{{[]string{"あいう", "あい", "うう"}[sym.Choose("surface", 3)], 0, 0, zzAuto}, {"え", 0, 0, -5}}
	u.user(zzref.UserVersion2, one)
	u.user([]uint64{zzref.UserVersion2, zzref.UserVersion1}[sym.Choose("version", 2)], two)
	d, err := u.open()
	zzOk(err, "user dictionaries can be loaded")
	u.check(d, 1, one, nil)
	u.check(d, 2, two, nil)
	sym.Reach("loaded")
}

// ZZU01Version: dictionaries with and without a grammar of their own.
func ZZU01Version() {
	u := zzU01New([]zzU01Word{{"あ", 0, 0, 100}, {"い", 1, 1, 200}}, []int16{0, 0, 0, 0})
	words := []zzU01Word{{"あい", 0, 1, int(sym.Int16("own"))}, {"い", 0, 1, zzAuto}}
	v := sym.Choose("version", 2)
	u.user([]uint64{zzref.UserVersion2, zzref.UserVersion1}[v], words)
	d, err := u.open()
	zzOk(err, "a user dictionary can be loaded")
	sym.Assert(d.GetPartOfSpeechSize() == 4-v, "the dictionary's parts of speech are added")
	u.check(d, 1, words, nil)
	sym.Reach("loaded")
}

// ZZU01Rewritten: the surface is tokenized as any text is, before morphemes are joined.
func ZZU01Rewritten() {
	u := zzU01New([]zzU01Word{{"a", 0, 0, int(sym.Int16("cost"))}, {"b", 1, 1, 900}, {"1", 0, 0, 50}, {"2", 0, 0, 75}}, []int16{0, 0, 0, 0})
	def := NewDefaultInputTextPlugin(&DefaultInputTextPluginConfig{RewriteDef: sym.TempFile("rewrite.def", []byte("x ab\n"))})
	u.input = []InputTextPlugin{def}
	num := NewJoinNumericPlugin(nil)
	u.path = []PathRewritePlugin{num}
	words := []zzU01Word{{"AB", 0, 1, zzAuto}, {"x", 0, 1, zzAuto}, {"12", 0, 0, zzAuto}, {"b", 0, 0, int(sym.Int16("own"))}}
	u.user(zzref.UserVersion2, words)
	d, err := u.open()
	zzOk(err, "a user dictionary can be loaded")
	u.check(d, 1, words, []string{"ab", "ab", "12", "b"})
	sym.Reach("loaded")
}

// zzU01Failing fails for a text.
type zzU01Failing struct{}

func (p *zzU01Failing) GetConfigStruct() interface{} { return p }

func (p *zzU01Failing) SetUp(g *dictionary.Grammar) error { return nil }
func (p *zzU01Failing) ProvideOOV(t *InputText, offset int, other bool) ([]*LatticeNode, error) {
	if t.GetText() == "いう" {
		return nil, errors.New("failing")
	}
	return nil, nil
}

// ZZU01Failure: a cost that cannot be computed is reported; one nobody asks for is no matter.
func ZZU01Failure() {
	u := zzU01New([]zzU01Word{{"あ", 0, 0, 100}, {"い", 1, 1, 200}}, []int16{0, 0, 0, 0})
	words := []zzU01Word{{"あ", 0, 1, zzAuto}, {"いう", 0, 1, int(sym.Int16("own"))}, {"あい", 0, 0, zzAuto}}
	k := sym.Choose("order", 3)
	words[1], words[k] = words[k], words[1]
	u.extra = []OovProviderPlugin{&zzU01Failing{}}
	u.user(zzref.UserVersion2, words)
	d, err := u.open()
	if words[k].cost == zzAuto {
		sym.Assert(err != nil, "a cost that cannot be computed is reported")
		sym.Reach("failed")
		return
	}
	zzOk(err, "a user dictionary can be loaded")
	u.check(d, 1, words, nil)
	sym.Reach("loaded")
}

type zzU01Erasing struct{}

func (p *zzU01Erasing) GetConfigStruct() interface{} { return p }

func (p *zzU01Erasing) SetUp() error { return nil }
func (p *zzU01Erasing) Rewrite(b *InputTextBuilder) error {
	b.Replace(0, len(b.GetText()), nil)
	return nil
}

// ZZU01Empty: a surface of no morphemes is no reason to crash.
func ZZU01Empty() {
	u := zzU01New([]zzU01Word{{"あ", 0, 0, 100}, {"い", 1, 1, 200}}, []int16{0, 0, 0, 0})
	words := []zzU01Word{{"あ", 0, 1, zzAuto}, {"い", 0, 1, 10}}
	if sym.Choose("erased", 2) == 1 {
		u.input = []InputTextPlugin{&zzU01Erasing{}}
		u.user(zzref.UserVersion2, words)
	} else {
		d := &zzref.Dict{Version: zzref.UserVersion2, Pos: [][]string{zzWorldUserPos}}
		for _, w := range words {
			d.Words = append(d.Words, zzref.W(w.surface, int16(w.left), int16(w.right), int16(w.cost), 1))
		}
		d.Words[0].Surface = ""
		d.Words[0].HeadLen = 3
		img, _ := d.Image()
		u.users = append(u.users, sym.TempFile("user0.dic", img))
	}
	_, err := u.open()
	_ = err // either is fine
	sym.Reach("survived")
}

// ZZU01Forms: words whose headword, dictionary form, normalized form and reading are others than their surface.
func ZZU01Forms() {
	u := zzU01New([]zzU01Word{{"あ", 0, 0, int(sym.Int16("cost"))}, {"い", 1, 1, 400}, {"う", 0, 1, 30}}, []int16{0, 10, -10, 0})
	switch sym.Choose("word", 3) {
	case 0:
		u.headword = "いうう"
	case 1:
		u.unindexed = true
	}
	u.forms = sym.Choose("dictionary form", 2) == 1
	words := []zzU01Word{{"あい", 0, 1, zzAuto}, {"う", 1, 1, zzAuto}, {"いあ", 1, 1, int(sym.Int16("own"))}}
	if u.unindexed {
		words[0].left = -1
	}
	u.user([]uint64{zzref.UserVersion2, zzref.UserVersion1}[sym.Choose("version", 2)], words)
	d, err := u.open()
	zzOk(err, "a user dictionary can be loaded")
	u.check(d, 1, words, nil)
	sym.Reach("loaded")
}

// ZZU01Long: surfaces of more than a hundred morphemes.
func ZZU01Long() {
	a := int(sym.Int16("first"))
	b := int(sym.Int16("last"))
	u := zzU01New([]zzU01Word{{"あ", 0, 0, a}, {"い", 1, 1, b}, {"か", 0, 0, 3}}, []int16{0, 0, 0, 0})
	n := []int{126, 127, 128, 129, 255, 257, 300}[sym.Choose("length", 7)]
	words := []zzU01Word{{"あ" + strings.Repeat("か", n-2) + "い", 0, 1, zzAuto}, {"い", 0, 1, 9}}
	u.user(zzref.UserVersion2, words)
	d, err := u.open()
	zzOk(err, "a user dictionary can be loaded")
	u.check(d, 1, words, nil)
	sym.Reach("loaded")
}

// ZZU01Provided: all the providers of unknown words are asked, as for any text.
func ZZU01Provided() {
	u := zzU01New([]zzU01Word{{"あ", 0, 0, int(sym.Int16("cost"))}, {"い", 1, 1, 400}}, []int16{0, 10, -10, 0})
	none, one := &zzCandProvider{fail: -1}, &zzCandProvider{fail: -1}
	one.cands = []zzCand{{begin: 1, end: 2, left: 1, right: 0, cost: sym.Int16("provided"), pos: 1}}
	text := "あう"
	switch sym.Choose("providers", 4) {
	case 0:
		u.extra = []OovProviderPlugin{none}
	case 1:
		u.extra = []OovProviderPlugin{none, none, none}
		text = "うい"
	case 2: // the word is offered by the first or the second
		u.extra = []OovProviderPlugin{one, none}
		u.oov.cost = int(one.cands[0].cost)
	case 3:
		u.extra = []OovProviderPlugin{none, one}
		u.oov.cost = int(one.cands[0].cost)
	}
	words := []zzU01Word{{text, 0, 1, zzAuto}, {"え", 1, 1, 9}}
	u.user(zzref.UserVersion2, words)
	d, err := u.open()
	zzOk(err, "a user dictionary can be loaded")
	u.check(d, 1, words, nil)
	sym.Reach("loaded")
}
