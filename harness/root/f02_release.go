package gosudachi

import (
	"path/filepath"
	"strings"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// ZZF02Dictionary: a dictionary whose parts are there or are wrong in some way.
func ZZF02Dictionary() {
	pos := []string{"名詞", "*", "*", "*", "*", "*"}
	d := &zzref.Dict{Version: zzref.SystemVersion, L: 2, R: 2, Matrix: []int16{0, 1, 2, 3}, Pos: [][]string{pos},
		Words: []zzref.Word{zzref.W("あ", 0, 0, 1, 0), zzref.W("い", 0, 0, 1, 0)}}
	d.Words[0].Reading = "よみ"
	img, _ := d.Image()
	system := sym.TempFile("system.dic", img)
	dir := filepath.Dir(system)
	u := &zzref.Dict{Version: zzref.UserVersion2, Words: []zzref.Word{zzref.W("う", 0, 0, 1, 0)}}
	uimg, _ := u.Image()
	user := sym.TempFile("user.dic", uimg)
	char := sym.TempFile("char.def", []byte("0x3041..0x309F HIRAGANA\n"))
	cats := sym.TempFile("cats.def", []byte("DEFAULT 0 1 0\n"))
	unk := sym.TempFile("unk.def", []byte("DEFAULT,0,0,9000,名詞,*,*,*,*,*\n"))
	rewrite := sym.TempFile("rewrite.def", []byte("x あい\n"))
	bad := sym.TempFile("bad", []byte("x y z\nx y z\n"))
	missing := filepath.Join(dir, "missing")
	pair := []int{1, 1}
	users := []string{user, user}
	kpos := pos
	ok := false
	switch fault := sym.Choose("fault", 19); fault {
	case 0:
		ok = true
	case 1:
		system = missing
	case 2:
		system = user
	case 3:
		system = bad
	case 4, 5, 6:
		users[sym.Choose("which", 2)] = []string{missing, system, bad}[fault-4]
	case 7, 8:
		char = []string{missing, bad}[fault-7]
	case 9, 10:
		cats = []string{missing, bad}[fault-9]
	case 11, 12:
		unk = []string{missing, bad}[fault-11]
	case 13, 14:
		rewrite = []string{missing, bad}[fault-13]
	case 15:
		pair = []int{1, 2}
	case 16:
		kpos = []string{"動詞", "*", "*", "*", "*", "*"}
	case 17:
		for len(users) < 16 {
			users = append(users, user)
		}
	case 18: // the cost of a word cannot be found
		u.Words[0].Cost = -32768
		u.Words[0].Surface, u.Words[0].HeadLen = "京", 3
		uimg, _ = u.Image()
		users[1] = sym.TempFile("user2.dic", uimg)
		pair = []int{0, 0}
	}
	before := sym.OpenFiles()
	l, r, c := int16(0), int16(0), int16(5000)
	n := 2
	jd, err := NewJapaneseDictionary(&BaseConfig{SystemDict: system, UserDict: users, CharacterDefinitionFile: char},
		[]InputTextPlugin{NewDefaultInputTextPlugin(&DefaultInputTextPluginConfig{RewriteDef: rewrite})},
		[]OovProviderPlugin{NewMeCabOovProviderPlugin(&MeCabOovProviderPluginConfig{CharDef: &cats, UnkDef: &unk}),
			NewSimpleOovProviderPlugin(&SimpleOovProviderPluginConfig{OovPos: &pos, LeftId: &l, RightId: &r, Cost: &c})},
		[]PathRewritePlugin{NewJoinKatakanaOovPlugin(&JoinKatakanaOovPluginConfig{OovPOS: &kpos, MinLength: &n})},
		[]EditConnectionCostPlugin{NewInhibitConnectionPlugin([]*[]int{&pair})})
	if err != nil {
		sym.Assert(!ok, "a dictionary can be set up")
		sym.Assert(sym.OpenFiles() == before, "a dictionary that cannot be set up is not kept open")
		sym.Reach("failed")
		return
	}
	text := string(sym.Rune("char", 'あ', 'え')) + "い"
	ms, err := jd.Create().Tokenize("C", text)
	sym.Assert(err == nil, "a text can be tokenized")
	if err != nil {
		return
	}
	type forms struct {
		surface, norm, reading, dict string
		pos                          []string
	}
	copied := func(s string) string { return string([]byte(s)) }
	var was []forms
	var got []forms
	for i := 0; i < ms.Length(); i++ {
		m := ms.Get(i)
		got = append(got, forms{m.Surface(), m.NormalizedForm(), m.ReadingForm(), m.DictionaryForm(), m.PartOfSpeech()})
		was = append(was, forms{copied(m.Surface()), copied(m.NormalizedForm()), copied(m.ReadingForm()), copied(m.DictionaryForm()), nil})
	}
	jd.Close()
	sym.Assert(sym.OpenFiles() == before, "a closed dictionary is not kept open")
	for i, f := range got {
		m := ms.Get(i)
		x := was[i]
		sym.Assert(sym.EqStr(f.surface, x.surface) && sym.EqStr(f.norm, x.norm) && sym.EqStr(f.reading, x.reading) && sym.EqStr(f.dict, x.dict), "what was read stays valid when the dictionary is closed")
		sym.Assert(strings.Join(f.pos, ",") == strings.Join(pos, ","), "what was read stays valid when the dictionary is closed")
		sym.Assert(sym.EqStr(m.Surface(), f.surface), "what was read stays valid when the dictionary is closed")
	}
	jd.Close()
	sym.Assert(sym.OpenFiles() == before, "closing twice does no harm")
	sym.Reach("closed")
}
