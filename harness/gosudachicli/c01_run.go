package main

import (
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/msnoigrs/gosudachi"
	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

var zzC01Num = []string{"名詞", "数詞", "*", "*", "*", "*"}
var zzC01Noun = []string{"名詞", "普通名詞", "一般", "*", "*", "*"}
var zzC01Sym = []string{"補助記号", "一般", "*", "*", "*", "*"}

const (
	zzC01Char = "0x0030..0x0039 NUMERIC\n0x3041..0x309F HIRAGANA\n0x30A1..0x30FF KATAKANA\n0x4E00..0x9FFF KANJI\n"
	zzC01Cats = "DEFAULT 0 1 0\nKATAKANA 1 1 1\nNUMERIC 1 1 0\n"
	zzC01Unk  = "DEFAULT,2,2,9000,補助記号,一般,*,*,*,*\nKATAKANA,1,1,4000,名詞,普通名詞,一般,*,*,*\nNUMERIC,1,1,3000,名詞,数詞,*,*,*,*\n"
	zzC01Rule = "ガ゛ ガ\nx あい\n"
)

// zzC01 is a set of resources in one directory.
type zzC01 struct {
	dir    string
	utf16  bool
	long   int // how plugins are named
	key    string
	input  int // bits: normalization, sound marks
	oov    int // bits: category-driven; simple always
	path   int // bits: numerals, katakana
	inhib  bool
	user   bool
	end    string // of lines, "\n" if empty
	inSet  bool // the encoding is in the settings, not on the command line
	inBase bool // the directory is in the settings, not on the command line
}

func zzC01New() *zzC01 {
	c := &zzC01{key: "class"}
	return c
}

func (c *zzC01) files() {
	d := &zzref.Dict{Version: zzref.SystemVersion, Pos: [][]string{zzC01Num, zzC01Noun, zzC01Sym}, L: 3, R: 3, UTF16: c.utf16,
		Matrix: []int16{0, 100, -50, 200, 10, 300, -100, 400, 50}}
	d.Words = []zzref.Word{
		zzref.W("あ", 0, 0, 4000, 1), zzref.W("い", 1, 1, 4000, 1), zzref.W("う", 1, 0, 3000, 2),
		zzref.W("あい", 1, 1, 3500, 1), zzref.W("あいう", 1, 1, 3000, 1),
		zzref.W("1", 1, 1, 2000, 0), zzref.W("2", 1, 1, 2000, 0), zzref.W("ー", 0, 0, 3000, 2),
	}
	d.Words[3].A = []int32{0, 1}
	d.Words[3].Norm = "愛"
	d.Words[3].Reading = "アイ"
	d.Words[4].A = []int32{0, 1, 2}
	d.Words[4].B = []int32{3, 2}
	d.Words[4].DicForm = 3
	img, _ := d.Image()
	c.dir = filepath.Dir(sym.TempFile("system.dic", img))
	u := &zzref.Dict{Version: zzref.UserVersion2, Pos: [][]string{{"名詞", "固有名詞", "*", "*", "*", "*"}}, UTF16: c.utf16,
		Words: []zzref.Word{zzref.W("いう", 1, 1, -32768, 1), zzref.W("え", 0, 1, 100, 3)}}
	img, _ = u.Image()
	sym.TempFile("user.dic", img)
	sym.TempFile("char.def", []byte(zzC01Char))
	sym.TempFile("cats.def", []byte(zzC01Cats))
	sym.TempFile("unk.def", []byte(zzC01Unk))
	sym.TempFile("rewrite.def", []byte(zzC01Rule))
}

// name is one of a plugin's names.
func (c *zzC01) name(n string) string {
	return `{"` + c.key + `":"` + []string{"", "com.worksap.nlp.sudachi.", "github.com/msnoigrs/gosudachi."}[c.long] + n + `"`
}

func (c *zzC01) settings() string {
	s := `{"systemDict":"system.dic", "characterDefinitionFile":"char.def"`
	if c.inSet {
		s += `, "utf16String":` + strconv.FormatBool(c.utf16)
	}
	if c.inBase {
		s += `, "path":"` + c.dir + `"`
	}
	if c.user {
		s += `, "userDict":["user.dic"]`
	}
	var in, oov, path []string
	if c.input&1 != 0 {
		in = append(in, c.name("DefaultInputTextPlugin")+`, "rewriteDef":"`+c.dir+`/rewrite.def"}`)
	}
	if c.input&2 != 0 {
		in = append(in, c.name("ProlongedSoundMarkInputTextPlugin")+`, "prolongedSoundMarks":["ー","〜"], "replacementSymbol":"ー"}`)
	}
	if c.oov&1 != 0 {
		oov = append(oov, c.name("MeCabOovProviderPlugin")+`, "charDef":"`+c.dir+`/cats.def", "unkDef":"`+c.dir+`/unk.def"}`)
	}
	oov = append(oov, c.name("SimpleOovProviderPlugin")+`, "oovPOS":["補助記号","一般","*","*","*","*"], "leftId":2, "rightId":2, "cost":7000}`)
	if c.path&1 != 0 {
		path = append(path, c.name("JoinNumericPlugin")+`, "enableNormalize":true}`)
	}
	if c.path&2 != 0 {
		path = append(path, c.name("JoinKatakanaOovPlugin")+`, "oovPOS":["名詞","普通名詞","一般","*","*","*"], "minLength":3}`)
	}
	if len(in) > 0 {
		s += `, "inputTextPlugin":[` + strings.Join(in, ",") + `]`
	}
	s += `, "oovProviderPlugin":[` + strings.Join(oov, ",") + `]`
	if len(path) > 0 {
		s += `, "pathRewritePlugin":[` + strings.Join(path, ",") + `]`
	}
	if c.inhib {
		s += `, "editConnectionCostPlugin":[` + c.name("InhibitConnectionPlugin") + `, "inhibitedPair":[[0,2],[1,2],[2,2]]}]`
	}
	return s + `}`
}

// library is the configuration the settings describe, made by hand.
func (c *zzC01) library() *gosudachi.JapaneseDictionary {
	var in []gosudachi.InputTextPlugin
	var oov []gosudachi.OovProviderPlugin
	var path []gosudachi.PathRewritePlugin
	var edit []gosudachi.EditConnectionCostPlugin
	if c.input&1 != 0 {
		in = append(in, gosudachi.NewDefaultInputTextPlugin(&gosudachi.DefaultInputTextPluginConfig{RewriteDef: c.dir + "/rewrite.def"}))
	}
	if c.input&2 != 0 {
		marks, repl := []string{"ー", "〜"}, "ー"
		in = append(in, gosudachi.NewProlongedSoundMarkInputTextPlugin(&gosudachi.ProlongedSoundMarkInputTextPluginConfig{ProlongedSoundMarks: &marks, ReplacementSymbol: &repl}))
	}
	if c.oov&1 != 0 {
		cd, ud := c.dir+"/cats.def", c.dir+"/unk.def"
		oov = append(oov, gosudachi.NewMeCabOovProviderPlugin(&gosudachi.MeCabOovProviderPluginConfig{CharDef: &cd, UnkDef: &ud}))
	}
	pos, l, r, cost := zzC01Sym, int16(2), int16(2), int16(7000)
	oov = append(oov, gosudachi.NewSimpleOovProviderPlugin(&gosudachi.SimpleOovProviderPluginConfig{OovPos: &pos, LeftId: &l, RightId: &r, Cost: &cost}))
	if c.path&1 != 0 {
		t := true
		path = append(path, gosudachi.NewJoinNumericPlugin(&gosudachi.JoinNumericPluginConfig{EnableNormalize: &t}))
	}
	if c.path&2 != 0 {
		pos, n := zzC01Noun, 3
		path = append(path, gosudachi.NewJoinKatakanaOovPlugin(&gosudachi.JoinKatakanaOovPluginConfig{OovPOS: &pos, MinLength: &n}))
	}
	if c.inhib {
		edit = append(edit, gosudachi.NewInhibitConnectionPlugin([]*[]int{{0, 2}, {1, 2}, {2, 2}}))
	}
	b := &gosudachi.BaseConfig{SystemDict: c.dir + "/system.dic", CharacterDefinitionFile: c.dir + "/char.def", Utf16String: c.utf16}
	if c.user {
		b.UserDict = []string{c.dir + "/user.dic"}
	}
	d, err := gosudachi.NewJapaneseDictionary(b, in, oov, path, edit)
	if err != nil {
		sym.Fail("the dictionary can be opened")
	}
	return d
}

// line is what is printed for a line; ok is false if it cannot be tokenized.
func zzC01Line(t *gosudachi.JapaneseTokenizer, mode, text string, all bool) (string, bool) {
	ms, err := t.Tokenize(mode, text)
	if err != nil {
		return "", false
	}
	out := ""
	for i := 0; i < ms.Length(); i++ {
		m := ms.Get(i)
		out += m.Surface() + "\t" + strings.Join(m.PartOfSpeech(), ",") + "\t" + m.NormalizedForm()
		if all {
			out += "\t" + m.DictionaryForm() + "\t" + m.ReadingForm() + "\t" + strconv.Itoa(m.GetDictionaryId())
			if m.IsOOV() {
				out += "\t(OOV)"
			}
		}
		out += "\n"
	}
	return out + "EOS\n", true
}

func zzC01End(c *zzC01) string {
	if c.end == "" {
		return "\n"
	}
	return c.end
}

// run runs the program over files (standard input if none) and compares with what it should print.
func (c *zzC01) run(files [][]string, stdin bool, mode string, all, ignore, toFile bool) {
	c.files()
	t := c.library().Create()
	want := ""
	failed := false
	var names []string
	for i, lines := range files {
		end := zzC01End(c)
		text := strings.Join(lines, end)
		if len(lines) > 0 && (i%2 == 0 || lines[len(lines)-1] == "") {
			text += end
		}
		names = append(names, sym.TempFile("in"+strconv.Itoa(i), []byte(text)))
		for _, l := range lines {
			if failed && !ignore {
				break
			}
			w, ok := zzC01Line(t, mode, l, all)
			if !ok {
				failed = true
			}
			want += w
		}
	}
	args := []string{"-r", sym.TempFile("settings.json", []byte(c.settings()))}
	if !c.inBase {
		args = append(args, "-p", c.dir)
	}
	if mode != "C" {
		args = append(args, "-m", mode)
	}
	if all {
		args = append(args, "-a")
	}
	if ignore {
		args = append(args, "-f")
	}
	if c.utf16 && !c.inSet {
		args = append(args, "-j")
	}
	out := sym.TempPath("out")
	if sym.Choose("existing", 2) == 1 {
		sym.TempFile("out", []byte("output of before\n"))
	}
	stdout := os.Stdout
	if toFile {
		args = append(args, "-o", out)
	} else {
		f, err := os.Create(out)
		if err != nil {
			sym.Fail("the output can be made")
		}
		os.Stdout = f
	}
	if stdin {
		f, err := os.Open(names[0])
		if err != nil {
			sym.Fail("the input can be read")
		}
		os.Stdin = f
	} else {
		args = append(args, names...)
	}
	sym.Args(args...)
	code := sym.RunMain(main)
	os.Stdout = stdout
	got, _ := sym.FileContent(out)
	if failed && !ignore {
		sym.Assert(code != 0, "a failure makes the exit status non-zero")
		sym.Reach("failed")
	} else {
		sym.Assert(code == 0, "the program succeeds")
		if failed {
			sym.Reach("ignored")
		}
	}
	sym.Assert(len(got) == len(want), "the morphemes of every line are printed")
	if len(got) == len(want) {
		sym.Assert(sym.EqStr(string(got), want), "the morphemes of every line are printed")
	}
	sym.Reach("printed")
}

func zzC01Text() string {
	switch sym.Choose("text", 7) {
	case 0:
		return ""
	case 5:
		return "い \x00"
	case 1:
		return "あい" + string(sym.Rune("char", 'あ', 'え'))
	case 2:
		return string([]byte{sym.ByteIn("digit", '0', '2')}) + "1x"
	case 3:
		return "ー〜い"
	case 4:
		return "カガ゛"
	}
	return "え京"
}

// ZZC01Lines: every line of every file, in order.
func ZZC01Lines() {
	c := zzC01New()
	c.input, c.oov, c.path, c.user = 3, 1, 3, true
	n := 1 + sym.Choose("files", 2)
	stdin := n == 1 && sym.Choose("stdin", 2) == 1
	var files [][]string
	for i := 0; i < n; i++ {
		var ls []string
		k := sym.Choose("lines", 3)
		for j := 0; j < k; j++ {
			if i == 0 && j == 0 {
				ls = append(ls, zzC01Text())
			} else {
				ls = append(ls, []string{"あ", "いう", "", "2"}[(i*2+j)%4])
			}
		}
		files = append(files, ls)
	}
	c.run(files, stdin, "C", false, false, sym.Choose("to file", 2) == 1)
}

// ZZC01Options: modes, fields, encodings, and every selection of plugins under each of their names.
func ZZC01Options() {
	c := zzC01New()
	mode := []string{"C", "B", "A"}[sym.Choose("mode", 3)]
	all := sym.Choose("all", 2) == 1
	switch sym.Choose("utf16", 4) {
	case 1:
		c.utf16 = true
	case 2:
		c.utf16, c.inSet = true, true
	case 3:
		c.inSet = true
	}
	c.inBase = sym.Choose("base", 2) == 1
	c.user = sym.Choose("user", 2) == 1
	c.input, c.oov, c.path = 3, 1, 3
	c.run([][]string{{zzC01Text(), "あいうえ"}}, false, mode, all, false, false)
}

// ZZC01Plugins: every selection of plugins under each of their names.
func ZZC01Plugins() {
	c := zzC01New()
	c.long = sym.Choose("name", 3)
	c.key = []string{"class", "name"}[sym.Choose("key", 2)]
	c.input, c.oov, c.path = sym.Choose("input", 4), sym.Choose("oov", 2), sym.Choose("path", 4)
	c.run([][]string{{zzC01Text()}}, false, "C", true, false, true)
}

// ZZC01Failing: lines that cannot be tokenized.
func ZZC01Failing() {
	c := zzC01New()
	c.inhib = true
	bad := sym.Choose("bad", 4)
	lines := []string{"あい", "い" + string(sym.Rune("char", 'あ', 'う')), "う"}
	if bad < 3 {
		lines[bad] += "京"
	}
	files := [][]string{lines}
	switch sym.Choose("files", 3) {
	case 1:
		files = [][]string{lines[:2], lines[2:]}
	case 2:
		files = [][]string{lines[:1], lines[1:2], lines[2:], {"い"}}
	}
	c.run(files, false, "C", sym.Choose("all", 2) == 1, sym.Choose("ignore", 2) == 1, sym.Choose("to file", 2) == 1)
}

// ZZC01Wrong: files that are not there or not what they should be.
func ZZC01Wrong() {
	c := zzC01New()
	c.files()
	in := sym.TempFile("in", []byte("あい\n"))
	settings := c.settings()
	args := []string{"-p", c.dir, "-o", sym.TempPath("out")}
	files := []string{in}
	set := ""
	switch sym.Choose("wrong", 8) {
	case 0:
		set = c.dir + "/none.json"
	case 1:
		settings = settings[:len(settings)-1]
	case 2:
		settings = strings.Replace(settings, "system.dic", "none.dic", 1)
	case 3:
		settings = strings.Replace(settings, "SimpleOovProviderPlugin", "SimplerOovProviderPlugin", 1)
	case 4:
		settings = strings.Replace(settings, "char.def", "none.def", 1)
	case 5:
		files = append(files, c.dir+"/none")
	case 6:
		args[3] = c.dir + "/none/out"
	case 7:
		settings = strings.Replace(settings, "system.dic", "user.dic", 1)
	}
	if set == "" {
		set = sym.TempFile("settings.json", []byte(settings))
	}
	sym.Args(append(append(args, "-r", set), files...)...)
	sym.Assert(sym.RunMain(main) != 0, "a failure makes the exit status non-zero")
	sym.Reach("failed")
}

// ZZC01Settings: -r, -s, both or neither.
func ZZC01Settings() {
	c := string([]byte{sym.ByteIn("letter", 'a', 'z')})
	file, add := "", ""
	want := struct{ system, char string }{"/res/system_core.dic", ""}
	if sym.Choose("file", 2) == 1 {
		file = sym.TempFile("s.json", []byte(`{"systemDict":"`+c+`.dic", "characterDefinitionFile":"c.def"}`))
		want.system, want.char = "/res/"+c+".dic", "/res/c.def"
	}
	switch sym.Choose("additional", 3) {
	case 1:
		add = `{"systemDict":"` + c + `2.dic"}`
		if file == "" {
			want.system = "/res/" + c + "2.dic"
		}
	case 2:
		add = `{"characterDefinitionFile":"/` + c + `"}`
		if file == "" {
			want.char = "/" + c
		}
	}
	s, _, err := parseSettings("/res", file, add)
	sym.Assert(err == nil, "the settings can be read")
	if err != nil {
		return
	}
	b := s.GetBaseConfig()
	sym.Assert(len(b.SystemDict) == len(want.system) && sym.EqStr(b.SystemDict, want.system), "-s adds to the default settings, -r replaces them")
	if file != "" || add != "" && want.char != "" {
		sym.Assert(len(b.CharacterDefinitionFile) == len(want.char) && sym.EqStr(b.CharacterDefinitionFile, want.char), "-s adds to the default settings, -r replaces them")
	}
	sym.Reach("settings")
}

// ZZC01Many: thousands of lines with each line ending, more than fit a buffer.
func ZZC01Many() {
	c := zzC01New()
	c.end = []string{"\n", "\r\n", "\r"}[sym.Choose("end", 3)]
	lead := []string{"", "a", "あ"}[sym.Choose("lead", 3)]
	ls := []string{lead}
	for i := 0; i < 4200/len(c.end)+2; i++ {
		ls = append(ls, "")
	}
	ls = append(ls, "あい"+string(sym.Rune("char", 'あ', 'え')), "2")
	files := [][]string{ls}
	if sym.Choose("files", 2) == 1 {
		files = append(files, []string{"", "う"})
	}
	c.run(files, false, "C", false, false, sym.Choose("to file", 2) == 1)
}
