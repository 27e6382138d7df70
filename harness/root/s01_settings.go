package gosudachi

import (
	"path/filepath"
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzSetPath is a non-empty path of up to n arbitrary bytes among letters, '/' and '.'.
func zzSetPath(name string, n int) string {
	k := 1 + sym.Choose(name+" length", n)
	b := make([]byte, k)
	for i := range b {
		switch sym.Choose(name+" kind", 3) {
		case 0:
			b[i] = sym.ByteIn(name, 'a', 'z')
		case 1:
			b[i] = '/'
		default:
			b[i] = '.'
		}
	}
	return string(b)
}

// zzResolved is the path the settings mean.
func zzResolved(base, p string) string {
	if p == "" || p[0] == '/' || base == "" {
		return p
	}
	return base + "/" + p
}

func zzSamePath(got, want, what string) {
	if want == "" {
		sym.Assert(got == "", what)
		return
	}
	sym.Assert(sym.EqStr(filepath.Clean(got), filepath.Clean(want)), what)
}

// ZZS01Path: one document; every way of giving a base and a path.
func ZZS01Path() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	def := ""
	if sym.Choose("resource directory", 2) == 1 {
		def = zzSetPath("resources", n)
	}
	base := def
	var doc []string
	if sym.Choose("path", 2) == 1 {
		base = zzSetPath("path", n)
		doc = append(doc, `"path":"`+base+`"`)
	}
	p := "" // names no file
	if sym.Choose("named", 4) > 0 {
		p = zzSetPath("file", n)
	}
	key := []string{"systemDict", "characterDefinitionFile", "userDict"}[sym.Choose("key", 3)]
	v := `"` + p + `"`
	if key == "userDict" {
		v = `["` + p + `"]`
	}
	kv := `"` + key + `":` + v
	if sym.Choose("order", 2) == 1 {
		doc = append([]string{kv}, doc...)
	} else {
		doc = append(doc, kv)
	}
	s := NewSettingsJSON()
	zzOk(s.ParseSettingsJSON(def, strings.NewReader("{"+strings.Join(doc, ", ")+"}")), "settings can be read")
	c := s.GetBaseConfig()
	var got string
	switch key {
	case "systemDict":
		got = c.SystemDict
	case "characterDefinitionFile":
		got = c.CharacterDefinitionFile
	default:
		sym.Assert(len(c.UserDict) == 1, "each user dictionary is kept")
		got = c.UserDict[0]
	}
	zzSamePath(got, zzResolved(base, p), "a relative path is resolved against the settings' path or the resource directory")
	if p == "" {
		sym.Reach("none")
	} else if p[0] == '/' {
		sym.Reach("absolute")
	} else if base != "" {
		sym.Reach("relative")
	}
	if key != "systemDict" {
		sym.Assert(c.SystemDict == "", "a value not given stays as it was")
	}
	if key != "characterDefinitionFile" {
		sym.Assert(c.CharacterDefinitionFile == "", "a value not given stays as it was")
	}
	if key != "userDict" {
		sym.Assert(len(c.UserDict) == 0, "a value not given stays as it was")
	}
	sym.Assert(!c.Utf16String, "a value not given stays as it was")
}

// ZZS01Later: documents parsed one after the other override only the values they name.
func ZZS01Later() {
	docs := 2
	if sym.Thorough() {
		docs = 3
	}
	s := NewSettingsJSON()
	base := ""
	var sys, char string
	var users []string
	utf16 := false
	for d := 0; d < docs; d++ {
		def := []string{"/r", "/q"}[sym.Choose("resource directory", 2)]
		var doc []string
		if sym.Choose("path", 2) == 1 {
			base = "/" + string([]byte{sym.ByteIn("path", 'a', 'p')})
			doc = append(doc, `"path":"`+base+`"`)
		} else if base == "" {
			base = def
		}
		name := string([]byte{sym.ByteIn("file", 'a', 'z')})
		if sym.Choose("absolute", 2) == 1 {
			name = "/" + name
		}
		if sym.Choose("system", 2) == 1 {
			doc = append(doc, `"systemDict":"`+name+`.dic"`)
			sys = zzResolved(base, name+".dic")
		}
		if sym.Choose("definition", 2) == 1 {
			doc = append(doc, `"characterDefinitionFile" : "`+name+`.def"`)
			char = zzResolved(base, name+".def")
		}
		switch n := sym.Choose("user", 3); n {
		case 1:
			doc = append(doc, `"userDict":["`+name+`u"]`)
			users = append(users, zzResolved(base, name+"u"))
		case 2:
			doc = append(doc, `"userDict" : ["`+name+`u", "`+name+`v"]`)
			users = append(users, zzResolved(base, name+"u"), zzResolved(base, name+"v"))
		}
		switch sym.Choose("encoding", 3) {
		case 1:
			doc = append(doc, `"utf16String":true`)
			utf16 = true
		case 2:
			doc = append(doc, `"utf16String":false`)
			utf16 = false
		}
		zzOk(s.ParseSettingsJSON(def, strings.NewReader("{"+strings.Join(doc, ",")+"}")), "settings can be read")
		c := s.GetBaseConfig()
		zzSamePath(c.SystemDict, sys, "the system dictionary is the one named last")
		zzSamePath(c.CharacterDefinitionFile, char, "the character definition file is the one named last")
		sym.Assert(c.Utf16String == utf16, "the encoding is the one named last")
		sym.Assert(len(c.UserDict) == len(users), "the user dictionaries are those named")
		for i := range users {
			zzSamePath(c.UserDict[i], users[i], "the user dictionaries are those named, in order")
		}
	}
	sym.Reach("parsed")
}

// zzStub is a plugin of every kind; its options are those of one settings entry.
type zzStub struct {
	name   string
	config struct {
		Text *string
		List *[]string
		Num  *int
	}
}

func (p *zzStub) GetConfigStruct() interface{} { return &p.config }
func (p *zzStub) ProvideOOV(t *InputText, offset int, other bool) ([]*LatticeNode, error) {
	return nil, nil
}

type zzStubInput struct{ zzStub }

func (p *zzStubInput) SetUp() error                            { return nil }
func (p *zzStubInput) Rewrite(builder *InputTextBuilder) error { return nil }

type zzStubOov struct{ zzStub }

func (p *zzStubOov) SetUp(g *dictionary.Grammar) error { return nil }

type zzStubPath struct{ zzStub }

func (p *zzStubPath) SetUp(g *dictionary.Grammar) error { return nil }
func (p *zzStubPath) Rewrite(text *InputText, path *[]*LatticeNode, lattice *Lattice) error {
	return nil
}

type zzStubEdit struct{ zzStub }

func (p *zzStubEdit) SetUp(g *dictionary.Grammar) error { return nil }
func (p *zzStubEdit) Edit(g *dictionary.Grammar) error  { return nil }

// zzMade makes the plugins a kind's settings list; unknown is the name no plugin has.
func zzMade(s *SettingsJSON, kind int, unknown string) (made []*zzStub, asked []string, err error) {
	known := func(n string) bool {
		asked = append(asked, n)
		return n != "" && !sym.EqStr(n, unknown)
	}
	switch kind {
	case 0:
		var ps []InputTextPlugin
		ps, err = s.GetInputTextPluginArray(func(n string) InputTextPlugin {
			if !known(n) {
				return nil
			}
			return &zzStubInput{zzStub{name: n}}
		})
		for _, p := range ps {
			made = append(made, &p.(*zzStubInput).zzStub)
		}
	case 1:
		var ps []OovProviderPlugin
		ps, err = s.GetOovProviderPluginArray(func(n string) OovProviderPlugin {
			if !known(n) {
				return nil
			}
			return &zzStubOov{zzStub{name: n}}
		})
		for _, p := range ps {
			made = append(made, &p.(*zzStubOov).zzStub)
		}
	case 2:
		var ps []PathRewritePlugin
		ps, err = s.GetPathRewritePluginArray(func(n string) PathRewritePlugin {
			if !known(n) {
				return nil
			}
			return &zzStubPath{zzStub{name: n}}
		})
		for _, p := range ps {
			made = append(made, &p.(*zzStubPath).zzStub)
		}
	default:
		var ps []EditConnectionCostPlugin
		ps, err = s.GetEditConnectionCostPluginArray(func(n string) EditConnectionCostPlugin {
			if !known(n) {
				return nil
			}
			return &zzStubEdit{zzStub{name: n}}
		})
		for _, p := range ps {
			made = append(made, &p.(*zzStubEdit).zzStub)
		}
	}
	return
}

var zzKinds = []string{"inputTextPlugin", "oovProviderPlugin", "pathRewritePlugin", "editConnectionCostPlugin"}

// ZZS01Plugins: each entry's plugin is the one it names, with the options it gives.
func ZZS01Plugins() {
	kind := sym.Choose("kind", 4)
	n := sym.Choose("entries", 4)
	if sym.Thorough() {
		n += sym.Choose("more", 2)
	}
	unknown := "px"
	var entries, names, texts []string
	var nums []int
	bad := -1
	for i := 0; i < n; i++ {
		name := "p" + string([]byte{sym.ByteIn("name", 'a', 'z')})
		text := string([]byte{sym.ByteIn("text", 'A', 'Z')})
		num := -1
		var fs []string
		switch sym.Choose("naming", 5) {
		case 0:
			fs = append(fs, `"name":"`+name+`"`)
		case 1:
			fs = append(fs, `"class":"`+name+`"`)
		case 2:
			fs = append(fs, `"class":"zz"`, `"name" : "`+name+`"`)
		case 3:
			fs = append(fs, `"name":"`+name+`"`, `"class":"zz"`)
		default:
			name = ""
		}
		switch sym.Choose("options", 3) {
		case 0:
			text = ""
		case 1:
			fs = append(fs, `"text":"`+text+`"`)
		default:
			num = i
			fs = append([]string{`"num":` + string([]byte{'0' + byte(i)}), `"text":"` + text + `"`}, fs...)
		}
		entries = append(entries, "{"+strings.Join(fs, ", ")+"}")
		names, texts, nums = append(names, name), append(texts, text), append(nums, num)
		if bad < 0 && (name == "" || sym.EqStr(name, unknown)) {
			bad = i
		}
	}
	s := NewSettingsJSON()
	doc := "{}"
	if n > 0 || sym.Choose("empty", 2) == 1 {
		doc = `{"` + zzKinds[kind] + `":[` + strings.Join(entries, ",") + `]}`
	}
	zzOk(s.ParseSettingsJSON("", strings.NewReader(doc)), "settings can be read")
	for k := range zzKinds {
		made, _, err := zzMade(s, k, unknown)
		if k != kind {
			sym.Assert(err == nil && len(made) == 0, "plugins of a kind come from its own entries")
			continue
		}
		if bad >= 0 {
			sym.Assert(err != nil, "an unknown or missing plugin name is an error")
			sym.Reach("unknown")
			continue
		}
		zzOk(err, "known plugins can be made")
		sym.Assert(len(made) == n, "every entry makes one plugin")
		for i, p := range made {
			sym.Assert(sym.EqStr(p.name, names[i]), "the plugin is the one the entry names")
			if texts[i] == "" {
				sym.Assert(p.config.Text == nil, "an option not given is not set")
			} else {
				sym.Assert(p.config.Text != nil && sym.EqStr(*p.config.Text, texts[i]), "the plugin has the entry's own options")
			}
			if nums[i] < 0 {
				sym.Assert(p.config.Num == nil, "an option not given is not set")
			} else {
				sym.Assert(p.config.Num != nil && *p.config.Num == nums[i], "the plugin has the entry's own options")
			}
		}
		sym.Reach("made")
	}
}

// ZZS01LaterPlugins: a later document replaces the plugin lists it names and no others.
func ZZS01LaterPlugins() {
	s := NewSettingsJSON()
	want := make([][]string, 4)
	for d := 0; d < 2; d++ {
		var doc []string
		for k, key := range zzKinds {
			if d == 0 && sym.Choose("all", 2) == 0 {
				continue
			}
			switch sym.Choose("entries", 3) {
			case 1:
				want[k] = []string{"p" + string([]byte{sym.ByteIn("name", 'a', 'z')})}
				doc = append(doc, `"`+key+`":[{"name":"`+want[k][0]+`"}]`)
			case 2:
				want[k] = nil
				doc = append(doc, `"`+key+`":[]`)
			}
		}
		zzOk(s.ParseSettingsJSON("", strings.NewReader("{"+strings.Join(doc, ",")+"}")), "settings can be read")
	}
	for k := range zzKinds {
		made, _, err := zzMade(s, k, "-")
		zzOk(err, "known plugins can be made")
		sym.Assert(len(made) == len(want[k]), "the plugins are those named last")
		for i, p := range made {
			sym.Assert(sym.EqStr(p.name, want[k][i]), "the plugins are those named last")
		}
	}
	sym.Reach("made")
}

// zzKindOf tells which of the seven plugins p is.
func zzKindOf(p interface{}) string {
	switch p.(type) {
	case *DefaultInputTextPlugin:
		return "DefaultInputTextPlugin"
	case *ProlongedSoundMarkInputTextPlugin:
		return "ProlongedSoundMarkInputTextPlugin"
	case *MeCabOovProviderPlugin:
		return "MeCabOovProviderPlugin"
	case *SimpleOovProviderPlugin:
		return "SimpleOovProviderPlugin"
	case *JoinNumericPlugin:
		return "JoinNumericPlugin"
	case *JoinKatakanaOovPlugin:
		return "JoinKatakanaOovPlugin"
	case *InhibitConnectionPlugin:
		return "InhibitConnectionPlugin"
	}
	return "?"
}

var zzPlugins = [][]string{
	{"DefaultInputTextPlugin", "ProlongedSoundMarkInputTextPlugin"},
	{"MeCabOovProviderPlugin", "SimpleOovProviderPlugin"},
	{"JoinNumericPlugin", "JoinKatakanaOovPlugin"},
	{"InhibitConnectionPlugin"},
}

// ZZS01Names: the documented names, and no others, name the plugins of their kind.
func ZZS01Names() {
	kind := sym.Choose("kind", 4)
	k := sym.Choose("of kind", 4)
	name := zzPlugins[k][sym.Choose("plugin", len(zzPlugins[k]))]
	full := name
	if sym.Choose("long", 2) == 1 {
		full = "com.worksap.nlp.sudachi." + name
	}
	ok := k == kind
	if sym.Choose("misspelt", 2) == 1 { // one byte is another
		b := []byte(full)
		i := sym.Choose("at", len(b))
		o := b[i]
		b[i] = sym.ByteIn("byte", '-', 'z')
		sym.Assume(b[i] != o && b[i] != '\\')
		full = string(b)
		ok = false
	}
	s := NewSettingsJSON()
	zzOk(s.ParseSettingsJSON("", strings.NewReader(`{"`+zzKinds[kind]+`":[{"class":"`+full+`"}]}`)), "settings can be read")
	var got []interface{}
	var err error
	switch kind {
	case 0:
		var ps []InputTextPlugin
		ps, err = s.GetInputTextPluginArray(DefMakeInputTextPlugin)
		for _, p := range ps {
			got = append(got, p)
		}
	case 1:
		var ps []OovProviderPlugin
		ps, err = s.GetOovProviderPluginArray(DefMakeOovProviderPlugin)
		for _, p := range ps {
			got = append(got, p)
		}
	case 2:
		var ps []PathRewritePlugin
		ps, err = s.GetPathRewritePluginArray(DefMakePathRewritePlugin)
		for _, p := range ps {
			got = append(got, p)
		}
	default:
		var ps []EditConnectionCostPlugin
		ps, err = s.GetEditConnectionCostPluginArray(DefMakeEditConnectionCostPlugin)
		for _, p := range ps {
			got = append(got, p)
		}
	}
	if !ok {
		sym.Assert(err != nil, "an unknown plugin name is an error")
		sym.Reach("unknown")
		return
	}
	zzOk(err, "known plugins can be made")
	sym.Assert(len(got) == 1 && zzKindOf(got[0]) == name, "the plugin is the one named")
	sym.Reach("known")
}

// ZZS01Inhibit: the pairs of connections the settings inhibit are inhibited.
func ZZS01Inhibit() {
	n := sym.Choose("pairs", 3)
	if sym.Thorough() {
		n += sym.Choose("more", 2)
	}
	var ps []string
	var want [9]bool
	for i := 0; i < n; i++ {
		l, r := sym.Choose("left", 3), sym.Choose("right", 3)
		ps = append(ps, "["+string([]byte{'0' + byte(l)})+", "+string([]byte{'0' + byte(r)})+"]")
		want[l+3*r] = true
	}
	key := []string{"inhibitedPair", "InhibitedPair"}[sym.Choose("key", 2)]
	doc := `{"editConnectionCostPlugin":[{"class":"com.worksap.nlp.sudachi.InhibitConnectionPlugin", "` + key + `":[` + strings.Join(ps, ",") + `]}]}`
	s := NewSettingsJSON()
	zzOk(s.ParseSettingsJSON("", strings.NewReader(doc)), "settings can be read")
	eds, err := s.GetEditConnectionCostPluginArray(DefMakeEditConnectionCostPlugin)
	zzOk(err, "known plugins can be made")
	m := []int16{1, 2, 3, 4, 5, 6, 7, 8, 9}
	m[sym.Choose("cell", 9)] = sym.Int16("cost")
	g := zzGrammar(nil, 3, 3, m, "")
	for _, p := range eds {
		zzOk(p.SetUp(g), "the plugin can be set up")
		zzOk(p.Edit(g), "connections can be inhibited")
	}
	for i, w := range want {
		c := g.GetConnectCost(int16(i%3), int16(i/3))
		if w {
			sym.Assert(c == 32767, "the pairs the settings name are inhibited")
		} else {
			sym.Assert(c == m[i], "the pairs the settings do not name are left alone")
		}
	}
	sym.Reach("inhibited")
}

// ZZS01Malformed: an entry that is no plugin description is an error.
func ZZS01Malformed() {
	kind := sym.Choose("kind", 4)
	bad := []string{`null`, `1`, `"pa"`, `[]`, `true`, `{"name":1}`, `{"name":"pa","text":1}`, `{"class":null}`, `{"name":"pa","num":"1"}`, `{"name":""}`}[sym.Choose("entry", 10)]
	es := []string{bad}
	at := sym.Choose("at", 3)
	if at > 0 {
		es = append([]string{`{"name":"pa"}`}, es...)
	}
	if at > 1 {
		es = append(es, `{"class":"pb"}`)
	}
	s := NewSettingsJSON()
	err := s.ParseSettingsJSON("", strings.NewReader(`{"`+zzKinds[kind]+`":[`+strings.Join(es, ",")+`]}`))
	if err == nil {
		_, _, err = zzMade(s, kind, "-")
	}
	sym.Assert(err != nil, "an entry that does not name a plugin is an error")
	sym.Reach("refused")
}
