package gosudachi

import (
	"github.com/msnoigrs/gosudachi/dictionary"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

var zzS02Pos = [][]string{
	{"A", "b", "*", "*", "*", "*"},
	{"A", "b", "*", "*", "*", "c"},
	{"B", "b", "*", "*", "*", "*"},
}

func zzS02Grammar() *dictionary.Grammar {
	return zzGrammar(zzS02Pos, 2, 2, []int16{0, 0, 0, 0}, zzCharDef)
}

// zzS02Names is a list of names and the id of the part of speech it is, or -1.
func zzS02Names() ([]string, int) {
	names := []string{"A", "b", "*", "*", "*", "*"}
	if sym.Choose("last", 2) == 1 {
		names[5] = "c"
	}
	n := sym.Choose("names", 9)
	for len(names) < n {
		names = append(names, []string{"*", "c"}[sym.Choose("more", 2)])
	}
	names = names[:n]
	at := sym.Choose("changed", 10)
	if at < n {
		c := sym.ByteIn("name", 0x20, 0x7e)
		names[at] = string([]byte{c})
	}
	if at == 9 && n > 0 {
		names[n-1] += string([]byte{sym.Byte("extra") & 0x7f})
	}
	id := -1
	if n == 6 {
		for i, p := range zzS02Pos {
			same := true
			for j := range p {
				same = sym.And(same, sym.EqStr(p[j], names[j]))
			}
			if same {
				id = i
				break
			}
		}
	}
	return names, id
}

// ZZS02Pos: the part of speech of a plugin is one of the dictionary's or its set-up fails.
func ZZS02Pos() {
	g := zzS02Grammar()
	names, id := zzS02Names()
	if sym.Choose("plugin", 2) == 0 {
		l, r, c := sym.Int16("left"), sym.Int16("right"), sym.Int16("cost")
		p := NewSimpleOovProviderPlugin(&SimpleOovProviderPluginConfig{OovPos: &names, LeftId: &l, RightId: &r, Cost: &c})
		err := p.SetUp(g)
		if id < 0 {
			sym.Assert(err != nil, "names that are no part of speech of the dictionary are refused")
			sym.Reach("refused")
			return
		}
		sym.Assert(err == nil, "a part of speech of the dictionary is accepted")
		if err != nil {
			return
		}
		nodes, err := p.ProvideOOV(zzInput("k", g), 0, false)
		if err != nil || len(nodes) != 1 {
			sym.Fail("a simple unknown word is offered")
			return
		}
		sym.Assert(int(nodes[0].GetWordInfo().PosId) == id, "the unknown words have the part of speech named")
		sym.Reach("simple")
		return
	}
	p := NewJoinKatakanaOovPlugin(&JoinKatakanaOovPluginConfig{OovPOS: &names})
	err := p.SetUp(g)
	if id < 0 {
		sym.Assert(err != nil, "names that are no part of speech of the dictionary are refused")
		return
	}
	sym.Assert(err == nil, "a part of speech of the dictionary is accepted")
	if err != nil {
		return
	}
	text := zzInput("アイ", g)
	lattice := NewLattice(g)
	lattice.resize(6)
	node := zzNode(0, 3, &dictionary.WordInfo{Surface: "ア", HeadwordLength: 3, PosId: 9})
	node.IsOov = true
	two := zzNode(3, 6, &dictionary.WordInfo{Surface: "イ", HeadwordLength: 3, PosId: 9})
	two.IsOov = true
	path := []*LatticeNode{node, two}
	zzOk(p.Rewrite(text, &path, lattice), "katakana unknown words are joined")
	sym.Assert(len(path) == 1, "katakana unknown words are joined")
	if len(path) == 1 {
		sym.Assert(int(path[0].GetWordInfo().PosId) == id, "the joined words have the part of speech named")
	}
	sym.Reach("katakana")
}

// ZZS02Options: an option a plugin cannot do without has to be given.
func ZZS02Options() {
	g := zzS02Grammar()
	names := zzS02Pos[1]
	switch sym.Choose("plugin", 3) {
	case 0:
		l, r, c := sym.Int16("left"), sym.Int16("right"), sym.Int16("cost")
		cfg := &SimpleOovProviderPluginConfig{OovPos: &names, LeftId: &l, RightId: &r, Cost: &c}
		missing := sym.Choose("missing", 32)
		if missing&1 != 0 {
			cfg.OovPos = nil
		}
		if missing&2 != 0 {
			cfg.LeftId = nil
		}
		if missing&4 != 0 {
			cfg.RightId = nil
		}
		if missing&8 != 0 {
			cfg.Cost = nil
		}
		if missing == 16 {
			cfg = nil
		} else if missing > 16 {
			return
		}
		p := NewSimpleOovProviderPlugin(cfg)
		err := p.SetUp(g)
		sym.Assert((err != nil) == (missing != 0), "an unknown word needs its part of speech, both ids and its cost")
		if missing == 0 {
			nodes, err := p.ProvideOOV(zzInput("k", g), 0, false)
			if err != nil || len(nodes) != 1 {
				sym.Fail("a simple unknown word is offered")
				return
			}
			n := nodes[0]
			same := sym.And(n.leftId == l, n.rightId == r)
			sym.Assert(sym.And(same, n.cost == c), "the unknown words have the ids and the cost given")
			sym.Reach("simple")
		}
	case 1:
		cfg := &JoinKatakanaOovPluginConfig{OovPOS: &names}
		given := sym.Choose("min", 2) == 1
		min := sym.Int("minLength", -1<<40, 1<<40)
		if given {
			cfg.MinLength = &min
		}
		noPos := sym.Choose("pos", 2) == 1
		if noPos {
			cfg.OovPOS = nil
		}
		if given && noPos && sym.Choose("none", 2) == 1 {
			cfg = nil
		}
		err := NewJoinKatakanaOovPlugin(cfg).SetUp(g)
		if noPos {
			sym.Assert(err != nil, "joining katakana needs a part of speech")
		} else if given {
			sym.Assert((err != nil) == (min < 0), "a negative length is refused, any other accepted")
			sym.Reach("length")
		} else {
			sym.Assert(err == nil, "the length may be left out")
		}
	case 2:
		marks := []string{"ー", "〜"}[:sym.Choose("marks", 3)]
		symbol := []string{"", "ー", "xy"}[sym.Choose("symbol", 3)]
		cfg := &ProlongedSoundMarkInputTextPluginConfig{ProlongedSoundMarks: &marks, ReplacementSymbol: &symbol}
		missing := sym.Choose("missing", 4)
		if missing&1 != 0 {
			cfg.ProlongedSoundMarks = nil
		}
		if missing&2 != 0 {
			cfg.ReplacementSymbol = nil
		}
		if missing == 3 && len(marks) == 0 {
			cfg = nil
		}
		err := NewProlongedSoundMarkInputTextPlugin(cfg).SetUp()
		sym.Assert((err != nil) == (missing != 0 || len(marks) == 0), "prolonged marks need the marks and what replaces them")
		sym.Reach("prolonged")
	}
}

// zzS02MeCab sets the category provider up with the files given.
func zzS02MeCab(cats, unk string) (*MeCabOovProviderPlugin, *dictionary.Grammar, error) {
	g := zzS02Grammar()
	c := sym.TempFile("cats.def", []byte(cats))
	u := sym.TempFile("unk.def", []byte(unk))
	p := NewMeCabOovProviderPlugin(&MeCabOovProviderPluginConfig{CharDef: &c, UnkDef: &u})
	return p, g, p.SetUp(g)
}

var zzS02Names2 = []string{"DEFAULT", "ALPHA", "USER1", "NOOOVBOW", "alpha", "USER5", "ALPHAX", ""}

// ZZS02Categories: what a category of unknown words is, line by line.
func ZZS02Categories() {
	before := sym.Choose("before", 4)
	src := []string{"", "# c\n\n", "DEFAULT 0 1 0\n", "0x0041 ALPHA\nDEFAULT 0 1 0 # c\n"}[before]
	name := sym.Choose("name", len(zzS02Names2))
	sep := []string{" ", "\t", "   "}[sym.Choose("separator", 3)]
	c := sym.ByteIn("length", 0x20, 0x7e)
	d := string([]byte{c})
	cols := sym.Choose("columns", 3)
	line := zzS02Names2[name] + sep + "1" + sep + "0"
	num := sym.And(c >= '0', c <= '9')
	have := c != ' '
	switch cols {
	case 0:
		line += sep + d
	case 1:
		line += sep + d + sep + "x"
		have = true // the comment after it stands for the length
		if c == ' ' {
			num = false
		}
	case 2:
		have = false
	}
	if name == 7 && cols != 1 {
		have = false
	}
	src += line + "\n"
	p, g, err := zzS02MeCab(src, "")
	ok := have && num && name < 4 && !(name == 0 && before >= 2)
	sym.Assert((err == nil) == ok, "a category is accepted if it is known, given once, and has a length")
	if err != nil {
		sym.Reach("refused")
		return
	}
	_, perr := p.ProvideOOV(zzInput("k", g), 0, false)
	sym.Assert(perr == nil, "a category without words offers none")
	sym.Reach("accepted")
}

// ZZS02Unknown: what an unknown word is, line by line.
func ZZS02Unknown() {
	cat := sym.Choose("category", 4) // defined, undefined, unknown, empty
	field := sym.Choose("field", 4)
	nums := []string{"1", "-1", "300"}
	want := []int{1, -1, 300}
	ok := cat == 0
	if field < 3 {
		pre := sym.Choose("number", 6)
		d := sym.ByteIn("digit", 0x20, 0x7e)
		nums[field] = []string{"", "3276", "-3276", "3277", "-", "6553"}[pre] + string([]byte{d})
		isDigit := sym.And(d >= '0', d <= '9')
		v := int(d) - '0'
		switch pre {
		case 1:
			v += 32760
		case 2:
			v = -32760 - v
		case 3:
			v += 32770
		case 4:
			v = -v
		case 5:
			v += 65530
		}
		sym.Assume(d != ',') // another column
		ok = ok && isDigit && v >= -32768 && v <= 32767
		want[field] = v
	}
	pos := []string{"A", "b", "*", "*", "*", "*"}
	posId := 0
	if field == 3 {
		at := sym.Choose("changed", 7)
		if at < 6 {
			c := sym.ByteIn("name", 0x20, 0x7e)
			sym.Assume(c != ',') // another column
			pos[at] = string([]byte{c})
		} else {
			pos = pos[:5]
		}
		posId = -1
		if len(pos) == 6 {
			for i, p := range zzS02Pos {
				same := true
				for j := range p {
					same = sym.And(same, sym.EqStr(p[j], pos[j]))
				}
				if same {
					posId = i
				}
			}
		}
		ok = ok && posId >= 0
	}
	line := []string{"ALPHA", "KANJI", "LATIN", ""}[cat]
	for _, n := range nums {
		line += "," + n
	}
	for _, s := range pos {
		line += "," + s
	}
	if sym.Choose("tail", 2) == 1 && len(pos) == 6 {
		line += ",more"
	}
	p, g, err := zzS02MeCab("ALPHA 1 0 1\nDEFAULT 0 1 0\n", line+"\n")
	sym.Assert((err == nil) == ok, "an unknown word is accepted if its category is defined, its numbers fit and its part of speech is the dictionary's")
	if err != nil {
		sym.Reach("refused")
		return
	}
	nodes, perr := p.ProvideOOV(zzInput("k", g), 0, false)
	if perr != nil || len(nodes) != 1 {
		sym.Fail("the word of the category is offered")
		return
	}
	n := nodes[0]
	same := sym.And(int(n.leftId) == want[0], int(n.rightId) == want[1])
	same = sym.And(same, int(n.cost) == want[2])
	sym.Assert(sym.And(same, int(n.GetWordInfo().PosId) == posId), "the word offered has the ids, the cost and the part of speech of its line")
	sym.Reach("offered")
}
