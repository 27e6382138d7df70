package gosudachi

import (
	"github.com/msnoigrs/gosudachi/dictionary"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// zzStr is an arbitrary string of 0..max bytes.
func zzStr(name string, max int) string {
	return sym.String(name, sym.Choose(name+"Len", max+1))
}

func zzSameInfo(a, b *dictionary.WordInfo) bool {
	return len(a.Surface) == len(b.Surface) && a.Surface == b.Surface && a.HeadwordLength == b.HeadwordLength && a.PosId == b.PosId && len(a.NormalizedForm) == len(b.NormalizedForm) && a.NormalizedForm == b.NormalizedForm &&
		len(a.DictionaryForm) == len(b.DictionaryForm) && a.DictionaryForm == b.DictionaryForm && len(a.ReadingForm) == len(b.ReadingForm) && a.ReadingForm == b.ReadingForm
}

// zzP02Path is a path of n words with arbitrary attributes; each covers 1..2 bytes of text.
func zzP02Path(n, maxStr int) (path []*LatticeNode, infos []dictionary.WordInfo, starts []int) {
	pos := 0
	lens := 0
	for i := 0; i < n; i++ {
		w := 1
		if i == 1 {
			w = 3
		}
		wi := &dictionary.WordInfo{PosId: sym.Int16("pos"), HeadwordLength: sym.Int16("headLen"), DictionaryFormWordId: -1}
		sym.Assume(wi.HeadwordLength >= 0)
		lens += int(wi.HeadwordLength)
		sym.Assume(lens <= 32767)
		wi.Surface = sym.String("surface", 1+i%2)
		wi.NormalizedForm = zzStr("norm", maxStr)
		wi.DictionaryForm = sym.String("dform", 1)
		wi.ReadingForm = zzStr("reading", 1)
		starts = append(starts, pos)
		path = append(path, zzNode(pos, pos+w, wi))
		infos = append(infos, *wi)
		pos += w
	}
	starts = append(starts, pos)
	return
}

func zzP02Rest(path, orig []*LatticeNode, infos []dictionary.WordInfo, starts []int, b, e int) {
	sym.Assert(len(path) == len(orig)-(e-b)+1, "joining replaces exactly the joined words by one")
	for i := range orig {
		k := i
		if i >= b && i < e {
			continue
		}
		if i >= e {
			k = i - (e - b) + 1
		}
		sym.Assert(path[k] == orig[i], "all other words keep their identity and order")
	}
	for i, n := range orig {
		wi := infos[i]
		sym.Assert(n.Begin == starts[i] && n.End == starts[i+1] && zzSameInfo(n.GetWordInfo(), &wi), "the joined words themselves are not modified")
	}
}

// ZZP02Nodes: ConcatenateNodes over every range of a path.
func ZZP02Nodes() {
	max := 4
	if sym.Thorough() {
		max = 6
	}
	n := 1 + sym.Choose("len", max)
	path, infos, starts := zzP02Path(n, 1)
	for i := range path {
		if i%3 != 1 {
			path[i].SetOOV() // what is joined from unknown words is no unknown word
		}
	}
	orig := append([]*LatticeNode{}, path...)
	b := sym.Choose("begin", n+1)
	e := sym.Choose("end", n+1)
	override := ""
	if sym.Choose("override", 2) == 1 {
		override = sym.String("given", 2)
	}
	if b == n && e > b {
		sym.Skip()
	}
	node, err := ConcatenateNodes(&path, b, e, nil, override)
	if b >= e {
		sym.Assert(err != nil, "an empty range is refused")
		sym.Assert(len(path) == n, "a refused join leaves the path alone")
		for i := range path {
			sym.Assert(path[i] == orig[i], "a refused join leaves the path alone")
		}
		sym.Reach("refused")
		return
	}
	zzOk(err, "joining a range succeeds")
	zzP02Rest(path, orig, infos, starts, b, e)
	sym.Assert(path[b] == node, "the joined word takes the place of the first")
	want := dictionary.WordInfo{PosId: infos[b].PosId}
	for _, wi := range infos[b:e] {
		want.Surface += wi.Surface
		want.HeadwordLength += wi.HeadwordLength
		want.NormalizedForm += wi.NormalizedForm
		want.DictionaryForm += wi.DictionaryForm
		want.ReadingForm += wi.ReadingForm
	}
	if override != "" {
		want.NormalizedForm = override
	}
	got := node.GetWordInfo()
	sym.Assert(!node.IsOOV(), "a word is marked unknown only when joined as an unknown word")
	sym.Assert(node.Begin == starts[b] && node.End == starts[e], "the joined word spans the range")
	sym.Assert(got.HeadwordLength == want.HeadwordLength, "the byte length is the sum")
	sym.Assert(got.PosId == want.PosId, "the part of speech is the first word's")
	sym.Assert(len(got.Surface) == len(want.Surface) && sym.EqStr(got.Surface, want.Surface), "the surface is the concatenation")
	sym.Assert(len(got.NormalizedForm) == len(want.NormalizedForm) && sym.EqStr(got.NormalizedForm, want.NormalizedForm), "the normalized form is the concatenation or the given one")
	sym.Assert(len(got.DictionaryForm) == len(want.DictionaryForm) && sym.EqStr(got.DictionaryForm, want.DictionaryForm), "the dictionary form is the concatenation")
	sym.Assert(len(got.ReadingForm) == len(want.ReadingForm) && sym.EqStr(got.ReadingForm, want.ReadingForm), "the reading is the concatenation")
	sym.Assert(len(got.AUnitSplit) == 0 && len(got.BUnitSplit) == 0, "a joined word has no split units")
	sym.Reach("joined")
}

// ZZP02Oov: ConcatenateOov with arbitrary candidates in the lattice.
func ZZP02Oov() {
	max, cands := 3, 3
	if sym.Thorough() {
		max, cands = 4, 4
	}
	n := 1 + sym.Choose("len", max)
	path, infos, starts := zzP02Path(n, 0)
	orig := append([]*LatticeNode{}, path...)
	g := zzGrammar([][]string{zzNounPos}, 1, 1, nil, zzCharDef)
	lat := NewLattice(g)
	lat.resize(starts[n])
	var cs []*LatticeNode
	m := sym.Choose("candidates", cands+1)
	for i := 0; i < m; i++ {
		cb := sym.Choose("cbegin", n)
		ce := cb + 1 + sym.Choose("cspan", n-cb)
		c := zzNode(0, 0, &dictionary.WordInfo{Surface: "c"})
		c.SetParameter(0, 0, sym.Int16("cost"))
		c.IsOov = (i+m)%2 == 0
		lat.Insert(starts[cb], starts[ce], c)
		cs = append(cs, c)
	}
	b := sym.Choose("begin", n+1)
	e := sym.Choose("end", n+1)
	if b == n && e > b {
		sym.Skip()
	}
	posId := sym.Int16("oovPos")
	node, err := ConcatenateOov(&path, b, e, posId, lat)
	if b >= e {
		sym.Assert(err != nil, "an empty range is refused")
		sym.Assert(len(path) == n, "a refused join leaves the path alone")
		sym.Reach("refused")
		return
	}
	zzOk(err, "joining a range succeeds")
	zzP02Rest(path, orig, infos, starts, b, e)
	sym.Assert(path[b] == node, "the joined word takes the place of the first")
	sym.Assert(node.Begin == starts[b] && node.End == starts[e], "the joined word spans the range")
	found := false
	isCand := false
	for _, c := range cs {
		if c.Begin == starts[b] && c.End == starts[e] {
			found = true
			sym.Assert(node.GetPathCost() <= c.GetPathCost(), "the cheapest candidate of the range is used")
			if node == c {
				isCand = true
			}
		}
	}
	if found {
		sym.Assert(isCand, "an existing candidate of the range is used")
		sym.Reach("candidate")
		return
	}
	surface := ""
	var hl int16
	for _, wi := range infos[b:e] {
		surface += wi.Surface
		hl += wi.HeadwordLength
	}
	got := node.GetWordInfo()
	sym.Assert(node.IsOOV(), "a newly made word is an unknown word")
	sym.Assert(got.PosId == posId && got.HeadwordLength == hl, "the new word has the given part of speech and the summed length")
	sym.Assert(sym.EqStr(got.Surface, surface) && sym.EqStr(got.NormalizedForm, surface) && sym.EqStr(got.DictionaryForm, surface), "the forms are the concatenated surface")
	sym.Assert(len(got.AUnitSplit) == 0 && len(got.BUnitSplit) == 0, "a joined word has no split units")
	sym.Reach("new")
}

// ZZP02Numeric: numeral joining without normalization concatenates.
func ZZP02Numeric() {
	g := zzGrammar([][]string{zzNounPos, zzSymPos, zzNumPos}, 1, 1, nil, zzCharDef)
	off := false
	p := NewJoinNumericPlugin(&JoinNumericPluginConfig{EnableNormalize: &off})
	zzOk(p.SetUp(g), "set-up")
	before, n, after := sym.Choose("before", 2), 1+sym.Choose("len", 4), sym.Choose("after", 2)
	text := ""
	var path []*LatticeNode
	add := func(s string, pos int16, norm string) {
		path = append(path, zzNode(len(text), len(text)+len(s), &dictionary.WordInfo{Surface: s, HeadwordLength: int16(len(s)), PosId: pos, NormalizedForm: norm, DictionaryForm: s, ReadingForm: "r"}))
		text += s
	}
	if before == 1 {
		add("円", 0, "円")
	}
	norms := ""
	for i := 0; i < n; i++ {
		d := string([]byte{byte('0' + sym.Int("digit", 0, 9))})
		add(d, 2, d)
		norms += d
	}
	if after == 1 {
		add("円", 0, "円")
	}
	orig := append([]*LatticeNode{}, path...)
	zzOk(p.Rewrite(zzInput(text, g), &path, nil), "numeral joining succeeds")
	sym.Assert(len(path) == before+1+after, "the digits become one word")
	if before == 1 {
		sym.Assert(path[0] == orig[0], "the word before is kept")
	}
	if after == 1 {
		sym.Assert(path[len(path)-1] == orig[len(orig)-1], "the word after is kept")
	}
	node := path[before]
	sym.Assert(node.Begin == orig[before].Begin && node.End == orig[before+n-1].End, "the joined word spans the digits")
	wi := node.GetWordInfo()
	sym.Assert(sym.EqStr(wi.Surface, norms) && sym.EqStr(wi.NormalizedForm, norms), "without normalization the form is the concatenation")
	sym.Assert(int(wi.HeadwordLength) == n && wi.PosId == 2, "length and part of speech are kept")
	sym.Reach("numeric")
}
