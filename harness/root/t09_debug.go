package gosudachi

import (
	"bytes"
	"strconv"
	"strings"

	"github.com/msnoigrs/gosudachi/dictionary"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

var zzT09World *zzWorld

func ZZT09Setup() { zzT09World = zzWorldNew() }

// ZZT09Same: tokenizing texts with debug output gives what it gives without.
func ZZT09Same() {
	words := []string{"東京都", "二十一", "アイガ", "㍿", ""}
	a, b := zzT09World.tokenizer(), zzT09World.tokenizer()
	out := &bytes.Buffer{}
	a.DumpOutput = out
	mode := []string{"A", "B", "C"}[sym.Choose("mode", 3)]
	texts := []string{words[sym.Choose("word", len(words))] + string([]rune{zzWorldChar()}), words[sym.Choose("second", 2)]}
	for _, text := range texts {
		m, err := a.Tokenize(mode, text)
		n, err2 := b.Tokenize(mode, text)
		sym.Assert((err == nil) == (err2 == nil), "debug output does not change whether a text can be tokenized")
		if err != nil {
			continue
		}
		sym.Assert(zzSameMorphs(zzMorphs(m), zzMorphs(n)), "debug output does not change the morphemes")
		sym.Assert(m.GetInternalCost() == n.GetInternalCost(), "debug output does not change the cost")
	}
	sym.Reach("compared")
}

// zzT09Section is the lines after a heading.
func zzT09Section(out, heading string) []string {
	i := strings.Index(out, heading+"\n")
	if i < 0 {
		sym.Fail("the debug output has the section " + heading)
	}
	out = out[i+len(heading)+1:]
	if j := strings.Index(out, "==="); j >= 0 {
		out = out[:j]
	}
	return strings.Split(strings.TrimSuffix(out, "\n"), "\n")
}

func zzT09Node(n *LatticeNode) string {
	return strconv.Itoa(n.Begin) + " " + strconv.Itoa(n.End) + " " + n.GetWordInfo().Surface + "("
}

// ZZT09Content: what the debug output says.
func ZZT09Content() {
	texts := []string{"東京都", "京都東x", "㍿アイガ", "二十一円", "あい〜〜"}
	text := texts[sym.Choose("text", len(texts))] + []string{"", "1", "ー", "京"}[sym.Choose("after", 4)]
	t := zzT09World.tokenizer()
	out := &bytes.Buffer{}
	zzT09Earlier(t, out)
	t.DumpOutput = out
	mode := []string{"A", "B", "C"}[sym.Choose("mode", 3)]
	ms, err := t.Tokenize(mode, text)
	if err != nil {
		sym.Skip()
	}
	in := zzT09Section(out.String(), "=== Input dump")
	sym.Assert(len(in) == 1 && in[0] == ms.inputText.GetText(), "the debug output shows the text after rewriting")
	before := zzT09Section(out.String(), "=== Before rewriting:")
	after := zzT09Section(out.String(), "=== After rewriting:")
	lattice := zzT09Section(out.String(), "=== Lattice dump")
	sym.Assert(len(after) == ms.Length(), "the debug output shows the path returned")
	if len(after) != ms.Length() {
		return
	}
	for i, n := range ms.path {
		sym.Assert(strings.HasPrefix(after[i], strconv.Itoa(i)+": "+zzT09Node(n)), "the debug output shows the path returned")
	}
	// the path before rewriting tiles the text and is made of nodes of the lattice
	pos := 0
	for i, s := range before {
		f := strings.Fields(s)
		sym.Assert(len(f) >= 4 && f[0] == strconv.Itoa(i)+":" && f[1] == strconv.Itoa(pos), "the debug output shows a path")
		pos, _ = strconv.Atoi(f[2])
		in := false
		for _, l := range lattice {
			g := strings.Fields(l)
			if len(g) > 4 && g[1] == f[1] && g[2] == f[2] && g[3] == f[3] {
				in = true
			}
		}
		sym.Assert(in, "the debug output shows the nodes of the lattice")
	}
	sym.Assert(pos == len(ms.inputText.GetText()), "the debug output shows a path")
	sym.Reach("shown")
}

// zzT09Earlier tokenizes another text with the tokenizer, or none, with or without debug output.
func zzT09Earlier(t *JapaneseTokenizer, out *bytes.Buffer) {
	k := sym.Choose("earlier", 3)
	if k == 0 {
		return
	}
	if k == 2 {
		t.DumpOutput = out
	}
	if _, err := t.Tokenize("C", "東京都京都東東京都a"); err != nil {
		sym.Fail("the earlier text can be tokenized")
	}
	out.Reset()
}

// zzT09Path records the lattice it is shown.
type zzT09Path struct{ want map[string]int }

func (p *zzT09Path) GetConfigStruct() interface{}            { return nil }
func (p *zzT09Path) SetUp(grammar *dictionary.Grammar) error { return nil }
func (p *zzT09Path) Rewrite(text *InputText, path *[]*LatticeNode, lattice *Lattice) error {
	p.want = map[string]int{}
	w := zzT09World
	size := len(text.Bytea)
	cost := func(left []*LatticeNode, leftId int16) string {
		s := ""
		for _, l := range left {
			s += " " + strconv.Itoa(int(w.grammar.GetConnectCost(l.rightId, leftId)))
		}
		return s
	}
	p.want["0 0 (null)(0) BOS/EOS 0 0 0:"+cost(lattice.GetNodesWithEnd(0), 0)]++
	end := strconv.Itoa(size)
	p.want[end+" "+end+" (null)(0) BOS/EOS 0 0 0:"+cost(lattice.GetNodesWithEnd(size), 0)]++
	for e := 1; e <= size; e++ {
		for _, n := range lattice.GetNodesWithEnd(e) {
			wi := n.GetWordInfo()
			p.want[strconv.Itoa(n.Begin)+" "+strconv.Itoa(e)+" "+wi.Surface+"("+strconv.Itoa(int(n.wordId))+") "+
				strings.Join(w.grammar.GetPartOfSpeechString(wi.PosId), ",")+" "+strconv.Itoa(int(n.leftId))+" "+strconv.Itoa(int(n.rightId))+" "+strconv.Itoa(n.GetPathCost())+":"+
				cost(lattice.GetNodesWithEnd(n.Begin), n.leftId)]++
		}
	}
	return nil
}

// ZZT09Lattice: the debug output shows every node of the lattice once, with all there is to it.
func ZZT09Lattice() {
	texts := []string{"東京都", "京都東x", "㍿アイガ", "二十一円", "あい〜〜", "1,2", "a γ"}
	text := texts[sym.Choose("text", len(texts))] + string([]rune{zzWorldChar()})
	p := &zzT09Path{}
	w := zzT09World
	t := NewJapaneseTokenizer(w.grammar, w.lexicon, w.input, w.oov, append([]PathRewritePlugin{p}, w.path...))
	out := &bytes.Buffer{}
	zzT09Earlier(t, out)
	t.DumpOutput = out
	ms, err := t.Tokenize("C", text)
	if err != nil || strings.Contains(ms.inputText.GetText(), "=") {
		sym.Skip()
	}
	lines := zzT09Section(out.String(), "=== Lattice dump")
	n := 0
	for i, l := range lines {
		head := strconv.Itoa(i) + ": "
		sym.Assert(strings.HasPrefix(l, head), "the nodes of the lattice are numbered")
		if !strings.HasPrefix(l, head) {
			return
		}
		l = strings.TrimRight(l[len(head):], " ")
		sym.Assert(p.want[l] > 0, "every line is a node of the lattice")
		p.want[l]--
		n++
	}
	left := 0
	for _, c := range p.want {
		left += c
	}
	sym.Assert(left == 0, "every node of the lattice has a line")
	sym.Reach("shown")
}
