package dictionary

import (
	"errors"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// ZZU01Calculate: the cost function is asked once for each word without a cost, with its surface, and
// decides that word's cost only.
func ZZU01Calculate() {
	n := 1 + sym.Choose("words", 4)
	if sym.Thorough() {
		n += sym.Choose("more", 3)
	}
	d := &zzref.Dict{Version: zzref.UserVersion2, Pos: [][]string{{"p", "*", "*", "*", "*", "*"}}, UTF16: sym.Choose("utf16", 2) == 1}
	for i := 0; i < n; i++ {
		w := zzref.W(string(rune('あ'+i)), int16(i), int16(-i), 0, 0)
		if i == 1 {
			w.Headword = "x" // found as something else
		}
		d.Words = append(d.Words, w)
	}
	img, lay := d.Image()
	costs := make([]int16, n)
	for i := range costs {
		costs[i] = sym.Int16("cost")
		lay.SetParam(img, i, 2, costs[i])
	}
	before := append([]byte{}, img...)
	lex := NewDoubleArrayLexicon(img, lay.Lexicon, d.UTF16)
	fail := sym.Choose("fail", n+1)
	want := append([]int16{}, costs...)
	asked := make([]int, n)
	bad := errors.New("bad")
	failed := false
	err := lex.CalculateCost(func(text string) (int16, error) {
		k := -1
		for i := range d.Words {
			if d.Words[i].Surface == text {
				k = i
			}
		}
		sym.Assert(k >= 0, "the cost is computed from the surface")
		asked[k]++
		sym.Assert(costs[k] == -32768 && asked[k] == 1, "a cost is computed for words asking for it, once")
		if k == fail {
			failed = true
			return 0, bad
		}
		want[k] = sym.Int16("computed")
		return want[k], nil
	})
	if failed {
		sym.Assert(err != nil, "a cost that cannot be computed is reported")
		sym.Reach("failed")
	} else {
		sym.Assert(err == nil, "costs can be computed")
		for i := range costs {
			sym.Assert(asked[i] == 1 || costs[i] != -32768, "a cost is computed for every word asking for it")
		}
	}
	for i := range costs {
		sym.Assert(lex.GetCost(int32(i)) == want[i] || failed && costs[i] == -32768, "the costs are those computed and those given")
		sym.Assert(lex.GetLeftId(int32(i)) == int16(i) && lex.GetRightId(int32(i)) == int16(-i), "connection ids are left alone")
		wi := lex.GetWordInfo(int32(i))
		sym.Assert(wi.Surface == d.Words[i].Surface, "the other data are left alone")
	}
	sym.Assert(lex.Size() == int32(n), "the other data are left alone")
	sym.Assert(sym.EqBytes(img, before), "the dictionary image is not modified")
	sym.Reach("computed")
}
