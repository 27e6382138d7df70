package gosudachi

import (
	"github.com/msnoigrs/gosudachi/dictionary"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

const zzT08Size = 3

type zzT08Node struct {
	b, e    int
	n       *LatticeNode
	removed bool
}

// ZZT08Queries: nodes inserted in order of their beginnings, one of them taken out again, in a
// lattice that may have been used before.
func ZZT08Queries() {
	g := zzGrammar([][]string{zzNounPos}, 1, 1, []int16{0}, zzCharDef)
	l := NewLattice(g)
	if sym.Choose("used", 2) == 1 {
		l.resize(zzT08Size + sym.Choose("longer", 2))
		l.Insert(0, 1, NewLatticeNode(nil, 0, 0, 5, 7))
		l.Insert(1, zzT08Size, NewLatticeNode(nil, 0, 0, -5, 7))
		l.clear()
	}
	l.resize(zzT08Size)
	var nodes []*zzT08Node
	num := 2 + sym.Choose("nodes", 3)
	begin := 0
	base := []int{0, 32765, -32766}[sym.Choose("base cost", 3)]
	rem := sym.Choose("remove", 3) // the first, the last or none of the nodes with the first beginning
	for i := 0; i < num; i++ {
		b := begin + sym.Choose("begin", zzT08Size-begin)
		e := b + 1 + sym.Choose("end", zzT08Size-b)
		if b != begin && rem < 2 && len(nodes) > 0 && !nodes[0].removed {
			sym.Skip()
		}
		begin = b
		n := NewLatticeNode(nil, 0, 0, int16(base+sym.Int("cost", -2, 2)), int32(i))
		l.Insert(b, e, n)
		sym.Assert(n.GetBegin() == b && n.GetEnd() == e, "a node has the range it is inserted at")
		nodes = append(nodes, &zzT08Node{b, e, n, false})
		if rem < 2 && i == 1 {
			x := nodes[rem]
			if x.b != b {
				sym.Skip()
			}
			l.Remove(x.b, x.e, x.n)
			x.removed = true
			sym.Reach("removed")
		}
	}
	for e := 1; e <= zzT08Size; e++ {
		var ending []*LatticeNode
		for b := 0; b < e; b++ {
			var want []*LatticeNode
			min := int16(32767)
			for _, x := range nodes {
				if !x.removed && x.b == b && x.e == e {
					want = append(want, x.n)
					if c := int16(x.n.GetPathCost()); c < min {
						min = c
					}
				}
			}
			got := l.GetNodes(b, e)
			sym.Assert(zzT08Same(got, want), "the nodes of a range are those inserted there")
			m := l.GetMinimumNode(b, e)
			if len(want) == 0 {
				sym.Assert(m == nil, "a range without nodes has no least costly one")
			} else {
				sym.Assert(m != nil && int16(m.GetPathCost()) == min && zzT08In(m, want), "the least costly node of a range")
			}
			ending = append(ending, want...)
		}
		got := l.GetNodesWithEnd(e)
		sym.Assert(len(got) == len(ending), "the nodes ending somewhere are those inserted there")
		for _, n := range ending {
			sym.Assert(zzT08In(n, got), "the nodes ending somewhere are those inserted there")
		}
		sym.Assert(l.HasPreviousNode(e) == (len(ending) > 0), "a position has previous nodes if some end there")
	}
	sym.Assert(l.HasPreviousNode(0), "the beginning has a previous node")
	// the best path is made of the nodes left; connections cost nothing here
	best := [zzT08Size + 1]int{0, 1 << 30, 1 << 30, 1 << 30}
	for e := 1; e <= zzT08Size; e++ {
		for _, x := range nodes {
			if !x.removed && x.e == e && best[x.b] < 1<<30 {
				if c := best[x.b] + x.n.GetPathCost(); c < best[e] {
					best[e] = c
				}
			}
		}
	}
	l.connectEosNode()
	path, err := l.GetBestPath()
	sym.Assert((err == nil) == (best[zzT08Size] < 1<<30), "there is a best path if the nodes left reach the end")
	if err == nil {
		at, cost := 0, 0
		for _, n := range path {
			left := false
			for _, x := range nodes {
				left = left || x.n == n && !x.removed
			}
			sym.Assert(left, "the best path is made of nodes of the lattice")
			sym.Assert(n.GetBegin() == at, "the best path has no gaps")
			at = n.GetEnd()
			cost += n.GetPathCost()
		}
		sym.Assert(at == zzT08Size && cost == best[zzT08Size], "the best path costs least")
		sym.Reach("path")
	}
	sym.Reach("queried")
}

func zzT08Same(a, b []*LatticeNode) bool {
	if len(a) != len(b) {
		return false
	}
	for _, n := range b {
		if !zzT08In(n, a) {
			return false
		}
	}
	return true
}

func zzT08In(n *LatticeNode, l []*LatticeNode) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

// ZZT08Node: a node made by a plugin has the numbers, range and word given.
func ZZT08Node() {
	l, r, c, id := sym.Int16("left"), sym.Int16("right"), sym.Int16("cost"), sym.Int32("id")
	n := NewLatticeNode(nil, l, r, c, id)
	sym.Assert(n.leftId == l && n.rightId == r && n.GetPathCost() == int(c), "a node has the numbers given")
	sym.Assert(n.GetWordId() == int(uint32(id)), "a node has the word id given")
	sym.Assert(!n.IsOOV(), "a node of the lexicon is not out of vocabulary")
	l, r, c = sym.Int16("left2"), sym.Int16("right2"), sym.Int16("cost2")
	n.SetParameter(l, r, c)
	sym.Assert(n.leftId == l && n.rightId == r && n.GetPathCost() == int(c), "a node has the numbers set")
	b := sym.Int("begin", 0, 100000)
	e := sym.Int("end", 0, 100000)
	n.SetRange(b, e)
	sym.Assert(n.GetBegin() == b && n.GetEnd() == e, "a node has the range set")
	n.SetOOV()
	sym.Assert(n.IsOOV(), "a node can be marked as out of vocabulary")
	wi := &dictionary.WordInfo{Surface: "x", PosId: sym.Int16("pos")}
	n.SetWordInfo(wi)
	sym.Assert(n.GetWordInfo() == wi, "a node has the word information set")
	sym.Assert(n.GetDictionaryId() == -1, "a word made by a plugin is in no dictionary")
	sym.Reach("made")
}

// ZZT08Long: totals beyond 32 bits.
func ZZT08Long() {
	sign := sym.Choose("sign", 2)
	word, conn := int16(32767), int16(32766)
	if sign == 1 {
		word, conn = -32768, -32768
	}
	g := zzGrammar([][]string{zzNounPos}, 2, 2, []int16{0, 0, 0, conn}, zzCharDef)
	l := NewLattice(g)
	n := 32780
	l.resize(n + 1)
	for i := 0; i < n; i++ {
		l.Insert(i, i+1, NewLatticeNode(nil, 1, 1, word, 0))
	}
	a, b := sym.Int("first", -2, 2), sym.Int("second", -2, 2)
	x, y := NewLatticeNode(nil, 1, 1, int16(a), 1), NewLatticeNode(nil, 1, 1, int16(b), 2)
	l.Insert(n, n+1, x)
	l.Insert(n, n+1, y)
	l.connectEosNode()
	path, err := l.GetBestPath()
	sym.Assert(err == nil, "a long path is found")
	if err != nil {
		return
	}
	sym.Assert(len(path) == n+1, "a long path is found")
	last := path[len(path)-1]
	sym.Assert((last == x || a >= b) && (last == y || b >= a), "the best path costs least")
	sym.Reach("path")
}

// ZZT08Reinsert: a node taken out and put in again, elsewhere or after another node was taken out,
// counts as if it had not been in the lattice before.
func ZZT08Reinsert() {
	g := zzGrammar([][]string{zzNounPos}, 1, 1, []int16{0}, zzCharDef)
	mk := func(name string) *LatticeNode {
		return NewLatticeNode(nil, 0, 0, int16(sym.Int(name, -3, 3)), 0)
	}
	first, second := mk("first"), mk("second")
	l := NewLattice(g)
	l.resize(zzT08Size)
	l.Insert(0, 1, first)
	b := sym.Choose("begin", 2)
	e := b + 1 + sym.Choose("end", zzT08Size-b)
	l.Insert(b, e, second)
	l.Remove(b, e, second)
	gone := sym.Choose("first removed", 2) == 1
	if gone {
		l.Remove(0, 1, first)
	}
	b = sym.Choose("begin again", zzT08Size)
	e = b + 1 + sym.Choose("end again", zzT08Size-b)
	l.Insert(b, e, second)
	sym.Assert(second.GetBegin() == b && second.GetEnd() == e, "a node has the range it is inserted at")
	l.connectEosNode()
	path, err := l.GetBestPath()
	want := e == zzT08Size && (b == 0 || b == 1 && !gone)
	sym.Assert((err == nil) == want, "there is a best path if the nodes left reach the end")
	if err == nil && want {
		sym.Assert(path[len(path)-1] == second && len(path) == b+1, "the best path is made of nodes of the lattice")
		if b == 1 {
			sym.Assert(path[0] == first, "the best path is made of nodes of the lattice")
		}
		sum := 0
		for _, n := range path {
			sum += n.GetPathCost()
		}
		sym.Assert(l.eosNode.totalCost == sum, "the total of the best path")
		sym.Reach("path")
	}
	sym.Reach("inserted again")
}

// ZZT08Extreme: the cheapest word and the best path among words of any cost.
func ZZT08Extreme() {
	g := zzGrammar([][]string{zzNounPos}, 1, 1, []int16{0}, zzCharDef)
	l := NewLattice(g)
	l.resize(2)
	var nodes []*LatticeNode
	n := 2 + sym.Choose("nodes", 2)
	for i := 0; i < n; i++ {
		x := NewLatticeNode(nil, 0, 0, sym.Int16("cost"), int32(i))
		nodes = append(nodes, x)
		l.Insert(0, 2, x)
	}
	min := l.GetMinimumNode(0, 2)
	sym.Assert(min != nil, "there is a cheapest word")
	for _, x := range nodes {
		sym.Assert(min.GetPathCost() <= x.GetPathCost(), "the cheapest word of a range")
	}
	l.connectEosNode()
	path, err := l.GetBestPath()
	zzOk(err, "there is a best path")
	for _, x := range nodes {
		sym.Assert(path[0].GetPathCost() <= x.GetPathCost(), "the best path costs least")
	}
	sym.Reach("minimum")
}
