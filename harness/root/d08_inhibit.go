package gosudachi

import (
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// ZZD08Inhibit: inhibited pairs, and no others, cost the maximum.
func ZZD08Inhibit() {
	shape := [][2]int{{2, 3}, {3, 2}, {3, 3}, {1, 4}}[sym.Choose("shape", 4)]
	L, R := shape[0], shape[1]
	m := make([]int16, L*R)
	for i := range m {
		m[i] = int16(i*100 - 200)
	}
	m[(L*R-1)*sym.Choose("arbitrary", 2)] = sym.Int16("cell")
	g := zzGrammar(nil, L, R, m, "")
	n := sym.Choose("pairs", 3)
	if sym.Thorough() || L*R == 4 {
		n += sym.Choose("more", 2)
	}
	var pairs []*[]int
	var ps [][2]int
	short := sym.Choose("short", n+1)
	for i := 0; i < n; i++ {
		if i == short {
			pairs = append(pairs, &[]int{1}) // no pair
		}
		p := [2]int{sym.Int("left", 0, L-1), sym.Int("right", 0, R-1)}
		ps = append(ps, p)
		pairs = append(pairs, &[]int{p[0], p[1]})
	}
	p := NewInhibitConnectionPlugin(pairs)
	if sym.Choose("entry", 2) == 0 {
		zzOk(p.SetUp(g), "connections can be inhibited")
		zzOk(p.Edit(g), "connections can be inhibited")
	} else {
		for _, q := range ps {
			InhibitConnection(g, int16(q[0]), int16(q[1]))
		}
	}
	for l := 0; l < L; l++ {
		for r := 0; r < R; r++ {
			want := int(m[l+L*r])
			for _, q := range ps {
				want = sym.Ite(sym.And(q[0] == l, q[1] == r), 32767, want)
			}
			sym.Assert(int(g.GetConnectCost(int16(l), int16(r))) == want, "inhibiting changes the inhibited pairs only")
		}
	}
	sym.Reach("inhibited")
}

// ZZD08Outside: a pair outside the matrix is refused and changes nothing.
func ZZD08Outside() {
	shape := [][2]int{{2, 3}, {3, 2}, {1, 4}}[sym.Choose("shape", 3)]
	L, R := shape[0], shape[1]
	m := make([]int16, L*R)
	for i := range m {
		m[i] = int16(i*100 - 200)
	}
	g := zzGrammar(nil, L, R, m, "")
	l, r := sym.Int("left", -1, L), sym.Int("right", -1, R)
	far := []int{1, 256, 65535, 65536, 1 << 32}[sym.Choose("far", 5)]
	if sym.Choose("side", 2) == 0 {
		l *= far
	} else {
		r *= far
	}
	inside := sym.And(sym.And(l >= 0, l < L), sym.And(r >= 0, r < R))
	err := NewInhibitConnectionPlugin([]*[]int{{l, r}}).Edit(g)
	sym.Assert((err == nil) == inside, "a pair outside the matrix is refused")
	for i := 0; i < L; i++ {
		for j := 0; j < R; j++ {
			want := sym.Ite(sym.And(i == l, j == r), 32767, int(m[i+L*j]))
			sym.Assert(int(g.GetConnectCost(int16(i), int16(j))) == want, "a pair outside the matrix changes nothing")
		}
	}
	sym.Reach("edited")
}
