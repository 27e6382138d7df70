package dictionary

import (
	"fmt"
	"strings"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

// ZZL01Source: source rows about as long as the buffer and about twice as long.
func ZZL01Source() {
	n := []int{0, 3993, 4090, 4095, 4096, 4097, 8191, 8192, 8193}[sym.Choose("length", 9)]
	rows := []*zzRow{zzNewRow("一"), zzNewRow("二"), zzNewRow("三")}
	k := sym.Choose("row", 3)
	m := n - len(zzSource(rows[k])) - 2
	if m < 0 {
		m = 0
	}
	m += sym.Choose("more", 7)
	rows[k].col[11] = strings.Repeat("r", m) + zzChar("char", 1)
	if sym.Choose("another", 2) == 1 {
		rows[(k+1)%3].col[11] = strings.Repeat("s", 5000)
	}
	end := []string{"\n", "\r\n"}[sym.Choose("end", 2)]
	src := ""
	for i, r := range rows {
		src += strings.TrimSuffix(string(zzSource(r)), "\n")
		if i < 2 || sym.Choose("final", 2) == 1 {
			src += end
		}
	}
	r := &zzref.Chunks{Data: []byte(src)}
	r.Sizes = [][]int{{0}, {4096, 1}, {1000}}[sym.Choose("pieces", 3)]
	b := NewDictionaryBuilder(0, nil, false)
	err := b.BuildLexicon(NewPosTable(), r)
	sym.Assert(err == nil, "every row is read")
	if err != nil {
		return
	}
	sym.Assert(len(b.wordEntries) == len(rows), "every row is read once")
	for i, e := range b.wordEntries {
		sym.Assert(sym.EqStr(e.WordInfo.ReadingForm, zzStr(rows[i].col[11], rows[i].col[4])), "a row is read complete")
		sym.Assert(e.WordInfo.Surface == rows[i].col[4], "rows are read in order")
	}
	sym.Reach("read")
}

// ZZL01SourceLine: the number of a bad row is told.
func ZZL01SourceLine() {
	n := 1 + sym.Choose("rows", 4)
	at := sym.Choose("bad", n)
	src := ""
	for i := 0; i < n; i++ {
		r := zzNewRow("一")
		if i == 1 {
			r.col[11] = strings.Repeat("r", 5000)
		}
		line := strings.TrimSuffix(string(zzSource(r)), "\n")
		if i == at {
			switch sym.Choose("kind", 3) {
			case 0:
				line += ","
			case 1:
				line = ""
			case 2:
				line = strings.Replace(line, ",1,2,3,", ",1,x,3,", 1)
			}
		}
		src += line + []string{"\n", "\r\n"}[sym.Choose("end", 2)]
	}
	b := NewDictionaryBuilder(0, nil, false)
	err := b.BuildLexicon(NewPosTable(), strings.NewReader(src))
	sym.Assert(err != nil, "a bad row is refused")
	if err == nil {
		return
	}
	sym.Assert(strings.HasSuffix(err.Error(), fmt.Sprintf("line %d", at+1)), "the number of the bad line is told")
	sym.Reach("refused")
}

// ZZL01SourceEnd: the last column is read without what ends the line.
func ZZL01SourceEnd() {
	rows := []*zzRow{zzNewRow("一"), zzNewRow("二"), zzNewRow("三")}
	at := sym.Choose("row", 3)
	var lists [3][]int32
	if sym.Choose("words", 2) == 1 {
		d := sym.ByteIn("digit", '0', '2')
		rows[at].col[17] = "U1/" + string([]byte{d})
		lists[2] = []int32{1, int32(d - '0')}
	}
	src := ""
	for i, r := range rows {
		src += strings.TrimSuffix(string(zzSource(r)), "\n")
		src += []string{"\n", "\r\n", ""}[sym.Choose("end", 2+i/2)]
	}
	d, err := zzBuildSystem([]byte(src), []byte("1 1\r\n0 0 5\r\n"), false)
	sym.Assert(err == nil, "every row is read")
	if err != nil {
		return
	}
	sym.Assert(d.lex.Size() == 3 && d.g.GetConnectCost(0, 0) == 5, "every row is read once")
	for i, r := range rows {
		l := lists
		if i != at {
			l = [3][]int32{}
		}
		zzCheckWord(d, int32(i), r, zzParams, -1, r.col[4], l)
	}
	sym.Reach("read")
}
