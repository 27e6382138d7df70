package main

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/msnoigrs/gosudachi/internal/zzref"
	sym "github.com/msnoigrs/gosudachi/internal/zzsym"
)

var zzR01Dir string

// zzR01Files makes a resource directory with the dictionary the shipped settings name and another one.
func zzR01Files() {
	d := &zzref.Dict{Version: zzref.SystemVersion, L: 1, R: 12000, Matrix: make([]int16, 12000),
		Words: []zzref.Word{zzref.W("あ", 0, 0, 1, 0), zzref.W("か", 0, 0, 1, 0), zzref.W("1", 0, 0, 1, 0)}}
	seen := map[string]bool{}
	for _, l := range strings.Split(strings.TrimSpace(string(sym.RepoFile("data/root/unk.def"))), "\n") {
		cols := strings.Split(l, ",")
		p := strings.Join(cols[4:], ",")
		if !seen[p] {
			seen[p] = true
			d.Pos = append(d.Pos, cols[4:])
		}
	}
	img, _ := d.Image()
	zzR01Dir = filepath.Dir(sym.TempFile("system_core.dic", img))
	d.Words = append(d.Words, zzref.W("あか", 0, 0, -20000, 0))
	img, _ = d.Image()
	sym.TempFile("system_full.dic", img)
	u := &zzref.Dict{Version: zzref.UserVersion2, Pos: [][]string{{"名詞", "固有名詞", "*", "*", "*", "*"}}, Words: []zzref.Word{zzref.W("かあ", 0, 0, -30000, 0)}}
	img, _ = u.Image()
	sym.TempFile("user.dic", img)
}

func zzR01Run(text string, args ...string) (int, string) {
	out := sym.TempPath("out")
	f, err := os.Create(out)
	if err != nil {
		sym.Fail("the output can be made")
	}
	stdout := os.Stdout
	os.Stdout = f
	sym.Args(append(append([]string{"-a", "-p", zzR01Dir}, args...), sym.TempFile("in", []byte(text)))...)
	code := sym.RunMain(main)
	os.Stdout = stdout
	got, _ := sym.FileContent(out)
	return code, string(got)
}

// ZZR01Settings: the program without settings, and with additional ones.
func ZZR01Settings() {
	zzR01Files()
	shipped := string(sym.RepoFile("data/root/sudachi.json"))
	var args []string
	want := shipped
	over := func(k, v string) { want = strings.Replace(want, k, v, 1) }
	switch sym.Choose("settings", 7) {
	case 1:
		args = []string{"-s", `{"systemDict":"system_full.dic"}`}
		over("system_core.dic", "system_full.dic")
	case 2:
		args = []string{"-s", `{"userDict":["user.dic"]}`}
		over("{", `{"userDict":["user.dic"],`)
	case 3:
		args = []string{"-s", `{}`}
	case 4: // -r overrides -s
		args = []string{"-s", `{"systemDict":"system_full.dic"}`, "-r", sym.TempFile("settings.json", []byte(shipped))}
	case 5:
		args = []string{"-s", `{"inputTextPlugin":[]}`}
		i := strings.Index(want, `"oovProviderPlugin"`)
		want = want[:strings.Index(want, `"inputTextPlugin"`)] + want[i:]
	case 6: // not settings
		code, _ := zzR01Run("あ\n", "-s", `{"systemDict":`)
		sym.Assert(code != 0, "a failure makes the exit status non-zero")
		sym.Reach("failed")
		return
	}
	text := "あ" + string(sym.Rune("char", 'あ', 'え')) + "〜カキ1,000かあＡ\n"
	code, got := zzR01Run(text, args...)
	code2, exp := zzR01Run(text, "-r", sym.TempFile("explicit.json", []byte(want)))
	sym.Assert(code == 0 && code2 == 0, "the program succeeds")
	sym.Assert(len(got) == len(exp) && sym.EqStr(got, exp), "the shipped settings apply, with the additions given")
	sym.Reach("compared")
}
