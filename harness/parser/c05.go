//sym:into ripsrc/history3/process/parser

package parser

import (
	"strings"

	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// symText is n arbitrary bytes of one line.
func symText(name string, n int) string {
	s := vs.String(name, n)
	for i := 0; i < len(s); i++ {
		vs.Assume(s[i] != '\n')
		vs.Assume(s[i] != 0)
	}
	return s
}

func symSpace(c byte) bool {
	return vs.Or(c == ' ', vs.And(c >= 9, c <= 13))
}

var symImitate = []string{"", "commit ", "diff --git a/x b/x", "Merge: ", "Author: "}

// symSubject is a line of a commit title: git strips blanks at its end and
// ends the title at a blank line.
func symSubject(name string) string {
	s := symImitate[vs.Choose(name+".im", len(symImitate))] + symText(name, vs.Choose(name+".len", vs.Param("msg", 1))+1)
	vs.Assume(!symSpace(s[len(s)-1]))
	return s
}

func symPatch(name string) string {
	f := "f" + symText(name+".path", 1)
	for i := 0; i < len(f); i++ {
		vs.Assume(vs.And(f[i] > ' ', vs.And(f[i] < 0x7f, vs.And(f[i] != '"', vs.And(f[i] != '\\', f[i] != '/')))))
	}
	switch k := vs.Choose(name+".kind", 5); k {
	case 0: // created empty
		return vs.GitHeader{New: f}.String()
	case 1: // renamed
		return vs.GitHeader{Old: "o", New: f}.String()
	case 2: // binary
		return vs.GitHeader{Old: f, New: f, Content: true, Binary: true}.String()
	case 3: // one changed line, with imitating contents
		im := symImitate[vs.Choose(name+".im", len(symImitate))]
		h := vs.GitHeader{Old: f, New: f, Content: true}.String() + "@@ -1 +1 @@ " + symLine(name+".head", 1) + "\n"
		h += "-" + im + symLine(name+".del", vs.Choose(name+".dlen", 2)) + "\n"
		if vs.Choose(name+".nonl", 2) == 1 {
			h += "\\ No newline at end of file\n"
		}
		return h + "+" + im + symLine(name+".add", vs.Choose(name+".alen", 2)) + "\n"
	}
	// context and an empty line added
	return vs.GitHeader{Old: f, New: f, Content: true}.String() + "@@ -1 +1,2 @@\n " + symLine(name+".ctx", 1) + "\n+\n"
}

func symLine(name string, n int) string {
	s := symText(name, n)
	for i := 0; i < len(s); i++ {
		vs.Assume(s[i] != '\r')
	}
	return s
}

// SymC05Log: what comes out of a log is exactly what git put in.
func SymC05Log() {
	n := vs.Choose("n", vs.Param("commits", 2)) + 1
	var es []vs.LogEntry
	for i := 0; i < n; i++ {
		e := vs.LogEntry{Hash: strings.Repeat("0", 38) + symHex("hash") + symHex("hash")}
		e.Author = symText("author", vs.Choose("alen", vs.Param("author", 2))) + " <e>"
		k := vs.Choose("subjects", vs.Param("subjects", 2)+1)
		for j := 0; j < k; j++ {
			e.Subject = append(e.Subject, symSubject("subject"))
		}
		switch vs.Choose("merge", 3) {
		case 1:
			e.Merge, e.From = true, strings.Repeat("1", 39)+symHex("from")
		case 2:
			e.Merge = true
		}
		if !(e.Merge && e.From == "") { // a merge without a parent named differs from none
			lo := 0
			if e.Merge {
				lo = 1
			}
			k := lo + vs.Choose("patches", vs.Param("patches", 2)+1-lo)
			for j := 0; j < k; j++ {
				e.Patches = append(e.Patches, symPatch("patch"))
			}
		}
		es = append(es, e)
	}
	text := vs.GitLogShort(es)
	got, err := New(strings.NewReader(text)).RunGetAll()
	vs.Assert(err == nil, "a log git prints is accepted")
	vs.Assert(len(got) == n, "as many commits as printed")
	for i, e := range es {
		g := got[i]
		vs.Observe("hash", g.Hash)
		vs.Assert(g.Hash == e.Hash, "hash")
		vs.Assert(g.MergeDiffFrom == e.From, "parent compared with")
		vs.Assert(len(g.Changes) == len(e.Patches), "number of patches")
		for j, p := range e.Patches {
			vs.Observe("patch", g.Changes[j].Diff)
			vs.Assert(string(g.Changes[j].Diff) == p, "patch is unaltered")
		}
	}
	vs.Reach("log")
	if n > 1 {
		vs.Reach("several")
	}
}

func symHex(name string) string {
	s := vs.String(name, 1)
	vs.Assume(vs.Or(vs.And(s[0] >= '0', s[0] <= '9'), vs.And(s[0] >= 'a', s[0] <= 'f')))
	return s
}

// SymC05Long: lines and patches of any size around the sizes of buffers.
func SymC05Long() {
	sizes := []int{1, 4095, 4096, 65535, 65536, 65537, 1000001, 1048577}
	long := func(name string, mark byte) string {
		b := make([]byte, sizes[vs.Choose(name+".size", vs.Param("sizes", len(sizes)))])
		for i := range b {
			b[i] = mark
		}
		b[len(b)-1] = symLine(name, 1)[0]
		return string(b)
	}
	e := vs.LogEntry{Hash: strings.Repeat("0", 40), Author: "a <e>", Subject: []string{"s"}}
	last := vs.LogEntry{Hash: strings.Repeat("1", 40), Author: "a <e>", Subject: []string{"t"}}
	last.Patches = []string{vs.GitHeader{New: "g"}.String()}
	h := vs.GitHeader{Old: "f", New: "f", Content: true}.String()
	switch vs.Choose("where", 4) {
	case 0:
		e.Subject = []string{long("subject", 's')}
	case 1:
		e.Author = long("author", 'a') + " <e>"
	case 2:
		e.Patches = []string{h + "@@ -1,2 +1,2 @@\n c\n-d\n+" + long("add", 'a') + "\n"}
	case 3:
		e.Patches = []string{h + "@@ -1,2 +1 @@\n " + long("ctx", 'c') + "\n-d\n", vs.GitHeader{New: "x"}.String()}
	}
	got, err := New(strings.NewReader(vs.GitLogShort([]vs.LogEntry{e, last}))).RunGetAll()
	vs.Assert(err == nil, "a log git prints is accepted")
	vs.Assert(len(got) == 2, "as many commits as printed")
	for i, e := range []vs.LogEntry{e, last} {
		vs.Assert(got[i].Hash == e.Hash, "hash")
		vs.Assert(len(got[i].Changes) == len(e.Patches), "number of patches")
		for j, p := range e.Patches {
			vs.Assert(string(got[i].Changes[j].Diff) == p, "patch is unaltered")
		}
	}
	vs.Reach("long")
}

// SymC05CR: carriage returns at the end of lines change nothing but line
// terminators.
func SymC05CR() {
	mk := func(name string) string { return symText(name, vs.Choose(name+".len", 3)) }
	h := vs.GitHeader{Old: "f", New: "f", Content: true}.String()
	lines := []string{" " + mk("ctx"), "-" + mk("del"), "+" + mk("add")}
	e := vs.LogEntry{Hash: strings.Repeat("0", 40), Author: "a <e>", Subject: []string{"s"}}
	last := e
	e.Patches = []string{h + "@@ -1,2 +1,2 @@\n" + strings.Join(lines, "\n") + "\n"}
	last.Patches = []string{vs.GitHeader{New: "g"}.String()}
	got, err := New(strings.NewReader(vs.GitLogShort([]vs.LogEntry{e, last}))).RunGetAll()
	vs.Assert(err == nil, "a log git prints is accepted")
	vs.Assert(len(got) == 2 && len(got[0].Changes) == 1 && len(got[1].Changes) == 1, "as many commits and patches as printed")
	vs.Assert(string(got[1].Changes[0].Diff) == last.Patches[0], "patch is unaltered")
	diff := string(got[0].Changes[0].Diff)
	vs.Assert(strings.HasPrefix(diff, h+"@@ -1,2 +1,2 @@\n"), "header is unaltered")
	out := strings.Split(diff[len(h)+len("@@ -1,2 +1,2 @@\n"):], "\n")
	vs.Assert(len(out) == len(lines)+1, "as many lines as printed")
	for i, l := range lines {
		vs.Assert(strings.TrimRight(out[i], "\r") == strings.TrimRight(l, "\r"), "lines are unaltered, line terminators aside")
	}
	vs.Reach("cr")
}

// SymC05Empty: an empty log has no commits.
func SymC05Empty() {
	got, err := New(strings.NewReader("")).RunGetAll()
	vs.Assert(err == nil && len(got) == 0, "no commits")
	vs.Reach("empty")
}
