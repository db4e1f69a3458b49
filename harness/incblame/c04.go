//sym:into ripsrc/history3/incblame

package incblame

import (
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// symPath is an arbitrary path: arbitrary bytes, in places text that imitates headers.
func symPathName(name string, max int) string {
	tpl := []string{"", " b/", "d/", " => ", "rename from ", "/dev/null b/"}
	a := vs.Choose(name+".len", max) + 1
	s := vs.String(name, a)
	for i := 0; i < len(s); i++ {
		vs.Assume(s[i] != 0)
		vs.Assume(s[i] != '/')
	}
	t := vs.Choose(name+".tpl", vs.Param("tpl", len(tpl)))
	if t == 0 {
		return s
	}
	p := vs.Choose(name+".at", 2)
	return s[:a-p*(a/2)] + tpl[t] + s[a-p*(a/2):] + "z"
}

func symHeaderCase(old, new string, kind int, quoteHigh bool) {
	h := vs.GitHeader{QuoteHigh: quoteHigh}
	switch kind {
	case 0: // changed
		h.Old, h.New, h.Content = old, old, true
	case 1: // created
		h.New, h.Content = new, vs.Choose("empty", 2) == 0
	case 2: // deleted
		h.Old, h.Content = old, vs.Choose("empty", 2) == 0
	case 3: // renamed
		vs.Assume(old != new)
		h.Old, h.New, h.Content = old, new, vs.Choose("edited", 2) == 1
	case 4: // mode only
		h.Old, h.New, h.NewMode = old, old, "100755"
	}
	if h.Content {
		h.Binary = vs.Choose("binary", 2) == 1
	}
	if kind != 4 && kind != 1 && kind != 2 && vs.Choose("mode", 2) == 1 {
		h.NewMode = "100755"
	}
	text := h.String()
	hunk := false
	if h.Content && !h.Binary {
		hunk = true
		switch {
		case h.Old == "":
			text += "@@ -0,0 +1 @@\n+x\n"
		case h.New == "":
			text += "@@ -1 +0,0 @@\n-x\n"
		default:
			text += "@@ -1,2 +1,2 @@\n-x\n+y\n z\n"
		}
	}
	var d Diff
	r := vs.Catch(func() { d = Parse([]byte(text)) })
	vs.Assert(r == nil, "no header git prints makes the parser crash")
	vs.Observe("path", d.Path)
	vs.Observe("prev", d.PathPrev)
	vs.Assert(d.Path == h.New, "new path")
	vs.Assert(d.PathPrev == h.Old, "previous path")
	vs.Assert(d.IsBinary == h.Binary, "binary flag")
	if hunk && h.New != "" {
		vs.Assert(len(d.Hunks) == 1, "the hunk is kept")
	} else {
		vs.Assert(len(d.Hunks) == 0, "no hunks")
	}
	vs.Reach("header")
}

// SymC04One: a header about one path, as git prints it by default.
func SymC04One() {
	p := symPathName("path", vs.Param("len", 3))
	k := []int{0, 1, 2, 4}[vs.Choose("kind", 4)]
	symHeaderCase(p, p, k, true)
}

// SymC04Rename: a header about two paths.
func SymC04Rename() {
	symHeaderCase(symPathName("old", vs.Param("len", 2)), symPathName("new", vs.Param("len2", 1)), 3, true)
}

// SymC04Raw: the same with core.quotePath off, so high bytes come as they are.
func SymC04Raw() {
	p := symPathName("path", vs.Param("len", 2))
	if vs.Choose("two", 2) == 1 {
		symHeaderCase(p, symPathName("new", 1), 3, false)
		return
	}
	symHeaderCase(p, p, []int{0, 1, 2, 4}[vs.Choose("kind", 4)], false)
}
