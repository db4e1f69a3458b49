//sym:into ripsrc/fileinfo

package fileinfo

import (
	"regexp"
	"strings"

	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
	enry "gopkg.in/src-d/enry.v1"
)

// excluded is the list of exclusions the repository documents.
func excluded() *regexp.Regexp {
	var ms []string
	for _, l := range exclusions() {
		l = strings.Replace(l, ".", "\\.", -1)
		l = strings.Replace(l, "*", "(.*?)", -1)
		ms = append(ms, l)
	}
	return regexp.MustCompile("(" + strings.Join(ms, "|") + ")")
}

func exclusions() (res []string) {
	for _, l := range strings.Split(vs.RepoFile("custom_patterns.txt"), "\n") {
		if i := strings.Index(l, "#"); i >= 0 {
			l = l[:i]
		}
		l = strings.TrimSpace(l)
		if l != "" && l[0] != '!' {
			res = append(res, l)
		}
	}
	return
}

func hidden(p string) bool {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			p = p[i+1:]
			break
		}
	}
	return len(p) > 1 && p[0] == '.'
}

// judge checks a decision.
func judge(a InfoArgs, ex *regexp.Regexp, res Info, reason string) {
	p := a.FilePath
	wide := false
	for i := 0; i < len(a.Lines) && i < 8; i++ {
		wide = vs.Or(wide, len(a.Lines[i]) > 1096)
	}
	applies := false
	switch {
	case reason == "":
		vs.Assert(len(a.Content) <= 1000000, "an analysed file is at most 1000000 bytes")
		vs.Assert(len(a.Lines) <= 40000, "an analysed file has at most 40000 lines")
		vs.Assert(!wide, "no line of an analysed file is longer than 1096 bytes")
		vs.Assert(!hidden(p), "an analysed file is not hidden")
		vs.Assert(!enry.IsConfiguration(p), "an analysed file is not configuration")
		vs.Assert(!ex.MatchString(p), "an analysed file is not excluded")
		vs.Assert(strings.HasPrefix(p, "src/") || !enry.IsVendor(p), "an analysed file is not vendored")
		vs.Assert(res.Language != "" && res.Language == vs.LangOf(p), "an analysed file has the language recognised")
		vs.Assert(vs.LangPath == p && len(vs.LangContent) == len(a.Content), "the language is recognised from path and content")
		return
	case reason == "Language was unknown":
		applies = vs.LangOf(p) == ""
	case strings.HasPrefix(reason, "File size was "):
		applies = strings.HasSuffix(reason, "K which exceeds limit of 1000K") && len(a.Content) > 1000000
	case reason == "File has more than 40000 lines":
		applies = len(a.Lines) > 40000
	case strings.HasPrefix(reason, "File has a line width of "):
		applies = strings.HasSuffix(reason, " which is greater than max of 1096") && wide
	case reason == "File was a config file":
		applies = enry.IsConfiguration(p)
	case reason == "File was a dot file":
		applies = hidden(p)
	case reason == "File was on an exclusion list":
		applies = ex.MatchString(p)
	case reason == "File was a vendored file":
		applies = enry.IsVendor(p) && !strings.HasPrefix(p, "src/")
	}
	vs.Assert(applies, "the reason for skipping applies")
	vs.Assert(res.Language == "", "a skipped file has no language")
}

// SymC17Limits: sizes around and far from the limits.
func SymC17Limits() {
	ex := excluded()
	big := 4000000
	a := InfoArgs{FilePath: "a/b.d"}
	switch vs.Choose("what", 3) {
	case 0:
		a.Content = vs.Zeros("size", 0, big)
		a.Lines = [][]byte{nil}
	case 1:
		a.Content = vs.Zeros("size", 0, big)
		n := vs.Param("lines", 3)
		for i := 0; i < n; i++ {
			a.Lines = append(a.Lines, vs.Zeros("width", 0, big))
		}
	default:
		a.Content = []byte("x")
		if vs.Bool("few") {
			a.Lines = vs.Empties("lines", 0, 6)
		} else {
			a.Lines = vs.Empties("lines", 39999, 300000)
		}
	}
	res, reason := New().GetInfo(a)
	judge(a, ex, res, reason)
	if reason == "" {
		vs.Reach("analysed")
	} else {
		vs.Reach("skipped")
	}
}

// fill replaces some bytes of a path by symbolic ones.
func fill(t string) string {
	b := []byte(t)
	for i, c := range b {
		if c == '?' {
			x := vs.Byte("p")
			vs.Assume(x >= ' ' && x < 127)
			b[i] = x
		}
	}
	p := string(b)
	// paths of git have no empty, "." or ".." components
	from := 0
	for i := 0; i <= len(p); i++ {
		if i < len(p) && p[i] != '/' {
			continue
		}
		vs.Assume(i > from && p[from:i] != "." && p[from:i] != "..")
		from = i + 1
	}
	return p
}

var templates = []string{
	"?", "??", "???", "a/?", "?/a", "a.??", "?a", "a?js", "a.?s",
	"?src/dist/x.c", "src/?ist/x", "s?c/dist/x", "?rc/vendor/x", "vendor?x", "endor?x", "src?/vendor/x",
	"a/.?", "??/?", "?./x", ".?/x", "x/?b/.c", "a.jso?", "a.?ml", "A.?QL",
	"?EADME", "README?", "a/LICENS?.md", "go.mo?", "go?mod", "?go.mod", "?o.sum", "a.p?", "a-min.?s", "Gemfil?", "a.?", "?.o",
}

// SymC17Paths: paths of every class.
func SymC17Paths() {
	ex := excluded()
	p := fill(templates[vs.Choose("template", len(templates))])
	a := InfoArgs{FilePath: p, Content: []byte("x\n"), Lines: [][]byte{[]byte("x")}}
	res, reason := New().GetInfo(a)
	judge(a, ex, res, reason)
	if reason == "" {
		vs.Reach("analysed")
	} else {
		vs.Reach("skipped")
	}
}

// example is a path that a documented exclusion is about.
func example(l string) string {
	var b []byte
	for i := 0; i < len(l); i++ {
		switch c := l[i]; c {
		case '^', '$', '?':
		case '*':
			b = append(b, 'q')
		case '[':
			b = append(b, l[i+1])
			i += strings.IndexByte(l[i:], ']')
		case '(':
			if l[i+1] == '^' {
				i += strings.IndexByte(l[i:], ')')
				break
			}
			j := i + strings.IndexAny(l[i:], "|)")
			b = append(b, l[i+1:j]...)
			i += strings.IndexByte(l[i:], ')')
		case '\\':
		default:
			b = append(b, c)
		}
	}
	return string(b)
}

// SymC17Excluded: paths around every documented exclusion.
func SymC17Excluded() {
	ex := excluded()
	ls := exclusions()
	p := example(ls[vs.Choose("exclusion", len(ls))])
	if strings.HasSuffix(p, "/") {
		p += "x"
	}
	switch vs.Choose("shape", 4) {
	case 0:
		vs.Assert(ex.MatchString(p), "the example matches")
	case 1:
		p = fill("?" + p)
	case 2:
		p = fill(p + "?")
	case 3:
		k := vs.Choose("at", len(p))
		p = fill("a/" + p[:k] + "?" + p[k+1:])
	}
	a := InfoArgs{FilePath: p, Content: []byte("x\n"), Lines: [][]byte{[]byte("x")}}
	res, reason := New().GetInfo(a)
	judge(a, ex, res, reason)
	if reason == "File was on an exclusion list" {
		vs.Reach("excluded")
	}
}

// vendored are paths the language library takes for vendored ones (and no
// documented exclusion is about).
var vendored = []string{"cache/x.c", "dist/x.c", "deps/x.c", "extern/x.c", "external/x.c", "third_party/x.c", "3rd-party/x.c", "env/x.c",
	"jquery.js", "jquery-1.2.js", "cpplint.py", "debian/x.c", "docs/_build/x.c", "test/fixtures/x.c", "packages/a.1/x.c", "a.d.ts", "configure", "gradlew"}

// SymC17Vendored: vendored paths below, beside and away from src.
func SymC17Vendored() {
	ex := excluded()
	around := []string{"", "src/", "src?/", "?src/", "s?c/", "src?", "?/src/", "Src/", "src/?/", "s?c", "?/", "?", "src/src/", "srcs/src/"}
	p := fill(around[vs.Choose("around", len(around))] + vendored[vs.Choose("vendored", len(vendored))])
	a := InfoArgs{FilePath: p, Content: []byte("x\n"), Lines: [][]byte{[]byte("x")}}
	res, reason := New().GetInfo(a)
	judge(a, ex, res, reason)
	if strings.HasPrefix(p, "src/") {
		vs.Reach("below src")
	}
	if reason == "File was a vendored file" {
		vs.Reach("vendored")
	}
}

// SymC17Wide: one line of any width at some place of a file of many lines, as
// a part of a content of any size.
func SymC17Wide() {
	ex := excluded()
	a := InfoArgs{FilePath: "a/b.d", Content: vs.Zeros("size", 0, 4000000)}
	n := []int{1, 2, 101, 1001, 40000}[vs.Choose("lines", 5)]
	at := []int{0, 1, 2, 9, 63, 99, 100, 127, 255, 499, 500, 999, 1000, 1023, 4095, 9999, 10000, 10001, 16383, 19999, 20000, 32767, 32768, 39998, 39999}[vs.Choose("at", 25)]
	vs.Assume(at < n)
	a.Lines = make([][]byte, n)
	a.Lines[at] = vs.Zeros("width", 0, 4000000)
	w := len(a.Lines[at])
	res, reason := New().GetInfo(a)
	b := a
	b.Lines = [][]byte{a.Lines[at]}
	judge(b, ex, res, reason)
	vs.Assert(vs.Implies(vs.And(w <= 1096, len(a.Content) <= 1000000), reason == ""), "a file within the limits is analysed")
	vs.Reach("wide")
}

// SymC17History: the decision does not depend on files seen before.
func SymC17History() {
	pairs := [][2]string{{"src/dist/?", "?dist/?"}, {"??", "??"}, {"a/?.c", "?.c"}, {"a.?", "A.?"}, {"dist/?", "src/dist/?"}, {"?.js", "?.js"}, {"?go.mod", "go.mod"}}
	pr := pairs[vs.Choose("pair", len(pairs))]
	fresh, used := New(), New()
	mk := func(t string) InfoArgs {
		a := InfoArgs{FilePath: fill(t), Content: []byte("x\n"), Lines: [][]byte{[]byte("x")}}
		if vs.Bool("wide") {
			a.Lines = [][]byte{make([]byte, 1097)}
		}
		return a
	}
	first, second := mk(pr[0]), mk(pr[1])
	used.GetInfo(first)
	if vs.Bool("thrice") {
		used.GetInfo(second)
		used.GetInfo(first)
	}
	r1, s1 := used.GetInfo(second)
	r2, s2 := fresh.GetInfo(second)
	vs.Assert(s1 == s2 && r1.Language == r2.Language && r1.License == nil && r2.License == nil, "the decision does not depend on files seen before")
	vs.Reach("checked")
}
