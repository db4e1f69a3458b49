//sym:into ripsrc/commitmeta

package commitmeta

import (
	"strings"
	"time"

	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

func symCheckMeta(h *vs.Hist, i int, got Commit, pos int) {
	c := &h.R.Commits[i]
	vs.Assert(got.SHA == c.Hash, "a commit has its hash, in history order")
	vs.Assert(got.Ordinal == int64(pos), "a commit has its position")
	vs.Assert(len(got.Parents) == len(c.Parents), "a commit has all its parents")
	for k, p := range c.Parents {
		vs.Assert(got.Parents[k] == h.R.Commits[p].Hash, "a commit has its parents")
	}
	vs.Observe("subject", got.Message)
	vs.Assert(got.Message == c.Subject, "the subject is as recorded")
	vs.Assert(got.AuthorName == c.Author, "the author name is as recorded")
	vs.Assert(got.AuthorEmail == c.AEmail, "the author e-mail is as recorded")
	vs.Assert(got.CommitterName == c.CName, "the committer name is as recorded")
	vs.Assert(got.CommitterEmail == c.CEmail, "the committer e-mail is as recorded")
	t, err := time.Parse(time.RFC3339, c.ADate)
	vs.Assert(err == nil && got.Date.Equal(t), "the author date is as recorded")
	_, o1 := got.Date.Zone()
	_, o2 := t.Zone()
	vs.Assert(o1 == o2, "the author date has its offset")
}

func symCheckFiles(h *vs.Hist, i int, got Commit) {
	c := &h.R.Commits[i]
	if len(c.Parents) > 1 {
		return
	}
	var old []vs.GFile
	if len(c.Parents) == 1 {
		old = h.R.Commits[c.Parents[0]].Files
	}
	n := 0
	for _, ch := range vs.TreeDiff(old, c.Files, true) {
		n++
		p := ""
		if ch.New != nil {
			p = ch.New.Path
		} else {
			p = ch.Old.Path
		}
		f := got.Files[p]
		vs.Assert(f != nil, "every changed file is reported")
		vs.Assert(f.Filename == p, "a file is reported under its name")
		binary := ch.Old != nil && ch.Old.Binary || ch.New != nil && ch.New.Binary
		vs.Assert(f.Binary == binary, "a file has its binary flag")
		a, d := 0, 0
		if !binary {
			a, d = ch.Counts()
		}
		vs.Assert(f.Additions == a && f.Deletions == d, "a file has its line counts")
		switch {
		case ch.Old == nil:
			vs.Assert(f.Status == GitFileCommitStatusAdded && !f.Renamed, "an added file is reported added")
		case ch.New == nil:
			vs.Assert(f.Status == GitFileCommitStatusRemoved && !f.Renamed, "a removed file is reported removed")
		case ch.Old.Path == ch.New.Path:
			vs.Assert(f.Status == GitFileCommitStatusModified && !f.Renamed, "a modified file is reported modified")
		default:
			n++
			vs.Assert(f.Status == GitFileCommitStatusAdded && f.Renamed && f.RenamedFrom == ch.Old.Path && f.RenamedTo == p, "a renamed file is reported under its new name")
			o := got.Files[ch.Old.Path]
			vs.Assert(o != nil, "the old name of a renamed file is reported")
			vs.Assert(o.Filename == ch.Old.Path && o.Status == GitFileCommitStatusRemoved && o.Renamed && o.RenamedFrom == ch.Old.Path && o.RenamedTo == p, "the old name of a renamed file is reported removed")
		}
	}
	vs.Assert(len(got.Files) == n, "no other file is reported")
}

func symCheckAll(h *vs.Hist, res []Commit, want []int) {
	vs.Assert(len(res) == len(want), "every commit of the range is reported once")
	for k, i := range want {
		symCheckMeta(h, i, res[k], k+1)
		symCheckFiles(h, i, res[k])
	}
	vs.Reach("checked")
}

func symRun(h *vs.Hist, opts Opts) []Commit {
	vs.SetExec(h.R.Exec)
	res, err := New(".", opts).RunSlice()
	vs.Assert(err == nil, "reading metadata succeeds")
	m, err := New(".", opts).RunMap()
	vs.Assert(err == nil, "reading metadata succeeds")
	vs.Assert(len(m) == len(res), "the map has every commit")
	for _, c := range res {
		x, ok := m[c.SHA]
		vs.Assert(ok && x.SHA == c.SHA && x.Ordinal == c.Ordinal && x.Message == c.Message && len(x.Files) == len(c.Files), "the map has every commit")
	}
	return res
}

func symText(name string, n int, no string) string {
	s := vs.String(name, vs.Choose(name+".len", n+1))
	for i := 0; i < len(s); i++ {
		vs.Assume(!vs.In(s[i], "\n\x00"+no))
	}
	return s
}

// SymC12Header: commits with arbitrary texts.
func SymC12Header() {
	h := vs.NewHist("a")
	h.SymLen = 0
	n := vs.Param("len", 2)
	h.Commit([]vs.GFile{h.Text("a", 1)})
	h.Commit(h.Mutate(h.Files(0), []int{0, 2}[vs.Choose("op", 2)]), 0)
	dates := []string{"2020-09-13T12:26:40+00:00", "2020-09-13T12:26:40-03:30", "1970-01-01T05:30:00+05:30", "2038-12-31T23:59:59+14:00"}
	c := &h.R.Commits[vs.Choose("which", 2)]
	c.ADate = dates[vs.Choose("date", len(dates))]
	switch vs.Choose("field", 5) {
	case 0:
		c.Subject = symText("subject", n, "")
		if len(c.Subject) > 0 {
			// git leaves out white space around a subject
			for _, b := range []byte{c.Subject[0], c.Subject[len(c.Subject)-1]} {
				vs.Assume(!vs.In(b, " \t\r\v\f"))
			}
		}
	case 1:
		c.Author = symText("author", n, "<>")
	case 2:
		c.AEmail = symText("aemail", n, "<>")
	case 3:
		c.CName = symText("cname", n, "<>")
	case 4:
		c.CEmail = symText("cemail", n, "<>")
	}
	symCheckAll(h, symRun(h, Opts{}), []int{0, 1})
}

// SymC12Imitate: texts that look like the format's own lines.
func SymC12Imitate() {
	h := vs.NewHist("a")
	h.SymLen = 0
	texts := []string{
		"!SHA: 0123456789012345678901234567890123456789", "!Message: x", "!Parents: ", "!Date: x", ":100644 100644 1111111 2222222 M\tz",
		"1\t1\tz", "!", "", "x\ty\tz", "commit 1", "a => b", "é\x80", "%s%n", "\u2028",
	}
	h.Commit([]vs.GFile{h.Text("a", 1)})
	h.Commit(h.Mutate(h.Files(0), []int{0, 2}[vs.Choose("op", 2)]), 0)
	h.Commit(h.Mutate(h.Files(1), []int{0, 2}[vs.Choose("op", 2)]), 1)
	c := &h.R.Commits[1]
	c.Subject = texts[vs.Choose("subject", len(texts))]
	c.Author = texts[vs.Choose("author", len(texts))]
	c.CEmail = texts[vs.Choose("cemail", len(texts))]
	symCheckAll(h, symRun(h, Opts{}), []int{0, 1, 2})
}

// SymC12Long: texts of any length.
func SymC12Long() {
	h := vs.NewHist("a")
	h.SymLen = 0
	h.Commit([]vs.GFile{h.Text("a", 1)})
	h.Commit(h.Mutate(h.Files(0), 2), 0)
	h.Commit(h.Mutate(h.Files(1), 2), 1)
	sizes := []int{4095, 4096, 65535 - 10, 65536 - 10, 65537 - 10, 65536, 70000, 200000}
	s := strings.Repeat("x", sizes[vs.Choose("size", len(sizes))])
	c := &h.R.Commits[1]
	switch vs.Choose("field", 3) {
	case 0:
		c.Subject = s
	case 1:
		c.Author = s
	case 2:
		c.AEmail = s
	}
	symCheckAll(h, symRun(h, Opts{}), []int{0, 1, 2})
}

// SymC12Files: any changes of files with awkward names.
func SymC12Files() {
	sets := [][]string{
		{"a", "b"},
		{"a => b", "a", "b"},
		{"x/{a => b}/c", "x/a/c", "x/b/c"},
		{" a", "a", "a "},
		{"d/e f", "d/g", "h"},
		{"\xc3\xa4", "q\"q", "t\tt"},
		{"d/x", "x/d/x", "x"},
		{"{a => b}", "1\t1\tz", "!SHA: x"},
		{"back\\slash", "{a} => {b}", "x/y => z/w"},
	}
	h := vs.NewHist(sets[vs.Choose("names", len(sets))]...)
	h.SymLen = 0
	var fs []vs.GFile
	first := 1 + vs.Choose("first", vs.Param("first", 2))
	for i := 0; i < first; i++ {
		fs = h.Mutate(fs, []int{1, 7}[vs.Choose("kind", 2)])
	}
	h.Commit(fs)
	ops := vs.Param("ops", 1)
	for k := 1 + vs.Choose("more", ops); k > 0; k-- {
		fs = h.Mutate(fs, 1+vs.Choose("op", vs.Ops-1))
	}
	h.Commit(fs, 0)
	h.Commit(h.Mutate(fs, []int{0, 4}[vs.Choose("last", 2)]), 1)
	symCheckAll(h, symRun(h, Opts{}), []int{0, 1, 2})
}

// symCount is a number of up to some digits.
func symCount(name string, shapes ...string) (string, int) {
	t := []byte(shapes[vs.Choose(name+".shape", len(shapes))])
	n := 0
	for i := range t {
		if t[i] == '?' {
			t[i] = vs.Byte(name)
			vs.Assume(t[i] >= '0' && t[i] <= '9')
		}
	}
	s := string(t)
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	vs.Assume(len(s) == 1 || s[0] != '0')
	return s, n
}

// SymC12Counts: any line counts.
func SymC12Counts() {
	h := vs.NewHist("a")
	h.SymLen = 0
	h.Commit([]vs.GFile{h.Text("a", 1)})
	fs := append([]vs.GFile{}, h.Files(0)...)
	fs = h.Mutate(fs, 2)
	f := &fs[len(fs)-1]
	as, a := symCount("adds", "0", "?", "1?", "25?", "3276?", "65?3?", "16777?15", "214748360?")
	ds, d := symCount("dels", "0", "?", "12?", "3276?", "6553?", "21474?36", "100000000?")
	f.Counted, f.Counts = as+"\t"+ds, [2]int{a, d}
	h.Commit(fs, 0)
	symCheckAll(h, symRun(h, Opts{}), []int{0, 1})
}

func symName(name string, n int) string {
	s := vs.String(name, n)
	for i := 0; i < n; i++ {
		vs.Assume(s[i] != 0)
		// slashes only between names
		if i == 0 || i == n-1 || s[i-1] == '/' {
			vs.Assume(s[i] != '/')
		}
	}
	vs.Assume(s != "." && s != "..")
	if n == 3 {
		vs.Assume(!(s[1] == '/' && (s[0] == '.' || s[2] == '.')))
	}
	return s
}

// SymC12Names: one change of files with arbitrary names.
func SymC12Names() {
	h := vs.NewHist()
	h.SymLen = 0
	a, b := symName("a", 1+vs.Choose("la", vs.Param("len", 3))), symName("b", 1+vs.Choose("lb", vs.Param("len2", 2)))
	vs.Assume(a != b)
	vs.Assume(!strings.HasPrefix(a, b+"/") && !strings.HasPrefix(b, a+"/"))
	h.Paths = []string{a, b}
	f := h.Text(a, 2)
	h.Commit([]vs.GFile{f})
	h.Commit(h.Mutate(h.Files(0), []int{2, 4, 5, 1}[vs.Choose("op", 4)]), 0)
	symCheckAll(h, symRun(h, Opts{}), []int{0, 1})
}

// SymC12Range: ranges of commit graphs.
func SymC12Range() {
	h := vs.NewHist("a")
	h.SymLen = 0
	n := vs.Param("commits", 4)
	h.Commit([]vs.GFile{h.Text("a", 1)})
	for i := 1; i < n; i++ {
		p := vs.Choose("parent", i)
		q := vs.Choose("second", i)
		if q != p {
			h.Commit(h.MergeTree(false, p, q), p, q)
		} else {
			h.Commit(h.Mutate(h.Files(p), 2*vs.Choose("edit", 2)), p)
		}
	}
	opts := Opts{}
	head := n - 1
	want := append([]bool{}, h.R.Reach(head)...)
	side := vs.Choose("side", n)
	all := vs.Choose("all", 2) == 1
	h.R.Refs = []vs.GRef{{Name: "refs/heads/side", Commit: side}}
	if all {
		h.R.Refs[0].Name = []string{"refs/heads/side", "refs/pull/1/head", "refs/tags/side", "refs/remotes/origin/side"}[vs.Choose("kind of ref", vs.Param("kinds", 4))]
	}
	opts.AllBranches = all
	if from := vs.Choose("from", n+1); from < n {
		opts.CommitFromIncl = h.R.Commits[from].Hash
		opts.CommitFromMakeNonIncl = vs.Choose("non", 2) == 1
		opts.WantedBranchRefs = []string{h.R.Commits[side].Hash}
		if !opts.CommitFromMakeNonIncl {
			if len(h.R.Commits[from].Parents) == 0 {
				vs.Assume(false)
			}
			from = h.R.Commits[from].Parents[0]
		}
		if all {
			for i, b := range h.R.Reach(side) {
				want[i] = want[i] || b
			}
		}
		for i, b := range h.R.Reach(from) {
			want[i] = want[i] && !b
		}
	} else if all {
		for i, b := range h.R.Reach(side) {
			want[i] = want[i] || b
		}
	}
	res := symRun(h, opts)
	// any order in which parents come first
	var order []int
	for _, r := range res {
		for i := range h.R.Commits {
			if h.R.Commits[i].Hash == r.SHA {
				order = append(order, i)
				vs.Assert(want[i], "only commits of the range are reported")
				want[i] = false
			}
		}
	}
	for i := range want {
		vs.Assert(!want[i], "every commit of the range is reported")
	}
	symCheckAll(h, res, order)
}
