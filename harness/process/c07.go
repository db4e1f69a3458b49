//sym:into ripsrc/history3/process

package process

import (
	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// symAtt is, for every line of a file of a commit, the commits it may be
// attributed to: where the file is the same as in some parents, what holds
// there; elsewhere what holds in the first parent that has the line.
func symAtt(h *vs.Hist, c int, path string) [][]int {
	cm := &h.R.Commits[c]
	f := cm.File(path)
	res := make([][]int, len(f.Lines))
	same := false
	for _, p := range cm.Parents {
		if pf := h.R.Commits[p].File(path); pf != nil && vs.SameContent(pf, f) && pf.Mode == f.Mode {
			same = true
			for i, s := range symAtt(h, p, path) {
				res[i] = append(res[i], s...)
			}
		}
	}
	if same {
		return res
	}
	for _, p := range cm.Parents {
		pf := h.R.Source(p, c, path)
		if pf == nil {
			continue
		}
		pa := symAtt(h, p, pf.Path)
		for i, j := range vs.Kept(pf, f) {
			if j >= 0 && res[i] == nil {
				res[i] = pa[j]
			}
		}
	}
	for i := range res {
		if res[i] == nil {
			res[i] = []int{c}
		}
	}
	return res
}

// symAnyBinary tells whether a file was ever binary on the way to a commit.
func symAnyBinary(h *vs.Hist, c int, path string) bool {
	f := h.R.Commits[c].File(path)
	if f == nil {
		return false
	}
	if f.Binary {
		return true
	}
	for _, p := range h.R.Commits[c].Parents {
		if pf := h.R.Source(p, c, path); pf != nil && symAnyBinary(h, p, pf.Path) {
			return true
		}
	}
	return false
}

func symCheckLines(h *vs.Hist, c int, path string, got *incblame.Blame) {
	f := h.R.Commits[c].File(path)
	vs.Assert(got != nil, "a file has blame")
	if symAnyBinary(h, c, path) {
		if f.Binary {
			vs.Assert(got.IsBinary, "a binary file is flagged")
		}
		if got.IsBinary {
			vs.Assert(len(got.Lines) == 0, "a binary file has no lines")
			return
		}
	}
	vs.Assert(!got.IsBinary, "a text file is delivered as text")
	vs.Assert(len(got.Lines) == len(f.Lines), "a file has as many lines as at that commit")
	att := symAtt(h, c, path)
	for i, l := range f.Lines {
		vs.Observe("line", got.Lines[i].Line)
		vs.Assert(string(got.Lines[i].Line) == l.Text, "a line has its content at that commit")
		ok := false
		for _, a := range att[i] {
			ok = ok || got.Lines[i].Commit == symHash(h, a)
		}
		vs.Assert(ok, "a line is attributed to the right commit")
	}
}

// symCheckAny compares the result of any commit. A file is named if it is
// gone, or if it differs from what every parent has there; one that a merge
// takes over from a parent may be left out.
func symCheckAny(h *vs.Hist, c int, r Result) {
	cm := &h.R.Commits[c]
	parents := cm.Parents
	if len(parents) == 0 {
		for i := range cm.Files {
			p := cm.Files[i].Path
			vs.Assert(r.Files[p] != nil, "a changed file is named")
			symCheckLines(h, c, p, r.Files[p])
		}
		vs.Assert(len(r.Files) == len(cm.Files), "no other file is named")
		return
	}
	differ := map[string]int{}
	gone := map[string]bool{}
	for _, p := range parents {
		for _, ch := range vs.TreeDiff(h.R.Commits[p].Files, cm.Files, true) {
			if ch.New != nil {
				differ[ch.New.Path]++
			} else if cm.File(ch.Old.Path) == nil {
				gone[ch.Old.Path] = true
			}
		}
	}
	n := 0
	for i := range cm.Files {
		p := cm.Files[i].Path
		b, ok := r.Files[p]
		if differ[p] == len(parents) {
			vs.Assert(ok, "a changed file is named")
		}
		if ok {
			vs.Assert(differ[p] > 0, "no other file is named")
			symCheckLines(h, c, p, b)
			n++
		}
	}
	for _, p := range parents {
		for i := range h.R.Commits[p].Files {
			o := h.R.Commits[p].Files[i].Path
			if gone[o] {
				delete(gone, o)
				b := r.Files[o]
				vs.Assert(b != nil, "a deleted file is named")
				vs.Assert(len(b.Lines) == 0 && b.Commit == r.Commit, "a deleted file has no lines")
				n++
			}
		}
	}
	vs.Assert(len(r.Files) == n, "no other file is named")
}

func symCheckHistory(h *vs.Hist, res []Result, err error) {
	vs.Assert(err == nil, "processing succeeds")
	vs.Assert(len(res) == len(h.R.Commits), "one result per commit")
	done := make([]bool, len(h.R.Commits))
	for _, r := range res {
		c := -1
		for i := range h.R.Commits {
			if symHash(h, i) == r.Commit {
				c = i
			}
		}
		vs.Assert(c >= 0 && !done[c], "each commit once")
		done[c] = true
		for _, p := range h.R.Commits[c].Parents {
			vs.Assert(done[p], "parents come before children")
		}
		symCheckAny(h, c, r)
	}
}

// symBase is the commit the branches start from.
func symBase(h *vs.Hist) {
	fs := []vs.GFile{h.Text("a", 2)}
	if vs.Choose("base", 2) == 1 {
		fs = append(fs, h.Text("b", 1))
	}
	h.Commit(fs)
}

func symBranchOp(h *vs.Hist, fs []vs.GFile, ops []int) []vs.GFile {
	for i := vs.Param("each", 1); i > 0; i-- {
		fs = h.Mutate(fs, ops[vs.Choose("op", len(ops))])
	}
	return fs
}

// SymC07Merge: two branches, a merge with any outcome, a commit after it.
func SymC07Merge() {
	h := vs.NewHist("a", "b", "c")
	symBase(h)
	ops := []int{0, 2, 3, 4, 5, 1, 6, 12}[:vs.Param("nops", 8)]
	h.Commit(symBranchOp(h, h.Files(0), ops), 0)
	if vs.Choose("ff", 2) == 1 {
		// merged into its own base
		h.Commit(h.MergeTree(true, 0, 1), 0, 1)
	} else {
		h.Commit(symBranchOp(h, h.Files(0), ops), 0)
		h.Commit(h.MergeTree(true, 1, 2), 1, 2)
	}
	symAfter(h)
	symRunAny(h)
}

// symAfter adds a commit that touches every file, which brings to light what
// is tracked for them.
func symAfter(h *vs.Hist) {
	n := len(h.R.Commits) - 1
	fs := h.Files(n)
	for i := range fs {
		if !fs[i].Binary {
			fs[i].Lines = append([]vs.GLine{}, fs[i].Lines...)
			h.Insert(&fs[i], 0)
		}
	}
	h.Commit(fs, n)
}

func symRunAny(h *vs.Hist) {
	vs.SetExec(h.R.Exec)
	res, err := New(symOpts()).RunGetAll()
	symCheckHistory(h, res, err)
	vs.Reach("history")
}

// SymC07Octopus: three parents.
func SymC07Octopus() {
	h := vs.NewHist("a", "b", "c")
	h.Commit([]vs.GFile{h.Text("a", 2)})
	ops := []int{0, 2, 3, 1, 4}[:vs.Param("nops", 5)]
	for i := 0; i < 3; i++ {
		h.Commit(symBranchOp(h, h.Files(0), ops), 0)
	}
	h.Commit(h.MergeTree(false, 1, 2, 3), 1, 2, 3)
	symAfter(h)
	symRunAny(h)
}

// SymC07Shape: every shape of a history of some commits, with a line added to
// one of two files by each.
func SymC07Shape() {
	h := vs.NewHist("a", "b")
	h.Commit([]vs.GFile{h.Text("a", 1), h.Text("b", 0)})
	n := vs.Param("commits", 4)
	skew := vs.Param("skew", 1)
	for i := 1; i < n; i++ {
		// any one or two earlier commits as parents
		p := vs.Choose("parent", i)
		q := vs.Choose("second", i)
		var fs []vs.GFile
		ps := []int{p}
		if q != p {
			ps = append(ps, q)
			fs = h.MergeTree(false, p, q)
		} else {
			fs = h.Files(p)
			f := fs[vs.Choose("edit", len(fs))]
			f.Lines = append([]vs.GLine{}, f.Lines...)
			h.Insert(&f, 0)
			fs = vs.WithFile(fs, f)
		}
		h.Commit(fs, ps...)
		if skew > 0 && vs.Choose("skew", 2) == 1 {
			// recorded as older than everything so far
			h.R.Commits[i].Date = 500 - i
		}
	}
	// everything reachable from the last commits
	reach := h.R.Reach(n - 1)
	for i := range reach {
		vs.Assume(reach[i])
	}
	symAfter(h)
	symRunAny(h)
}

// SymC07Binary: binary files on the branches.
func SymC07Binary() {
	h := vs.NewHist("a", "b")
	h.Commit([]vs.GFile{h.Text("a", 1), h.Bin("b")})
	ops := []int{0, 2, 8, 9, 4}
	h.Commit(symBranchOp(h, h.Files(0), ops), 0)
	h.Commit(symBranchOp(h, h.Files(0), ops), 0)
	h.Commit(h.MergeTree(false, 1, 2), 1, 2)
	symAfter(h)
	symRunAny(h)
}

// SymC07Type: a file becomes a link on one side of a merge.
func SymC07Type() {
	vs.MapOrder(vs.Param("order", 2))
	h := vs.NewHist("a", "b")
	h.Commit([]vs.GFile{h.Text("a", 1)})
	f := h.Files(0)[0]
	h.Insert(&f, 0)
	h.Commit([]vs.GFile{f}, 0)
	l := h.Text("a", 1)
	l.Mode, l.NoNL = "120000", true
	h.Commit([]vs.GFile{l}, 0)
	if vs.Choose("take", 2) == 0 {
		h.Commit([]vs.GFile{f}, 1, 2)
	} else {
		h.Commit([]vs.GFile{l}, 1, 2)
	}
	symRunAny(h)
}

// SymC07Flags: a file that is text or binary on either side of a merge, where
// it became so in one commit or was deleted and made anew.
func SymC07Flags() {
	h := vs.NewHist("a", "b")
	h.SymLen = 0
	mk := func(bin bool) vs.GFile {
		if bin {
			return h.Bin("a")
		}
		f := h.Text("a", 2)
		f.NoNL = false
		return f
	}
	base := mk(vs.Choose("base", 2) == 1)
	h.Commit([]vs.GFile{base})
	var ends []int
	for i := 0; i < 2; i++ {
		at := 0
		switch k := vs.Choose("branch", 6); k {
		case 0: // no change of the file
			at = h.Commit([]vs.GFile{base, h.Text("b", 1)}, at)
		case 1, 2:
			at = h.Commit([]vs.GFile{mk(k == 2)}, at)
		case 3, 4:
			at = h.Commit(nil, at)
			at = h.Commit([]vs.GFile{mk(k == 4)}, at)
		case 5: // changed twice
			at = h.Commit([]vs.GFile{mk(true)}, at)
			at = h.Commit([]vs.GFile{mk(false)}, at)
		}
		ends = append(ends, at)
	}
	if vs.Choose("swap", 2) == 1 {
		ends[0], ends[1] = ends[1], ends[0]
	}
	var fs []vs.GFile
	switch k := vs.Choose("outcome", 5); k {
	case 0, 1: // one side is taken
		fs = []vs.GFile{*h.R.Commits[ends[k]].File("a")}
	case 2, 3: // one side with a further line
		f := *h.R.Commits[ends[k-2]].File("a")
		vs.Assume(!f.Binary)
		f.Lines = append([]vs.GLine{}, f.Lines...)
		h.Insert(&f, 1)
		fs = []vs.GFile{f}
	case 4:
		fs = []vs.GFile{mk(true)}
	}
	m := h.Commit(fs, ends...)
	_ = m
	symAfter(h)
	symRunAny(h)
}

// SymC07Refs: which commits are processed, by the refs that lead to them.
func SymC07Refs() {
	h := vs.NewHist("a")
	h.SymLen = 0
	h.Commit([]vs.GFile{h.Text("a", 1)})
	n := vs.Param("commits", 4)
	for i := 1; i < n; i++ {
		p := vs.Choose("parent", i)
		q := vs.Choose("second", i)
		if q != p {
			h.Commit(h.MergeTree(false, p, q), p, q)
		} else {
			h.Commit(h.Mutate(h.Files(p), 2*vs.Choose("edit", 2)), p)
		}
	}
	side := vs.AnyRef(h)
	all := vs.Choose("all", 2) == 1
	want := h.R.Reach(h.R.Head)
	if all {
		want = h.R.Reach(h.R.Head, side)
	}
	opts := symOpts()
	opts.AllBranches = all
	vs.SetExec(h.R.Exec)
	res, err := New(opts).RunGetAll()
	vs.Assert(err == nil, "processing succeeds")
	k := 0
	for _, b := range want {
		if b {
			k++
		}
	}
	vs.Assert(len(res) == k, "one result per commit of the selected history")
	done := make([]bool, n)
	for _, r := range res {
		c := -1
		for i := range h.R.Commits {
			if symHash(h, i) == r.Commit {
				c = i
			}
		}
		vs.Assert(c >= 0 && !done[c] && want[c], "each commit of the selected history once")
		done[c] = true
		for _, p := range h.R.Commits[c].Parents {
			vs.Assert(done[p], "parents come before children")
		}
		symCheckAny(h, c, r)
	}
	vs.Reach("history")
}
