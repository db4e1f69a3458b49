//sym:into ripsrc/history3/process

package process

import (
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

func symSameResult(a, b Result) {
	vs.Assert(len(a.Files) == len(b.Files), "a resumed run names the same files")
	for p, x := range a.Files {
		y := b.Files[p]
		vs.Assert(y != nil, "a resumed run names the same files")
		vs.Assert(x.Commit == y.Commit && x.IsBinary == y.IsBinary && len(x.Lines) == len(y.Lines), "a resumed run delivers the same blame")
		for i := range x.Lines {
			vs.Assert(x.Lines[i].Commit == y.Lines[i].Commit, "a resumed run attributes lines alike")
			vs.Assert(vs.EqBytes(x.Lines[i].Line, y.Lines[i].Line), "a resumed run delivers the same lines")
		}
	}
}

// symHeads lets git answer with another head in each phase.
func symHeads(h *vs.Hist, heads ...int) {
	vs.SetExec(func(dir string, args []string) vs.ExecResult {
		h.R.Head = heads[vs.Phase()]
		return h.R.Exec(dir, args)
	})
}

func symRunAt(opts Opts, phase int) ([]Result, error) {
	vs.SetPhase(phase)
	return New(opts).RunGetAll()
}

// symRemaining is the commits that are to be delivered by a resumed run.
func symRemaining(h *vs.Hist, head, from int, incl bool) []bool {
	r := append([]bool{}, h.R.Reach(head)...)
	if incl {
		if len(h.R.Commits[from].Parents) == 0 {
			return r
		}
		from = h.R.Commits[from].Parents[0]
	}
	for i, b := range h.R.Reach(from) {
		if b {
			r[i] = false
		}
	}
	return r
}

func symCheckResumed(h *vs.Hist, want []bool, full, got []Result) {
	n := 0
	for _, f := range full {
		c := -1
		for i := range h.R.Commits {
			if symHash(h, i) == f.Commit {
				c = i
			}
		}
		if !want[c] {
			continue
		}
		k := 0
		for _, g := range got {
			if g.Commit == f.Commit {
				k++
				symSameResult(f, g)
			}
		}
		vs.Assert(k == 1, "a resumed run delivers every remaining commit once")
		n++
	}
	vs.Assert(len(got) == n, "a resumed run delivers the remaining commits only")
}

// symResume runs up to a commit, then on to the last one.
func symResume(h *vs.Hist, split int, incl bool) {
	last := len(h.R.Commits) - 1
	symHeads(h, last, split, last)
	full, err := symRunAt(symOpts(), 0)
	vs.Assert(err == nil, "one run over everything succeeds")
	opts := symOpts()
	_, err = symRunAt(opts, 1)
	vs.Assert(err == nil, "the first part is processed")
	opts.CommitFromIncl = symHash(h, split)
	opts.CommitFromMakeNonIncl = !incl
	got, err := symRunAt(opts, 2)
	vs.Assert(err == nil, "the resumed run succeeds")
	symCheckResumed(h, symRemaining(h, last, split, incl), full, got)
	vs.Reach("resumed")
}

// SymC11Linear: any linear history, split anywhere.
func SymC11Linear() {
	h := vs.NewHist("a", "b c")
	n := vs.Param("commits", 3)
	split := vs.Choose("split", n-1)
	incl := split > 0 && vs.Choose("incl", 2) == 1
	var fs []vs.GFile
	for i := 0; i < n; i++ {
		k := 1
		if i == 0 {
			k = vs.Choose("first", 3)
		}
		for ; k > 0; k-- {
			op := vs.Choose("op", vs.Ops)
			if i == 0 && op != 1 && op != 7 {
				vs.Assume(false)
			}
			fs = h.Mutate(fs, op)
		}
		if i == 0 {
			h.Commit(fs)
		} else {
			h.Commit(fs, i-1)
		}
	}
	symResume(h, split, incl)
}

// symShapes builds any commit graph with lines added to one of two files.
func symShapes(n int, skew bool) *vs.Hist {
	h := vs.NewHist("a", "b")
	h.Commit([]vs.GFile{h.Text("a", 1), h.Text("b", 0)})
	for i := 1; i < n; i++ {
		p := vs.Choose("parent", i)
		q := vs.Choose("second", i)
		if q != p {
			h.Commit(h.MergeTree(false, p, q), p, q)
		} else {
			fs := h.Files(p)
			f := fs[vs.Choose("edit", len(fs))]
			f.Lines = append([]vs.GLine{}, f.Lines...)
			h.Insert(&f, 0)
			h.Commit(vs.WithFile(fs, f), p)
		}
		if skew && vs.Choose("skew", 2) == 1 {
			h.R.Commits[i].Date = 500 - i
		}
	}
	return h
}

// SymC11Shape: any commit graph, split at any commit.
func SymC11Shape() {
	n := vs.Param("commits", 4)
	split := vs.Choose("split", n-1)
	h := symShapes(n, vs.Param("skew", 0) > 0)
	incl := len(h.R.Commits[split].Parents) > 0 && vs.Choose("incl", 2) == 1
	symResume(h, split, incl)
}

// SymC11Twice: two resumed runs after another.
func SymC11Twice() {
	h := vs.NewHist("a", "b")
	var fs []vs.GFile
	fs = append(fs, h.Text("a", 2))
	h.Commit(fs)
	for i := 1; i < 4; i++ {
		fs = h.Mutate(fs, []int{0, 1, 2, 3, 4, 5}[vs.Choose("op", vs.Param("nops", 6))])
		h.Commit(fs, i-1)
	}
	mid := 1 + vs.Choose("mid", 2)
	symHeads(h, 3, 0, mid, 3)
	full, err := symRunAt(symOpts(), 0)
	vs.Assert(err == nil, "one run over everything succeeds")
	opts := symOpts()
	_, err = symRunAt(opts, 1)
	vs.Assert(err == nil, "the first part is processed")
	opts.CommitFromMakeNonIncl = true
	opts.CommitFromIncl = symHash(h, 0)
	got, err := symRunAt(opts, 2)
	vs.Assert(err == nil, "the resumed run succeeds")
	symCheckResumed(h, symRemaining(h, mid, 0, false), full, got)
	opts.CommitFromIncl = symHash(h, mid)
	got, err = symRunAt(opts, 3)
	vs.Assert(err == nil, "the run resumed again succeeds")
	symCheckResumed(h, symRemaining(h, 3, mid, false), full, got)
	vs.Reach("resumed")
}

// SymC11Strict: resuming from another commit than the one saved.
func SymC11Strict() {
	h := vs.NewHist("a", "b")
	h.Commit([]vs.GFile{h.Text("a", 1)})
	for i := 1; i < 4; i++ {
		h.Commit(h.Mutate(h.Files(i-1), []int{0, 2, 1, 5}[vs.Choose("op", 4)]), i-1)
	}
	saved := 1 + vs.Choose("saved", 2)
	from := vs.Choose("from", 3)
	strict := vs.Choose("strict", 2) == 1
	vs.Assume(from != saved && (strict || from < saved))
	// resuming without a checkpoint at all
	none := strict && vs.Choose("none", 2) == 1
	incl := from > 0 && vs.Choose("incl", 2) == 1
	symHeads(h, 3, saved, 3)
	opts := symOpts()
	if !none {
		_, err := symRunAt(opts, 1)
		vs.Assert(err == nil, "the first part is processed")
	}
	opts.CommitFromIncl = symHash(h, from)
	opts.CommitFromMakeNonIncl = !incl
	opts.NoStrictResume = !strict
	got, err := symRunAt(opts, 2)
	if strict {
		vs.Assert(err != nil, "a strict resume from another commit is refused")
		vs.Assert(len(got) == 0, "a refused run delivers nothing")
		vs.Reach("refused")
		return
	}
	vs.Assert(err == nil, "a resume from another commit is accepted")
	full, err := symRunAt(symOpts(), 0)
	vs.Assert(err == nil, "one run over everything succeeds")
	symCheckResumed(h, symRemaining(h, 3, from, incl), full, got)
	vs.Reach("accepted")
}

// SymC11All: all branches, with the work resumed on some of them.
func SymC11All() {
	n := vs.Param("commits", 4)
	h := symShapes(n, false)
	// what is known at first: a prefix of the commits, with two branches
	k := 1 + vs.Choose("known", n-2)
	side := vs.Choose("side", n)
	last := n - 1
	vs.SetExec(func(dir string, args []string) vs.ExecResult {
		h.R.Head = last
		h.R.Refs = []vs.GRef{{Name: "refs/heads/side", Commit: side}}
		if vs.Phase() == 1 {
			h.R.Head = k
			h.R.Refs = nil
			for i := 0; i < k; i++ {
				h.R.Refs = append(h.R.Refs, vs.GRef{Name: "refs/heads/b" + string(rune('0'+i)), Commit: i})
			}
		}
		return h.R.Exec(dir, args)
	})
	opts := symOpts()
	opts.AllBranches = true
	full, err := symRunAt(opts, 0)
	vs.Assert(err == nil, "one run over everything succeeds")
	opts = symOpts()
	opts.AllBranches = true
	first, err := symRunAt(opts, 1)
	vs.Assert(err == nil && len(first) == k+1, "the first part is processed")
	opts.WantedBranchRefs = []string{symHash(h, side)}
	opts.CommitFromIncl = first[k].Commit
	opts.CommitFromMakeNonIncl = true
	got, err := symRunAt(opts, 2)
	vs.Assert(err == nil, "the resumed run succeeds")
	from := 0
	for i := range h.R.Commits {
		if symHash(h, i) == opts.CommitFromIncl {
			from = i
		}
	}
	want := append([]bool{}, h.R.Reach(last)...)
	for i, b := range h.R.Reach(side) {
		want[i] = want[i] || b
	}
	for i, b := range h.R.Reach(from) {
		want[i] = want[i] && !b
	}
	symCheckResumed(h, want, full, got)
	vs.Reach("resumed")
}
