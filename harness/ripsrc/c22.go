//sym:into ripsrc

package ripsrc

import (
	"context"

	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

func symFaultRepo(shape int) *vs.Hist {
	h := vs.NewHist("a.d", "b.d")
	h.Pool = []string{"x", "# c", "", "7"}
	h.Commit([]vs.GFile{h.Text("a.d", 2)})
	f := h.Files(0)[0]
	switch shape {
	case 0:
		f.Path = "c d"
		h.Commit([]vs.GFile{f, h.Text("b.d", 1)}, 0)
		h.Commit([]vs.GFile{f}, 1)
	case 1:
		h.Commit([]vs.GFile{f, h.Text("b.d", 1)}, 0)
		h.Insert(&f, 0)
		h.Commit([]vs.GFile{f}, 0)
		h.Commit([]vs.GFile{f, h.Files(1)[1]}, 1, 2)
	case 2:
		h = vs.NewHist("a.d")
		h.Commit([]vs.GFile{h.Bin("a.d")})
		h.Commit([]vs.GFile{h.Text("a.d", 1)}, 0)
		f = h.Files(1)[0]
		h.Insert(&f, 1)
		h.Commit([]vs.GFile{f}, 1)
	}
	h.R.HeadRef = "refs/heads/master"
	h.R.Head = len(h.R.Commits) - 1
	h.R.Refs = []vs.GRef{{Name: "refs/heads/b", Commit: 1}, {Name: "refs/heads/master", Commit: h.R.Head}}
	return h
}

func symCodeAll(o Opts, slice bool) ([]BlameResult, error) {
	if slice {
		return New(o).CodeSlice(context.Background())
	}
	res := make(chan CommitCode)
	done := make(chan bool)
	var l []BlameResult
	go func() {
		for c := range res {
			for b := range c.Blames {
				l = append(l, b)
			}
		}
		done <- true
	}()
	err := New(o).CodeByCommit(context.Background(), res)
	<-done
	return l, err
}

// symCutAt lets one of the commands of a call go wrong.
func symCutAt(h *vs.Hist, call func() error) {
	at := vs.Choose("at", vs.Param("commands", 8))
	how := vs.Choose("how", 6)
	vs.SetExec(func(dir string, args []string) vs.ExecResult {
		n := vs.CallNo()
		r := h.R.Exec(dir, args)
		if vs.Phase() == 0 || n != at {
			return r
		}
		if how == 0 {
			return vs.ExecResult{NoStart: true}
		}
		r.Out = r.Out[:len(r.Out)*(how-1)/4]
		r.Code = 128
		r.Err = "fatal: it went wrong\n"
		return r
	})
	vs.SetPhase(0)
	err := call()
	vs.Assert(err == nil, "the call succeeds")
	vs.Assume(at < vs.Calls())
	vs.SetPhase(1)
	err = call()
	vs.Assert(err != nil, "failure of git is reported")
}

// SymC22Code: git goes wrong while records are made.
func SymC22Code() {
	h := symFaultRepo(vs.Choose("shape", 3))
	slice := vs.Choose("slice", 2) == 1
	var full, got []BlameResult
	symCutAt(h, func() (err error) {
		if vs.Phase() == 0 {
			full, err = New(symCodeOpts()).CodeSlice(context.Background())
			return
		}
		if vs.Param("preempt", -1) >= 0 {
			vs.SchedFork(vs.Param("preempt", -1))
			defer vs.SchedFork(-1)
		}
		got, err = symCodeAll(symCodeOpts(), slice)
		return
	})
	vs.Assert(len(got) <= len(full), "only what there is gets delivered")
	for i := range got {
		vs.Assert(got[i].Commit.SHA == full[i].Commit.SHA, "records come in history order")
	}
	vs.Reach("failed")
}

// SymC22List: git goes wrong while branches are listed.
func SymC22List() {
	h := symFaultRepo(1)
	if vs.Choose("origin", 2) == 1 {
		h.R.Refs = append(h.R.Refs, vs.GRef{Name: "refs/remotes/origin/HEAD", Commit: h.R.Head, Sym: true}, vs.GRef{Name: "refs/remotes/origin/c", Commit: 1}, vs.GRef{Name: "refs/remotes/origin/master", Commit: h.R.Head})
	}
	o := symCodeOpts()
	o.AllBranches, o.BranchesUseOrigin = true, len(h.R.Refs) > 2
	pr := vs.Choose("pull", 2) == 1
	if pr {
		o.PullRequestSHAs = []string{h.R.Commits[1].Hash}
	}
	symCutAt(h, func() error {
		if vs.Phase() == 1 {
			vs.SchedFork(vs.Param("preempt", 0))
			defer vs.SchedFork(-1)
		}
		_, err := New(o).BranchesSlice(context.Background())
		return err
	})
	vs.Reach("failed")
}

// SymC22CodeSched: the same under every schedule.
func SymC22CodeSched() {
	h := vs.NewHist("a.d")
	h.Pool = []string{"x"}
	h.Commit([]vs.GFile{h.Text("a.d", 1)})
	h.Commit([]vs.GFile{h.Text("a.d", 1)}, 0)
	f := &vs.GFault{Cmd: "log", Code: 128, Cut: -1}
	f.Arg = []string{vs.LogPatch, vs.LogGraph, vs.LogStat}[vs.Choose("command", 3)]
	switch vs.Choose("how", 4) {
	case 0:
		f.NoStart = true
	case 1:
		f.Cut = 300
	case 3:
		f.Cmd = "none"
	}
	slice := vs.Choose("slice", 2) == 1
	vs.SetExec(f.Wrap(h.R.Exec))
	o := symCodeOpts()
	vs.SchedFork(vs.Param("preempt", 0))
	vs.SchedDelays(vs.Param("delays", 1))
	got, err := symCodeAll(o, slice)
	vs.SchedFork(-1)
	fails := f.Hit()
	vs.Assert(fails == (err != nil), "failure of git is reported")
	vs.Assert(fails || len(got) == 2, "every record is delivered")
	vs.Reach("returned")
}

// SymC22Moved: the head moves on or back while records are made.
func SymC22Moved() {
	h := vs.NewHist("a.d", "b.d")
	h.SymLen = 0
	h.Commit([]vs.GFile{h.Text("a.d", 1)})
	h.Commit(h.Mutate(h.Files(0), 2), 0)
	f := h.Files(0)[0]
	f.Lines = append([]vs.GLine{}, f.Lines...)
	h.Insert(&f, 1)
	h.Commit([]vs.GFile{f, h.Text("b.d", 1)}, vs.Choose("fork", 2))
	h.Commit(h.MergeTree(false, 1, 2), 1, 2)
	f = h.Files(3)[0]
	f.Lines = append([]vs.GLine{}, f.Lines...)
	h.Insert(&f, 0)
	h.Commit([]vs.GFile{f}, 3)
	h.Commit([]vs.GFile{h.Text("b.d", 2)}, 4)
	n := len(h.R.Commits)
	h.R.HeadRef = "refs/heads/master"
	from, to := vs.Choose("from", n), vs.Choose("to", n)
	vs.Assume(from != to)
	at := 1 + vs.Choose("at", vs.Param("commands", 8))
	slice := vs.Choose("slice", 2) == 1
	all := vs.Choose("all", 2) == 1
	back := vs.Choose("back", 2) == 1
	vs.SetExec(func(dir string, args []string) vs.ExecResult {
		h.R.Head = from
		if k := vs.CallNo(); k >= at && !(back && k > at) {
			h.R.Head = to
		}
		h.R.Refs = []vs.GRef{{Name: "refs/heads/master", Commit: h.R.Head}}
		return h.R.Exec(dir, args)
	})
	o := symCodeOpts()
	o.AllBranches = all
	vs.SetPhase(1)
	got, err := symCodeAll(o, slice)
	for _, r := range got {
		known := false
		for i := range h.R.Commits {
			known = known || h.R.Commits[i].Hash == r.Commit.SHA
		}
		vs.Assert(known, "only commits of the repository are delivered")
	}
	if err != nil {
		vs.Reach("refused")
	} else {
		vs.Reach("returned")
	}
}

// SymC22MovedList: branches move, appear and vanish while they are listed.
func SymC22MovedList() {
	h := vs.NewHist()
	h.Graph(vs.Param("graph", 4), 2)
	n := len(h.R.Commits)
	head := [2]int{vs.Choose("head", n), vs.Choose("head", n)}
	side := [2]int{vs.Choose("side", n), vs.Choose("side", n+1)}
	at := 1 + vs.Choose("at", vs.Param("commands", 8))
	origin := vs.Choose("origin", 2) == 1
	o := symCodeOpts()
	o.AllBranches, o.BranchesUseOrigin = true, origin
	if pr := vs.Choose("pull", n+1); pr < n {
		o.PullRequestSHAs = []string{h.R.Commits[pr].Hash}
	}
	h.R.HeadRef = "refs/heads/master"
	vs.SetExec(func(dir string, args []string) vs.ExecResult {
		k := 0
		if vs.CallNo() >= at {
			k = 1
		}
		h.R.Head = head[k]
		h.R.Refs = []vs.GRef{{Name: "refs/heads/master", Commit: head[k]}}
		if origin {
			h.R.Refs = append(h.R.Refs, vs.GRef{Name: "refs/remotes/origin/HEAD", Commit: head[k], Sym: true}, vs.GRef{Name: "refs/remotes/origin/master", Commit: head[k]})
		}
		if side[k] < n {
			h.R.Refs = append(h.R.Refs, vs.GRef{Name: "refs/heads/side", Commit: side[k]})
			if origin {
				h.R.Refs = append(h.R.Refs, vs.GRef{Name: "refs/remotes/origin/side", Commit: side[k]})
			}
		}
		return h.R.Exec(dir, args)
	})
	vs.SetPhase(1)
	res, err := New(o).BranchesSlice(context.Background())
	for i, b := range res {
		for j := range res[:i] {
			vs.Assert(b.BranchID != res[j].BranchID, "a branch is listed once")
		}
	}
	if err != nil {
		vs.Reach("refused")
	} else {
		vs.Reach("returned")
	}
}
