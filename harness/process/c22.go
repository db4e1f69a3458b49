//sym:into ripsrc/history3/process

package process

import (
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// symFaultHist is one of several small histories.
func symFaultHist(shape int) *vs.Hist {
	h := vs.NewHist("a", "b")
	h.Commit([]vs.GFile{h.Text("a", 2)})
	switch shape {
	case 0: // a rename, a deletion, a commit without changes
		f := h.Files(0)[0]
		f.Path = "c d"
		h.Commit([]vs.GFile{f}, 0)
		h.Commit([]vs.GFile{f, h.Text("b", 1)}, 1)
		h.Commit([]vs.GFile{h.Files(2)[0]}, 2)
		h.Commit([]vs.GFile{h.Files(2)[0]}, 3)
	case 1: // ends in a merge
		h.Commit(append(h.Files(0), h.Text("b", 1)), 0)
		f := h.Files(0)[0]
		h.Insert(&f, 0)
		h.Commit([]vs.GFile{f}, 0)
		h.Commit([]vs.GFile{f, h.Files(1)[1]}, 1, 2)
	case 2: // a merge of three with a change of its own in the middle
		h.Commit(append(h.Files(0), h.Text("b", 1)), 0)
		f := h.Files(0)[0]
		h.Insert(&f, 0)
		h.Commit([]vs.GFile{f}, 0)
		h.Commit(h.Files(0), 0)
		h.Insert(&f, 1)
		h.Commit([]vs.GFile{f, h.Files(1)[1]}, 1, 2, 3)
		h.Commit(h.Files(4), 4)
	case 3: // a file that was binary becomes text, which asks for a full blame
		h = vs.NewHist("a", "b")
		h.Commit([]vs.GFile{h.Bin("a")})
		h.Commit([]vs.GFile{h.Text("a", 1)}, 0)
		f := h.Files(1)[0]
		h.Insert(&f, 1)
		h.Commit([]vs.GFile{f}, 1)
	}
	return h
}

var symProcessArgs = []string{"log", "-p", "-m", "--date-order", "--reverse", "--no-abbrev-commit", "--pretty=short"}

// symFault is any way for the commands of a run to go wrong.
func symFault(h *vs.Hist) *vs.GFault {
	return vs.AnyFault(func(f *vs.GFault) string {
		switch f.Arg {
		case vs.LogPatch:
			return h.R.Exec(".", symProcessArgs).Out
		case vs.LogGraph:
			return h.R.Exec(".", []string{"log", "-m", "--reverse", "--no-abbrev-commit", "--pretty=format:%H@%P"}).Out
		}
		return h.R.Exec(".", []string{"blame", h.R.Commits[len(h.R.Commits)-1].Hash, "--porcelain", "--", "a"}).Out
	}, [2]string{"log", vs.LogPatch}, [2]string{"log", vs.LogGraph}, [2]string{"blame", ""})
}

func symIsPrefix(full, got []Result) {
	vs.Assert(len(got) <= len(full), "only what there is gets delivered")
	for i := range got {
		vs.Assert(got[i].Commit == full[i].Commit, "commits come in history order")
		symSameResult(full[i], got[i])
	}
}

// SymC22Process: git goes wrong while a history is processed.
func SymC22Process() {
	shape := vs.Choose("shape", 4)
	h := symFaultHist(shape)
	f := symFault(h)
	if f.Cmd == "blame" {
		vs.Assume(shape == 3)
	}
	wrong := f.Wrap(h.R.Exec)
	vs.SetExec(func(dir string, args []string) vs.ExecResult {
		if vs.Phase() == 0 {
			return h.R.Exec(dir, args)
		}
		return wrong(dir, args)
	})
	vs.SetPhase(0)
	full, err := New(symOpts()).RunGetAll()
	vs.Assert(err == nil, "a history git prints in full is processed")
	vs.Assert(len(full) == len(h.R.Commits), "every commit is delivered")
	vs.SetPhase(1)
	opts := symOpts()
	got, err := New(opts).RunGetAll()
	vs.Assume(f.Hit())
	vs.Assert(err != nil, "failure of git is reported")
	symIsPrefix(full, got)
	vs.Assert(!vs.Exists(opts.CheckpointsDir+"/pp-git-cache/checkpoint"), "no checkpoint of an incomplete history is saved")
	vs.Reach("failed")
}

// SymC22Sched: the same under every schedule.
func SymC22Sched() {
	h := symFaultHist(vs.Choose("shape", 4))
	f := &vs.GFault{Cmd: "log", Arg: vs.LogPatch, Code: 128, Cut: -1}
	n := len(h.R.Exec(".", symProcessArgs).Out)
	switch vs.Choose("how", 4) {
	case 0:
		f.NoStart = true
	case 1:
		f.Cut = n / 2
	case 2:
		f.Cut = n - 3
	case 3:
		f = &vs.GFault{Cmd: "none"}
	}
	vs.SetExec(f.Wrap(h.R.Exec))
	vs.SchedFork(vs.Param("preempt", 0))
	got, err := New(symOpts()).RunGetAll()
	vs.SchedFork(-1)
	fails := f.Hit()
	vs.Assert((err != nil) == fails, "failure of git is reported")
	vs.Assert(fails || len(got) == len(h.R.Commits), "every commit is delivered")
	vs.Reach("returned")
}
