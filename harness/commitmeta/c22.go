//sym:into ripsrc/commitmeta

package commitmeta

import (
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// SymC22Meta: git goes wrong while metadata is read.
func SymC22Meta() {
	h := vs.NewHist("a", "b")
	h.Commit([]vs.GFile{h.Text("a", 1)})
	f := h.Files(0)[0]
	f.Path = "c d"
	h.Commit([]vs.GFile{f}, 0)
	h.Commit([]vs.GFile{f, h.Bin("b")}, 1)
	h.Commit(nil, 2)
	f = h.Files(1)[0]
	h.Insert(&f, 0)
	h.Commit([]vs.GFile{f}, 1)
	f = h.Files(4)[0]
	h.Insert(&f, 0)
	h.Commit([]vs.GFile{f}, 4, 3)
	n := len(h.R.Commits)
	fault := vs.AnyFault(func(*vs.GFault) string {
		return h.R.Exec(".", []string{"log", "-c", "--raw", "--reverse", "--numstat",
			"--pretty=format:!SHA: %H%n!Parents: %P%n!Committer: %ce%n!CName: %cn%n!Author: %ae%n!AName: %an%n!Date: %aI%n!Message: %s%n"}).Out
	}, [2]string{"log", ""})
	wrong := fault.Wrap(h.R.Exec)
	vs.SetExec(func(dir string, args []string) vs.ExecResult {
		if vs.Phase() == 0 {
			return h.R.Exec(dir, args)
		}
		return wrong(dir, args)
	})
	vs.SetPhase(0)
	full, err := New(".", Opts{}).RunSlice()
	vs.Assert(err == nil && len(full) == n, "every commit is reported")
	vs.SetPhase(1)
	got, err := New(".", Opts{}).RunSlice()
	vs.Assume(fault.Hit())
	vs.Assert(err != nil, "failure of git is reported")
	vs.Assert(len(got) <= n, "only what there is gets reported")
	for i, c := range got {
		vs.Assert(c.SHA == full[i].SHA && c.Message == full[i].Message && len(c.Files) == len(full[i].Files), "what is reported is complete")
		for p, x := range full[i].Files {
			y := c.Files[p]
			vs.Assert(y != nil && *x == *y, "what is reported is complete")
		}
	}
	m, err := New(".", Opts{}).RunMap()
	vs.Assert(err != nil && len(m) <= n, "failure of git is reported")
	vs.Reach("failed")
}

// SymC22MetaSched: the same under every schedule.
func SymC22MetaSched() {
	h := vs.NewHist("a", "b")
	h.Commit([]vs.GFile{h.Text("a", 1)})
	f := h.Files(0)[0]
	f.Path = "b"
	h.Commit([]vs.GFile{f}, 0)
	fault := &vs.GFault{Cmd: "log", Code: 128, Cut: -1}
	switch vs.Choose("how", 5) {
	case 0:
		fault.NoStart = true
	case 1:
		fault.Cut = 0
	case 2:
		fault.Cut = 300
	case 3:
	case 4:
		fault.Cmd = "none"
	}
	vs.SetExec(fault.Wrap(h.R.Exec))
	asMap := vs.Choose("map", 2) == 1
	vs.SchedFork(vs.Param("preempt", 0))
	n := 0
	var err error
	if asMap {
		var m map[string]Commit
		m, err = New(".", Opts{}).RunMap()
		n = len(m)
	} else {
		var s []Commit
		s, err = New(".", Opts{}).RunSlice()
		n = len(s)
	}
	vs.SchedFork(-1)
	fails := fault.Hit()
	vs.Assert((err != nil) == fails, "failure of git is reported")
	vs.Assert(fails || n == 2, "every commit is reported")
	vs.Reach("returned")
}
