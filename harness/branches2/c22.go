//sym:into ripsrc/branches2

package branches2

import (
	"context"

	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// SymC22Branches: git goes wrong while branches are listed.
func SymC22Branches() {
	h := symLine(3)
	h.R.Head = 1
	h.R.HeadRef = "refs/heads/master"
	h.R.Refs = []vs.GRef{{Name: "refs/heads/b", Commit: 2}, {Name: "refs/heads/c", Commit: 0}, {Name: "refs/heads/master", Commit: 1}}
	fault := &vs.GFault{Code: 128, Cut: -1}
	fault.Cmd = []string{"rev-parse", "symbolic-ref", "for-each-ref", "rev-list"}[vs.Choose("command", 4)]
	if fault.Cmd == "rev-parse" {
		fault.Arg = []string{"", "--symbolic-full-name"}[vs.Choose("arg", 2)]
	}
	switch vs.Choose("how", 3) {
	case 0:
		fault.NoStart = true
	case 1:
		fault.Cut = 0
	case 2:
		fault.Cut = 41
	}
	gr := parentsgraph.NewFromMap(h.Map())
	def := vs.Choose("default", 2) == 1
	calls := vs.Param("workers", 2)
	vs.SetExec(fault.Wrap(h.R.Exec))
	vs.SchedFork(vs.Param("preempt", 0))
	res, err := New(Opts{RepoDir: ".", Logger: vs.Log{}, CommitGraph: gr, Concurrency: calls, IncludeDefaultBranch: def}).RunSlice(context.Background())
	vs.SchedFork(-1)
	if fault.Cmd == "symbolic-ref" || fault.Cmd == "rev-parse" && fault.Arg != "" || fault.Cmd == "rev-list" {
		// how the default branch is asked for is not fixed
		if err == nil {
			want := map[string]int{"b": 2, "c": 0}
			if def {
				want["master"] = 1
			}
			vs.Assert(len(res) == len(want), "failure of git is reported")
			for _, b := range res {
				c, ok := want[b.Name]
				vs.Assert(ok && b.HeadSHA == h.R.Commits[c].Hash && b.IsDefault == (b.Name == "master"), "failure of git is reported")
				delete(want, b.Name)
			}
			vs.Assert(len(want) == 0, "failure of git is reported")
		}
	} else {
		// a command that is not used cannot fail the listing
		vs.Assert(!fault.Hit() || err != nil, "failure of git is reported")
	}
	vs.Reach("returned")
}
