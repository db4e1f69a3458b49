//sym:into ripsrc/parentsgraph

package parentsgraph

import (
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// SymC22Graph: git goes wrong while the graph is read.
func SymC22Graph() {
	h := vs.NewHist()
	h.Commit(nil)
	h.Commit(nil, 0)
	h.Commit(nil)
	h.Commit(nil, 1, 2)
	fault := vs.AnyFault(func(*vs.GFault) string {
		return h.R.Exec(".", []string{"log", "-m", "--reverse", "--no-abbrev-commit", "--pretty=format:%H@%P"}).Out
	}, [2]string{"log", ""}, [2]string{"none", ""})
	vs.SetExec(fault.Wrap(h.R.Exec))
	vs.SchedFork(vs.Param("preempt", 0))
	g := New(Opts{RepoDir: ".", Logger: vs.Log{}})
	err := g.Read()
	vs.SchedFork(-1)
	fails := fault.Hit()
	vs.Assert((err != nil) == fails, "failure of git is reported")
	vs.Reach("returned")
}
