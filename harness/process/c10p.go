//sym:into ripsrc/history3/process

package process

import (
	"github.com/pinpt/ripsrc/ripsrc/history3/process/repo"
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// SymC10Process: a run of two commits, after an earlier one or none, with one
// file operation going wrong.
func SymC10Process() {
	h := vs.NewHist("a")
	h.SymLen = 0
	h.Commit([]vs.GFile{h.Text("a", 1)})
	h.Commit(h.Mutate(h.Files(0), []int{0, 2}[vs.Choose("op", 2)]), 0)
	// the history as it is in each phase
	vs.SetExec(func(dir string, args []string) vs.ExecResult {
		h.R.Head = vs.Phase()
		return h.R.Exec(dir, args)
	})
	opts := symOpts()
	opts.RepoDir = "."
	if vs.Choose("old", 2) == 1 {
		_, err := New(opts).RunGetAll()
		vs.Assert(err == nil, "the first run succeeds")
	}
	vs.SetPhase(1)
	vs.FSFault(1)
	res, err := New(opts).RunGetAll()
	hit, _ := vs.FSHit()
	vs.FSCalm()
	vs.Reach("ran")
	if !hit {
		vs.Assert(err == nil, "a run without faults succeeds")
	}
	if err != nil {
		return
	}
	symCheckHistory(h, res, err)
	st, err := repo.NewCheckpointReader(vs.Log{}).Read(opts.CheckpointsDir+"/pp-git-cache", symHash(h, 1))
	vs.Assert(err == nil && len(st) == 2 && st[symHash(h, 1)]["a"] != nil, "a run that succeeds has saved its state")
}
