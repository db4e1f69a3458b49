//sym:into ripsrc/history3/process

package process

import (
	"github.com/pinpt/ripsrc/ripsrc/history3/process/repo"
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// symKept is how many finished commits stay at hand.
const symKept = 1000

// SymC08Process: a history longer than what is kept, with a commit out of
// which a second line grows long after it.
func SymC08Process() {
	h := vs.NewHist("a")
	n := symKept + vs.Param("beyond", 4)
	h.Commit([]vs.GFile{h.Text("a", 2)})
	for i := 1; i < n; i++ {
		h.Commit(h.R.Commits[i-1].Files, i-1)
	}
	// children of commits of any age, oldest base last
	forks := []int{0, 1, 2, 3, n - 3, n - 2}
	f1 := forks[vs.Choose("fork", len(forks))]
	f2 := forks[vs.Choose("fork", len(forks))]
	edit := func(base int) int {
		fs := h.Files(base)
		fs[0].Lines = append([]vs.GLine{}, fs[0].Lines...)
		h.Insert(&fs[0], vs.Choose("at", 2))
		return h.Commit(fs, base)
	}
	s1 := edit(f1)
	s2 := edit(f2)
	m := h.Commit(h.Files(s1), s1, s2)
	end := h.Commit(h.Files(m), m, n-1)
	vs.SetExec(h.R.Exec)
	opts := symOpts()
	res, err := New(opts).RunGetAll()
	symCheckHistory(h, res, err)

	// what is kept at the end shows in the checkpoint
	st, err := repo.NewCheckpointReader(vs.Log{}).Read(opts.CheckpointsDir+"/pp-git-cache", symHash(h, end))
	vs.Assert(err == nil, "the checkpoint is there")
	// when each commit was finished: with its last child
	last := make([]int, len(h.R.Commits))
	for i := range last {
		last[i] = len(last)
	}
	for pos := len(res) - 1; pos >= 0; pos-- {
		for i := range h.R.Commits {
			if symHash(h, i) != res[pos].Commit {
				continue
			}
			for _, p := range h.R.Commits[i].Parents {
				if last[p] == len(last) {
					last[p] = pos
				}
			}
		}
	}
	after := make([]int, len(last)+1) // commits finished with a result or later
	for i := range last {
		after[last[i]]++
	}
	for i := len(after) - 2; i >= 0; i-- {
		after[i] += after[i+1]
	}
	unfinished := after[len(last)]
	for i := range last {
		_, ok := st[symHash(h, i)]
		switch {
		case last[i] == len(last):
			vs.Assert(ok, "a commit that is not finished is kept")
		case after[last[i]]-unfinished <= symKept:
			vs.Assert(ok, "a recently finished commit is kept")
		case after[last[i]+1]-unfinished >= symKept:
			vs.Assert(!ok, "a commit finished long ago is dropped")
		}
	}
	vs.Assert(len(st) == unfinished+symKept, "no more than the limit is kept")
	vs.Reach("kept")
}
