//sym:into ripsrc

package ripsrc

import (
	"context"

	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// SymC16API: branches listed by the package's own calls.
func SymC16API() {
	h := vs.NewHist()
	h.Commit(nil)
	h.Commit(nil, 0)
	h.Commit(nil, 1)
	h.R.Head = 1
	origin := vs.Choose("origin", 2) == 1
	h.R.Refs = []vs.GRef{{Name: "refs/heads/b", Commit: 2}, {Name: "refs/heads/master", Commit: 1}, {Name: "refs/remotes/origin/HEAD", Commit: 1, Sym: true}, {Name: "refs/remotes/origin/c", Commit: 2}, {Name: "refs/remotes/origin/master", Commit: 1}}
	all := vs.Choose("all", 2) == 1
	vs.SetExec(h.R.Exec)
	opts := Opts{RepoDir: ".", Logger: vs.Log{}, AllBranches: all, BranchesUseOrigin: origin}
	sched := vs.Choose("sched", 2) == 1
	want := 101
	if !sched {
		opts.PullRequestSHAs = []string{h.R.Commits[2].Hash, h.R.Commits[2].Hash, vs.Hash40("dead")}
		want = 111
	}
	r := New(opts)
	if sched {
		vs.SchedFork(0)
	}
	res, err := r.BranchesSlice(context.Background())
	vs.SchedFork(-1)
	if !all {
		vs.Assert(err != nil && len(res) == 0, "branches need AllBranches")
		return
	}
	vs.Assert(err == nil, "listing branches succeeds")
	name := "b"
	if origin {
		name = "c"
	}
	n := 0
	for _, b := range res {
		switch {
		case b.IsDefault:
			vs.Assert(b.Name == "master" && b.HeadSHA == h.R.Commits[1].Hash && !b.IsPullRequest, "the default branch is listed as such")
			n += 1
		case b.IsPullRequest:
			vs.Assert(b.Name == "" && b.HeadSHA == h.R.Commits[2].Hash, "the pull request is listed")
			n += 10
		default:
			vs.Assert(b.Name == name && b.HeadSHA == h.R.Commits[2].Hash, "the branch is listed")
			n += 100
		}
	}
	vs.Assert(n == want, "each is listed once")
	vs.Reach("checked")
}
