//sym:into ripsrc/branches2

package branches2

import (
	"context"

	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// symList is the branch b next to the default branch d, as listed.
func symList(h *vs.Hist, d, b int) Branch {
	h.R.Head = d
	h.R.Refs = []vs.GRef{{Name: "refs/heads/b", Commit: b}, {Name: "refs/heads/master", Commit: d}}
	vs.SetExec(h.R.Exec)
	res, err := New(Opts{Logger: vs.Log{}, RepoDir: ".", Concurrency: 1, CommitGraph: parentsgraph.NewFromMap(h.Map())}).RunSlice(context.Background())
	vs.Assert(err == nil, "listing branches succeeds")
	vs.Assert(len(res) == 1 && res[0].Name == "b", "the branch is listed once")
	vs.Assert(res[0].HeadSHA == h.R.Commits[b].Hash, "the branch has its head")
	vs.Observe("branch", res[0])
	return res[0]
}

func symIndex(h *vs.Hist, hash string) int {
	for i, c := range h.R.Commits {
		if c.Hash == hash {
			return i
		}
	}
	vs.Fail("a commit of the repository is named")
	return -1
}

// symOwn is what belongs to the branch: commits, and commits that they start from.
func symOwn(h *vs.Hist, d, b int) (own, points []bool) {
	def := h.R.Reach(d)
	if def[b] {
		// merged: without what comes through the branch
		def = make([]bool, len(h.R.Commits))
		var rec func(int)
		rec = func(c int) {
			if def[c] || c == b {
				return
			}
			def[c] = true
			for _, p := range h.R.Commits[c].Parents {
				rec(p)
			}
		}
		rec(d)
	}
	own = h.R.Reach(b)
	points = make([]bool, len(own))
	for i := range own {
		own[i] = own[i] && !def[i]
		if own[i] {
			for _, p := range h.R.Commits[i].Parents {
				points[p] = points[p] || def[p]
			}
		}
	}
	// not those that come after others
	last := append([]bool{}, points...)
	for i := range points {
		if !points[i] {
			continue
		}
		for j, r := range h.R.Reach(i) {
			if j != i && r && points[j] {
				last[i] = false
			}
		}
	}
	return own, last
}

func symGraph() (h *vs.Hist, d, b int) {
	h = vs.NewHist()
	n := vs.Param("commits", 5)
	h.Graph(n, vs.Param("parents", 2))
	// one of the heads is the last commit: others play no part
	k := vs.Choose("other", n)
	if vs.Choose("which", 2) == 0 {
		d, b = n-1, k
	} else {
		d, b = k, n-1
	}
	return
}

// SymC14: what belongs to a branch.
func SymC14() {
	h, d, b := symGraph()
	x := symList(h, d, b)
	own, points := symOwn(h, d, b)
	seen := make([]bool, len(own))
	for _, c := range x.Commits {
		i := symIndex(h, c)
		vs.Assert(own[i], "only the branch's own commits are listed")
		vs.Assert(!seen[i], "a commit is listed once")
		seen[i] = true
	}
	for i := range own {
		vs.Assert(seen[i] == own[i], "all commits of the branch are listed")
	}
	vs.Assert(x.Commits[len(x.Commits)-1] == h.R.Commits[b].Hash, "the head is the last")
	n := 0
	for i := range points {
		if points[i] {
			n++
		}
	}
	vs.Assert(len(x.BranchedFromCommits) == n, "every branch point is listed once")
	for _, c := range x.BranchedFromCommits {
		i := symIndex(h, c)
		vs.Assert(points[i], "only branch points are listed")
		points[i] = false
	}
	vs.Reach("checked")
}

// SymC14Order: branch points come in the same order every time.
func SymC14Order() {
	h, d, b := symGraph()
	x := symList(h, d, b)
	if len(x.BranchedFromCommits) < 2 {
		return
	}
	vs.MapOrder(vs.Param("order", 3))
	y := symList(h, d, b)
	vs.MapOrder(0)
	vs.Assert(len(x.BranchedFromCommits) == len(y.BranchedFromCommits), "the same branch points every time")
	for i := range x.BranchedFromCommits {
		vs.Assert(x.BranchedFromCommits[i] == y.BranchedFromCommits[i], "branch points are in the same order every time")
	}
	vs.Assert(len(x.Commits) == len(y.Commits), "the same commits every time")
	for i := range x.Commits {
		vs.Assert(x.Commits[i] == y.Commits[i], "commits are in the same order every time")
	}
	vs.Assert(x.BranchID == y.BranchID, "the id is the same every time")
	vs.Reach("checked")
}

// SymC15: what is said of a branch.
func SymC15() {
	h, d, b := symGraph()
	x := symList(h, d, b)
	own, _ := symOwn(h, d, b)
	def, br := h.R.Reach(d), h.R.Reach(b)
	vs.Assert(x.IsMerged == def[b], "merged when the head is on the default branch")
	vs.Assert(!x.IsDefault && !x.IsPullRequest, "the branch is a branch")
	n := 0
	for i := range own {
		if own[i] {
			n++
		}
	}
	vs.Assert(x.AheadDefaultCount == n, "ahead by its own commits")
	f := symIndex(h, x.FirstCommit)
	vs.Assert(own[f], "the first commit is one of its own")
	for _, p := range h.R.Commits[f].Parents {
		vs.Assert(!own[p], "the first commit starts the branch")
	}
	if def[b] {
		any := false
		for i, c := range h.R.Commits {
			for _, p := range c.Parents {
				any = any || p == b && def[i]
			}
		}
		if any {
			m := symIndex(h, x.MergeCommit)
			vs.Assert(def[m], "the merge commit is on the default branch")
			child := false
			for _, p := range h.R.Commits[m].Parents {
				child = child || p == b
			}
			vs.Assert(child, "the merge commit has the head for a parent")
		} else {
			vs.Assert(x.MergeCommit == "", "no merge commit when there is none")
		}
		vs.Reach("merged")
		return
	}
	vs.Assert(x.MergeCommit == "", "no merge commit before the merge")
	shared, behind := false, 0
	for i := range def {
		shared = shared || def[i] && br[i]
		if def[i] && !br[i] {
			behind++
		}
	}
	if shared {
		vs.Assert(x.BehindDefaultCount == behind, "behind by the commits of the default branch it does not have")
		vs.Reach("behind")
	}
}

// SymC15Default: what is said of the default branch.
func SymC15Default() {
	h := vs.NewHist()
	n := vs.Param("commits", 5)
	h.Graph(n, vs.Param("parents", 2))
	d := vs.Choose("default", n)
	h.R.Head = d
	h.R.Refs = []vs.GRef{{Name: "refs/heads/master", Commit: d}}
	vs.SetExec(h.R.Exec)
	res, err := New(Opts{Logger: vs.Log{}, RepoDir: ".", Concurrency: 1, IncludeDefaultBranch: true, CommitGraph: parentsgraph.NewFromMap(h.Map())}).RunSlice(context.Background())
	vs.Assert(err == nil, "listing branches succeeds")
	vs.Assert(len(res) == 1, "the default branch is listed once")
	x := res[0]
	vs.Observe("branch", x)
	vs.Assert(x.Name == "master" && x.HeadSHA == h.R.Commits[d].Hash && x.IsDefault && !x.IsMerged && !x.IsPullRequest, "the default branch is listed as such")
	want := h.R.Reach(d)
	f := symIndex(h, x.FirstCommit)
	vs.Assert(want[f] && len(h.R.Commits[f].Parents) == 0, "the first commit is a root of the default branch")
	for _, c := range x.Commits {
		i := symIndex(h, c)
		vs.Assert(want[i], "only commits of the default branch are listed, each once")
		want[i] = false
	}
	for i := range want {
		vs.Assert(!want[i], "all commits of the default branch are listed")
	}
	vs.Assert(x.Commits[len(x.Commits)-1] == x.HeadSHA, "the head is the last")
	vs.Reach("checked")
}
