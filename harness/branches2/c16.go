//sym:into ripsrc/branches2

package branches2

import (
	"context"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc/branchmeta"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// symRefName is any name of up to n bytes that git allows for a branch.
func symRefName(name string, n int) string {
	s := vs.String(name, 1+vs.Choose(name+".len", n))
	for i := 0; i < len(s); i++ {
		c := s[i]
		vs.Assume(c > ' ' && c != 0x7f && !vs.In(c, "~^:?*[\\"))
		vs.Assume(!(c == '.' && (i == 0 || i == len(s)-1 || s[i-1] == '.' || s[i-1] == '/')))
		vs.Assume(!(c == '/' && (i == 0 || i == len(s)-1 || s[i-1] == '/')))
		vs.Assume(!(c == '{' && i > 0 && s[i-1] == '@'))
	}
	return s
}

// symWant is what has to be listed, by name and head.
type symWant struct {
	name, head string
	def, pr    bool
}

func symCheckList(res []Branch, want []symWant) {
	for _, b := range res {
		b.BranchID = "" // hashes are abstract
		vs.Observe("branch", b)
	}
	used := make([]bool, len(res))
	for _, w := range want {
		found := false
		for i, b := range res {
			if !used[i] && !found && b.Name == w.name && b.HeadSHA == w.head && b.IsDefault == w.def && b.IsPullRequest == w.pr {
				used[i], found = true, true
			}
		}
		vs.Assert(found, "every branch is listed with its name and head")
	}
	vs.Assert(len(res) == len(want), "nothing else is listed")
	vs.Reach("checked")
}

func symLine(n int) *vs.Hist {
	h := vs.NewHist()
	h.Commit(nil)
	for i := 1; i < n; i++ {
		h.Commit(nil, i-1)
	}
	return h
}

// SymC16Names: branches of any name.
func SymC16Names() {
	n := vs.Param("len", 3)
	h := symLine(3)
	h.R.Head = 1
	origin := vs.Choose("origin", 2) == 1
	x, y := symRefName("x", n), symRefName("y", vs.Param("len2", 1))
	vs.Assume(x != y)
	vs.Assume(!strings.HasPrefix(x, y+"/") && !strings.HasPrefix(y, x+"/"))
	prefix := "refs/heads/"
	other := "refs/remotes/origin/"
	if origin {
		prefix, other = other, prefix
		vs.Assume(x != "HEAD" && y != "HEAD")
	}
	// y is the default branch or another one
	var want []symWant
	def := vs.Choose("default", 2) == 1
	incl := vs.Choose("include", 2) == 1
	h.R.Refs = []vs.GRef{{Name: prefix + x, Commit: 2}, {Name: prefix + y, Commit: 0}}
	if vs.Choose("more", 2) == 1 {
		h.R.Refs = append(h.R.Refs, vs.GRef{Name: other + "else", Commit: 2}, vs.GRef{Name: "refs/tags/" + x, Commit: 0})
	}
	if origin && vs.Choose("sym", 2) == 1 {
		h.R.Refs = append(h.R.Refs, vs.GRef{Name: "refs/remotes/origin/HEAD", Commit: 0, Sym: true})
	}
	want = append(want, symWant{name: x, head: h.R.Commits[2].Hash})
	name := "trunk-0"
	if def {
		name = y
	} else {
		want = append(want, symWant{name: y, head: h.R.Commits[0].Hash})
	}
	h.R.HeadRef = "refs/heads/" + name
	if !origin && def {
		h.R.Head = 0
	} else {
		h.R.Refs = append(h.R.Refs, vs.GRef{Name: "refs/heads/" + name, Commit: h.R.Head})
	}
	if incl {
		want = append(want, symWant{name: name, head: h.R.Commits[h.R.Head].Hash, def: true})
	}
	vs.SetExec(h.R.Exec)
	res, err := New(Opts{Logger: vs.Log{}, RepoDir: ".", Concurrency: 1, UseOrigin: origin, IncludeDefaultBranch: incl, CommitGraph: parentsgraph.NewFromMap(h.Map())}).RunSlice(context.Background())
	vs.Assert(err == nil, "listing branches succeeds")
	symCheckList(res, want)
}

// SymC16Known: names that mean something to git or to the format.
func SymC16Known() {
	names := []string{"HEAD", "origin", "heads/x", "x", "@@@", "a@@@b", "(x)", "é\u00a0", "\u3000", "origin/x", "refs/heads/x", "-", "a/b/c", "\xff", "master", "x.y", "0123456789012345678901234567890123456789", "@"}
	h := symLine(3)
	x := names[vs.Choose("x", len(names))]
	y := names[vs.Choose("y", len(names))]
	vs.Assume(x != y)
	origin := vs.Choose("origin", 2) == 1
	p := "refs/heads/"
	if origin {
		p = "refs/remotes/origin/"
		vs.Assume(x != "HEAD" && y != "HEAD")
	}
	h.R.HeadRef = "refs/heads/" + x
	h.R.Head = 1
	h.R.Refs = []vs.GRef{{Name: p + y, Commit: 2}, {Name: p + x, Commit: 1}}
	if origin {
		h.R.Refs = append(h.R.Refs, vs.GRef{Name: "refs/heads/" + x, Commit: 1})
	}
	switch vs.Choose("also", 4) {
	case 1:
		h.R.Refs = append(h.R.Refs, vs.GRef{Name: "refs/tags/" + x, Commit: 0}, vs.GRef{Name: "refs/tags/" + y, Commit: 0})
	case 2:
		h.R.Refs = append(h.R.Refs, vs.GRef{Name: "refs/remotes/" + x, Commit: 0}, vs.GRef{Name: "refs/remotes/" + y, Commit: 0})
	case 3:
		h.R.Refs = append(h.R.Refs, vs.GRef{Name: "refs/remotes/origin/HEAD", Commit: 0, Sym: true}, vs.GRef{Name: "refs/remotes/" + x + "/HEAD", Commit: 0, Sym: true})
		if x == "origin" {
			h.R.Refs = h.R.Refs[:len(h.R.Refs)-1]
		}
	}
	// one ref has one commit and is no directory
	for i, r := range h.R.Refs {
		for j, q := range h.R.Refs {
			vs.Assume(i == j || q.Name != r.Name && !strings.HasPrefix(q.Name, r.Name+"/"))
		}
	}
	var want []symWant
	for _, r := range h.R.Refs {
		if strings.HasPrefix(r.Name, p) && !(origin && r.Name == p+"HEAD") && r.Name != p+x {
			want = append(want, symWant{name: r.Name[len(p):], head: h.R.Commits[r.Commit].Hash})
		}
	}
	want = append(want, symWant{name: x, head: h.R.Commits[1].Hash, def: true})
	vs.SetExec(h.R.Exec)
	res, err := New(Opts{Logger: vs.Log{}, RepoDir: ".", UseOrigin: origin, IncludeDefaultBranch: true, CommitGraph: parentsgraph.NewFromMap(h.Map())}).RunSlice(context.Background())
	vs.Assert(err == nil, "listing branches succeeds")
	symCheckList(res, want)

	meta, err := branchmeta.Get(context.Background(), branchmeta.Opts{Logger: vs.Log{}, RepoDir: ".", UseOrigin: origin, IncludeDefault: true})
	vs.Assert(err == nil, "listing names succeeds")
	n := len(want)
	vs.Assert(len(meta) == n, "every branch is named once")
	for _, m := range meta {
		found := false
		for _, w := range want {
			found = found || w.name == m.Name && w.head == m.Commit
		}
		vs.Assert(found, "every branch is named with its head")
	}
}

// SymC16Pulls: lists of pull requests, with repetitions and unknown ones.
func SymC16Pulls() {
	h := symLine(4)
	h.R.Head = 1
	h.R.Refs = []vs.GRef{{Name: "refs/heads/b", Commit: 2}, {Name: "refs/heads/c", Commit: 2}, {Name: "refs/heads/master", Commit: 1}}
	all := []string{vs.Hash40("dead"), ""}
	for _, c := range h.R.Commits {
		all = append(all, c.Hash)
	}
	n := vs.Param("pulls", 3)
	var prs []string
	for k := vs.Choose("n", n+1); k > 0; k-- {
		prs = append(prs, all[vs.Choose("pr", len(all))])
	}
	only := vs.Choose("only", 2) == 1
	incl := vs.Choose("include", 2) == 1
	var want []symWant
	seen := map[string]bool{}
	for _, p := range prs {
		known := false
		for _, c := range h.R.Commits {
			known = known || c.Hash == p
		}
		if known && !seen[p] {
			want = append(want, symWant{head: p, pr: true})
		}
		seen[p] = true
	}
	if !only {
		want = append(want, symWant{name: "b", head: h.R.Commits[2].Hash}, symWant{name: "c", head: h.R.Commits[2].Hash})
		if incl {
			want = append(want, symWant{name: "master", head: h.R.Commits[1].Hash, def: true})
		}
	}
	vs.SetExec(h.R.Exec)
	vs.MapOrder(2)
	res, err := New(Opts{Logger: vs.Log{}, RepoDir: ".", Concurrency: 1 + vs.Choose("workers", 2), PullRequestSHAs: prs, PullRequestsOnly: only, IncludeDefaultBranch: incl, CommitGraph: parentsgraph.NewFromMap(h.Map())}).RunSlice(context.Background())
	vs.MapOrder(0)
	vs.Assert(err == nil, "listing branches succeeds")
	symCheckList(res, want)
}

// SymC16Sched: every interleaving of the workers.
func SymC16Sched() {
	h := symLine(4)
	h.R.Head = 1
	h.R.Refs = []vs.GRef{{Name: "refs/heads/master", Commit: 1}}
	var want []symWant
	n := vs.Choose("branches", vs.Param("branches", 2)+1)
	for i := 0; i < n; i++ {
		nm := string(rune('p' + i))
		h.R.Refs = append(h.R.Refs, vs.GRef{Name: "refs/heads/" + nm, Commit: 2})
		want = append(want, symWant{name: nm, head: h.R.Commits[2].Hash})
	}
	var prs []string
	if vs.Choose("pr", 2) == 1 {
		prs = []string{vs.Hash40("dead"), h.R.Commits[3].Hash}
		want = append(want, symWant{head: prs[1], pr: true})
	}
	vs.SetExec(h.R.Exec)
	p := New(Opts{Logger: vs.Log{}, RepoDir: ".", Concurrency: 1 + vs.Choose("workers", vs.Param("workers", 2)), PullRequestSHAs: prs, CommitGraph: parentsgraph.NewFromMap(h.Map())})
	vs.SchedFork(vs.Param("preempt", 1))
	res, err := p.RunSlice(context.Background())
	vs.SchedFork(-1)
	vs.Assert(err == nil, "listing branches succeeds")
	symCheckList(res, want)
}
