//sym:into ripsrc/parentsgraph

package parentsgraph

import (
	"sort"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc/parentsgraph/parentsp"
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// symCheck compares the maps with the repository's graph.
func symCheck(h *vs.Hist, want []bool, parents, children map[string][]string) {
	n := 0
	kids := map[string][]string{}
	for i, c := range h.R.Commits {
		if !want[i] {
			continue
		}
		n++
		ps, ok := parents[c.Hash]
		vs.Assert(ok, "every commit has an entry with its parents")
		vs.Assert(len(ps) == len(c.Parents), "a commit has all its parents")
		for k, p := range c.Parents {
			vs.Assert(ps[k] == h.R.Commits[p].Hash, "a commit has its parents in order")
			kids[ps[k]] = append(kids[ps[k]], c.Hash)
		}
	}
	vs.Assert(len(parents) == n, "only commits of the history are listed")
	for i, c := range h.R.Commits {
		if !want[i] {
			continue
		}
		got, ok := children[c.Hash]
		vs.Assert(ok, "every commit has an entry with its children")
		got = append([]string{}, got...)
		sort.Strings(got)
		k := kids[c.Hash]
		sort.Strings(k)
		vs.Assert(len(got) == len(k), "a commit has exactly its children")
		for j := range k {
			vs.Assert(got[j] == k[j], "a commit has exactly its children")
		}
	}
	vs.Assert(len(children) == n, "only commits of the history have children lists")
	vs.Reach("checked")
}

func symSame(a, b map[string][]string) {
	vs.Assert(len(a) == len(b), "the maps are the same every time")
	for k, x := range a {
		y := b[k]
		vs.Assert(len(x) == len(y), "the lists are the same every time")
		for i := range x {
			vs.Assert(x[i] == y[i], "the lists are in the same order every time")
		}
	}
}

// SymC13Read: graphs read from a repository.
func SymC13Read() {
	h := vs.NewHist()
	n := vs.Param("commits", 4)
	h.Graph(n, vs.Param("parents", 3))
	side := vs.Choose("side", n)
	h.R.Head = vs.Choose("head", n)
	h.R.Refs = []vs.GRef{{Name: "refs/heads/master", Commit: h.R.Head}, {Name: "refs/heads/side", Commit: side}}
	vs.SetExec(h.R.Exec)
	all := vs.Choose("all", 2) == 1
	g := New(Opts{RepoDir: ".", AllBranches: all, Logger: vs.Log{}})
	err := g.Read()
	vs.Assert(err == nil, "reading the graph succeeds")
	want := h.R.Reach(h.R.Head)
	if all {
		want = h.R.Reach(h.R.Head, side)
	}
	symCheck(h, want, g.Parents, g.Children)
}

// SymC13Map: graphs given as maps, and the order of children.
func SymC13Map() {
	h := vs.NewHist()
	n := vs.Param("commits", 4)
	h.Graph(n, vs.Param("parents", 2))
	want := make([]bool, n)
	for i := range want {
		want[i] = true
	}
	a := NewFromMap(h.Map())
	vs.MapOrder(vs.Param("order", 4))
	b := NewFromMap(h.Map())
	vs.MapOrder(0)
	symCheck(h, want, a.Parents, a.Children)
	symCheck(h, want, b.Parents, b.Children)
	symSame(a.Children, b.Children)
}

// SymC13Long: a commit with very many parents.
func SymC13Long() {
	h := vs.NewHist()
	n := []int{16, 99, 100, 101, 1600}[vs.Choose("n", 5)]
	var ps []int
	for i := 0; i < n; i++ {
		ps = append(ps, h.Commit(nil))
	}
	h.Commit(nil, ps...)
	vs.SetExec(h.R.Exec)
	g := New(Opts{RepoDir: ".", Logger: vs.Log{}})
	vs.Assert(g.Read() == nil, "reading the graph succeeds")
	symCheck(h, h.R.Reach(n), g.Parents, g.Children)
}

// SymC13Parse: hashes of any digits and length.
func SymC13Parse() {
	digits := func(name string, n int) string {
		s := vs.String(name, n)
		for i := 0; i < n; i++ {
			vs.Assume(vs.In(s[i], "0123456789abcdef"))
		}
		return s
	}
	n := []int{vs.Param("len", 3), 40, 64}[vs.Choose("kind", 3)]
	hash := func(name string) string {
		k := n
		if k > 3 {
			k = 3
		}
		return digits(name, k) + strings.Repeat("0", n-k)
	}
	a, b, c := hash("a"), hash("b"), hash("c")
	vs.Assume(a != b)
	vs.Assume(a != c)
	vs.Assume(b != c)
	text := a + "@\n" + b + "@" + a + "\n" + c + "@" + b + " " + a
	if vs.Choose("end", 2) == 1 {
		text += "\n"
	}
	p, err := parentsp.New(strings.NewReader(text)).Run()
	vs.Assert(err == nil, "parsing succeeds")
	vs.Assert(len(p) == 3, "every commit is listed once")
	pa, ok := p[a]
	vs.Assert(ok && len(pa) == 0, "the root has no parents")
	vs.Assert(len(p[b]) == 1 && p[b][0] == a, "a commit has its parent")
	vs.Assert(len(p[c]) == 2 && p[c][0] == b && p[c][1] == a, "a merge has its parents")
	vs.Reach("parsed")
}

// SymC13Refs: the selected history, by the refs that lead to it.
func SymC13Refs() {
	h := vs.NewHist()
	h.Graph(vs.Param("commits", 4), 2)
	side := vs.AnyRef(h)
	vs.SetExec(h.R.Exec)
	all := vs.Choose("all", 2) == 1
	g := New(Opts{RepoDir: ".", AllBranches: all, Logger: vs.Log{}})
	vs.Assert(g.Read() == nil, "reading the graph succeeds")
	want := h.R.Reach(h.R.Head)
	if all {
		want = h.R.Reach(h.R.Head, side)
	}
	symCheck(h, want, g.Parents, g.Children)
}
