// Command gitmodel compares the model of git used by the harnesses with the
// installed git, over random histories. It is a check of the model, not of
// ripsrc, and no registered check runs it.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	vs "gm/verifsym"
)

func text(f vs.GFile) []byte {
	if f.Binary {
		return []byte(fmt.Sprintf("\x00bin%d %d\n", f.Blob, f.ID) + strings.Repeat(fmt.Sprintf("\x00%d", f.ID), 200))
	}
	s := ""
	for i, l := range f.Lines {
		s += l.Text
		if i < len(f.Lines)-1 || !f.NoNL {
			s += "\n"
		}
	}
	return []byte(s)
}

var paths = []string{"a", "d/b", "d/c d", "e\"f", "g => h", "\xc3\xa9", "x/y/z", "x/w/z", "x/z", "{k => l}/m", "t\tu"}

func git(dir string, in string, args ...string) string {
	c := exec.Command("git", args...)
	c.Dir = dir
	c.Stdin = strings.NewReader(in)
	c.Stderr = os.Stderr
	b, err := c.Output()
	if err != nil {
		fmt.Println("git", args, err)
	}
	return string(b)
}

func quotePath(p string) string {
	return vs.GitQuoted("", p, true)
}

func main() {
	tmp := os.Args[1]
	n, _ := strconv.Atoi(os.Args[2])
	bad := 0
	for seed := 0; seed < n; seed++ {
		r := rand.New(rand.NewSource(int64(seed)))
		g := gen(r)
		dir := filepath.Join(tmp, fmt.Sprint("r", seed))
		os.MkdirAll(dir, 0755)
		git(dir, "", "init", "-q", "-b", "master", ".")
		imp(dir, g)
		cmp := func(args ...string) {
			want := git(dir, "", args...)
			got := g.Exec(dir, args).Out
			norm := regexp.MustCompile(`(?m)^index [0-9a-f.]+`)
			norm2 := regexp.MustCompile(`\b[0-9a-f]{7}\b`)
			sim := regexp.MustCompile(`similarity index \d+%|R\d\d\d`)
			hd := regexp.MustCompile(`(?m)^(@@ .* @@).*`)
			tm := regexp.MustCompile(`(?m)^((author|committer)-time .*|previous .*\n)`)
			f := func(s string) string {
				s = norm.ReplaceAllString(s, "index X")
				s = norm2.ReplaceAllString(s, "X")
				s = sim.ReplaceAllString(s, "SIM")
				s = hd.ReplaceAllString(s, "$1")
				s = tm.ReplaceAllString(s, "")
				return s
			}
			a, b := strings.TrimRight(f(want), "\n"), strings.TrimRight(f(got), "\n")
			if a != b {
				bad++
				fmt.Printf("DIFF seed %d %q\n", seed, args)
				la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
				for i := 0; i < len(la) || i < len(lb); i++ {
					var x, y string
					if i < len(la) {
						x = la[i]
					}
					if i < len(lb) {
						y = lb[i]
					}
					if x != y {
						lo := i - 12
						if lo < 0 {
							lo = 0
						}
						if i > len(la) {
							break
						}
						for _, l := range la[lo:i] {
							fmt.Printf("      %q\n", l)
						}
						fmt.Printf("  git   %q\n  model %q\n", x, y)
						break
					}
				}
			}
		}
		clog := func(args ...string) {
			cmp(append([]string{"-c", "core.attributesFile=/dev/null", "-c", "diff.renameLimit=10000"}, args...)...)
		}
		clog("log", "-p", "-m", "--date-order", "--reverse", "--no-abbrev-commit", "--pretty=short")
		clog("log", "-p", "-m", "--date-order", "--reverse", "--no-abbrev-commit", "--pretty=short", "--all")
		clog("log", "-p", "-m", "--reverse", "--no-abbrev-commit", "--pretty=short")
		k := r.Intn(len(g.Commits))
		clog("log", "-p", "-m", "--date-order", "--reverse", "--no-abbrev-commit", "--pretty=short", g.Commits[k].Hash+"..HEAD")
		clog("log", "-m", "--reverse", "--no-abbrev-commit", "--pretty=format:%H@%P", "--all")
		clog("log", "-c", "--raw", "--reverse", "--numstat", "--pretty=format:!SHA: %H%n!Parents: %P%n!Committer: %ce%n!CName: %cn%n!Author: %ae%n!AName: %an%n!Date: %aI%n!Message: %s%n")
		for _, o := range [][]string{{"--first-parent"}, {"-w"}, {"-b"}, {"--ignore-space-at-eol"}, {"--diff-filter=AM"}, {"--diff-filter=d"}, {"--diff-filter=R"}, {g.Commits[k].Hash + "...HEAD"}, {"--patience"}, {"-l5000"}} {
			clog(append([]string{"log", "-p", "-m", "--date-order", "--reverse", "--no-abbrev-commit", "--pretty=short"}, o...)...)
			clog(append([]string{"log", "-p", "--date-order", "--pretty=short"}, o...)...)
			cmp(append([]string{"rev-list", "--date-order", "HEAD"}, o[:min(1, len(o)*b2i(o[0] == "--first-parent"))]...)...)
		}
		cmp("for-each-ref", "--merged", "HEAD", "--format=%(refname)")
		cmp("for-each-ref", "--no-merged", "HEAD", "--count=1", "--format=%(refname)", "refs/heads")
		cmp("rev-list", "--date-order", g.Commits[k].Hash+"...HEAD")
		cmp("rev-parse", "HEAD")
		cmp("rev-parse", "--abbrev-ref", "HEAD")
		cmp("symbolic-ref", "--short", "HEAD")
		cmp("for-each-ref", "--format", "%(objectname)@@@%(refname:short)@@@%(refname)", "refs/heads")
		cmp("for-each-ref", "--format", "%(objectname)@@@%(refname:short)@@@%(refname)", "refs/remotes/origin")
		cmp("rev-list", "--max-parents=0", "HEAD")
		if linear(g) {
			for _, c := range g.Commits {
				for _, f := range c.Files {
					if !f.Binary && len(f.Lines) > 0 {
						cmp("blame", c.Hash, "--line-porcelain", "--", f.Path)
						cmp("blame", c.Hash, "--porcelain", "--", f.Path)
					}
				}
			}
		}
		os.RemoveAll(dir)
	}
	fmt.Println("histories:", n, "differences:", bad)
	if bad > 0 {
		os.Exit(1)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func linear(g *vs.GRepo) bool {
	for _, c := range g.Commits {
		if len(c.Parents) > 1 {
			return false
		}
	}
	return true
}

var nextID, nextFile int

func gen(r *rand.Rand) *vs.GRepo {
	nextID, nextFile = 1, 1
	g := vs.NewGRepo()
	n := 2 + r.Intn(7)
	merges := r.Intn(2) == 0
	for i := 0; i < n; i++ {
		c := vs.GCommit{Date: 1600000000 + i*10, Subject: fmt.Sprint("s", i), Author: "A B", AEmail: "a@b", CName: "C D", CEmail: "c@d"}
		if r.Intn(5) == 0 {
			c.Date -= 25
		}
		c.ADate = "2020-09-13T12:26:40+00:00"
		if i > 0 {
			c.Parents = []int{i - 1}
			if merges && r.Intn(3) == 0 {
				c.Parents = []int{r.Intn(i)}
			}
			if merges && i > 1 && r.Intn(2) == 0 {
				p := r.Intn(i)
				if p != c.Parents[0] {
					c.Parents = append(c.Parents, p)
				}
			}
			if merges && r.Intn(8) == 0 {
				c.Parents = nil
			}
		}
		if len(c.Parents) > 0 {
			c.Files = append([]vs.GFile{}, g.Commits[c.Parents[0]].Files...)
		}
		if len(c.Parents) == 2 {
			// take some files of the other side
			for _, f := range g.Commits[c.Parents[1]].Files {
				if r.Intn(2) == 0 {
					c.Files = vs.WithFile(vs.WithoutFile(c.Files, f.Path), f)
				}
			}
		}
		ops := r.Intn(4)
		touched := map[string]bool{}
		for k := 0; k < ops; k++ {
			mutate(r, &c, touched)
		}
		g.Commits = append(g.Commits, c)
		g.Head = i
	}
	g.Refs = []vs.GRef{{Name: "refs/heads/master", Commit: g.Head}}
	for _, nm := range []string{"b1", "f/x", "zz@@@z"} {
		if r.Intn(2) == 0 {
			g.Refs = append(g.Refs, vs.GRef{Name: "refs/heads/" + nm, Commit: r.Intn(n)})
			g.Refs = append(g.Refs, vs.GRef{Name: "refs/remotes/origin/" + nm, Commit: r.Intn(n)})
		}
	}
	g.Refs = append(g.Refs, vs.GRef{Name: "refs/remotes/origin/master", Commit: g.Head})
	g.Refs = append(g.Refs, vs.GRef{Name: "refs/remotes/origin/HEAD", Commit: g.Head, Sym: true})
	return g
}

func newLine() vs.GLine {
	nextID++
	pre := []string{"", "-", "+", " ", "@@ -1 +1 @@", "diff --git a/a b/a", "\\ No"}[nextID%7]
	return vs.GLine{ID: nextID, Text: fmt.Sprintf("%sline %d %s", pre, nextID, strings.Repeat("x", nextID%3))}
}

func mutate(r *rand.Rand, c *vs.GCommit, touched map[string]bool) {
	pick := func() *vs.GFile {
		if len(c.Files) == 0 {
			return nil
		}
		f := c.Files[r.Intn(len(c.Files))]
		if touched[f.Path] {
			return nil
		}
		touched[f.Path] = true
		f.Lines = append([]vs.GLine{}, f.Lines...)
		return &f
	}
	switch r.Intn(8) {
	case 0, 1: // new
		p := paths[r.Intn(len(paths))]
		if c.File(p) != nil || touched[p] {
			return
		}
		for _, f := range c.Files {
			if strings.HasPrefix(f.Path, p+"/") || strings.HasPrefix(p, f.Path+"/") {
				return
			}
		}
		touched[p] = true
		nextFile++
		f := vs.GFile{Path: p, ID: nextFile}
		if r.Intn(5) == 0 {
			f.Binary, f.Blob = true, nextFile
		} else {
			for k := 1 + r.Intn(12); k > 0; k-- {
				f.Lines = append(f.Lines, newLine())
			}
			f.NoNL = r.Intn(4) == 0
		}
		c.Files = vs.WithFile(c.Files, f)
	case 2, 3: // edit
		f := pick()
		if f == nil {
			return
		}
		if f.Binary {
			nextID++
			f.Blob = nextID
		} else {
			edit(r, f)
		}
		c.Files = vs.WithFile(c.Files, *f)
	case 4:
		f := pick()
		if f == nil {
			return
		}
		c.Files = vs.WithoutFile(c.Files, f.Path)
	case 5: // rename, exact only so that similarity plays no part
		f := pick()
		if f == nil || len(f.Lines) == 0 && !f.Binary {
			return
		}
		p := paths[r.Intn(len(paths))]
		if c.File(p) != nil || touched[p] {
			return
		}
		for _, x := range c.Files {
			if strings.HasPrefix(x.Path, p+"/") || strings.HasPrefix(p, x.Path+"/") {
				return
			}
		}
		touched[p] = true
		c.Files = vs.WithoutFile(c.Files, f.Path)
		f.Path = p
		c.Files = vs.WithFile(c.Files, *f)
	case 6: // mode
		f := pick()
		if f == nil {
			return
		}
		if f.Mode == "100755" {
			f.Mode = "100644"
		} else {
			f.Mode = "100755"
		}
		c.Files = vs.WithFile(c.Files, *f)
	case 7: // text and binary
		f := pick()
		if f == nil {
			return
		}
		f.Binary = !f.Binary
		f.Lines = nil
		nextID++
		f.Blob = nextID
		if !f.Binary {
			f.Blob = 0
			for k := 1 + r.Intn(3); k > 0; k-- {
				f.Lines = append(f.Lines, newLine())
			}
		}
		f.NoNL = false
		c.Files = vs.WithFile(c.Files, *f)
	}
}

func edit(r *rand.Rand, f *vs.GFile) {
	for k := 1 + r.Intn(3); k > 0; k-- {
		i := r.Intn(len(f.Lines) + 1)
		if r.Intn(2) == 0 && i < len(f.Lines) {
			f.Lines = append(f.Lines[:i:i], f.Lines[i+1:]...)
		} else if r.Intn(3) == 0 && i < len(f.Lines) {
			// the same text with other blanks
			nextID++
			t := f.Lines[i].Text
			t = []string{t + " ", strings.Replace(t, " ", "  ", 1), strings.Replace(t, " ", "\t", 1), strings.Replace(t, "line", "li ne", 1)}[r.Intn(4)]
			l := vs.GLine{ID: nextID, Text: t}
			if t == f.Lines[i].Text {
				continue
			}
			f.Lines = append(f.Lines[:i:i], append([]vs.GLine{l}, f.Lines[i+1:]...)...)
		} else {
			f.Lines = append(f.Lines[:i:i], append([]vs.GLine{newLine()}, f.Lines[i:]...)...)
		}
	}
	if len(f.Lines) == 0 {
		f.NoNL = false
	}
}

func imp(dir string, g *vs.GRepo) {
	for i := range g.Commits {
		c := &g.Commits[i]
		var b strings.Builder
		fmt.Fprintf(&b, "commit refs/tmp/x%d\nmark :1\nauthor %s <%s> 1600000000 +0000\ncommitter %s <%s> %d +0000\ndata %d\n%s\n", i, c.Author, c.AEmail, c.CName, c.CEmail, c.Date, len(c.Subject), c.Subject)
		for k, p := range c.Parents {
			if k == 0 {
				fmt.Fprintf(&b, "from %s\n", g.Commits[p].Hash)
			} else {
				fmt.Fprintf(&b, "merge %s\n", g.Commits[p].Hash)
			}
		}
		b.WriteString("deleteall\n")
		for _, f := range c.Files {
			m := f.Mode
			if m == "" {
				m = "100644"
			}
			t := text(f)
			fmt.Fprintf(&b, "M %s inline %s\ndata %d\n%s\n", m, quotePath(f.Path), len(t), t)
		}
		git(dir, b.String(), "fast-import", "--quiet", "--date-format=raw", "--force")
		c.Hash = strings.TrimSpace(git(dir, "", "rev-parse", fmt.Sprint("refs/tmp/x", i)))
	}
	for i := range g.Commits {
		git(dir, "", "update-ref", "-d", fmt.Sprint("refs/tmp/x", i))
	}
	for _, f := range g.Refs {
		if f.Sym {
			git(dir, "", "symbolic-ref", f.Name, "refs/remotes/origin/master")
		} else {
			git(dir, "", "update-ref", f.Name, g.Commits[f.Commit].Hash)
		}
	}
}
