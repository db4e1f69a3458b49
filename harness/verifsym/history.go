//sym:into ripsrc/verifsym

package verifsym

import "strconv"

// Arbitrary histories for the model of git.

// Hist builds a history commit by commit.
type Hist struct {
	R      *GRepo
	Paths  []string
	lines  int
	files  int
	SymLen int      // arbitrary bytes per line
	Pool   []string // if set, the texts of lines, in turn
}

func NewHist(paths ...string) *Hist {
	return &Hist{R: NewGRepo(), Paths: paths, SymLen: 1}
}

// Line is a new line of arbitrary text.
func (h *Hist) Line() GLine {
	h.lines++
	if len(h.Pool) != 0 {
		return GLine{ID: h.lines, Text: h.Pool[(h.lines-1)%len(h.Pool)]}
	}
	s := String("line"+strconv.Itoa(h.lines), h.SymLen)
	for i := 0; i < len(s); i++ {
		Assume(And(s[i] != '\n', s[i] != '\r'))
	}
	return GLine{ID: h.lines, Text: s}
}

func (h *Hist) Text(path string, n int) GFile {
	h.files++
	f := GFile{Path: path, ID: h.files}
	for i := 0; i < n; i++ {
		f.Lines = append(f.Lines, h.Line())
	}
	return f
}

func (h *Hist) Bin(path string) GFile {
	h.files++
	h.lines++
	return GFile{Path: path, ID: h.files, Binary: true, Blob: h.lines}
}

// Free is the paths not in use.
func (h *Hist) Free(fs []GFile) []string {
	var r []string
	for _, p := range h.Paths {
		used := false
		for i := range fs {
			used = used || fs[i].Path == p
		}
		if !used {
			r = append(r, p)
		}
	}
	return r
}

// Commit adds a commit.
func (h *Hist) Commit(files []GFile, parents ...int) int {
	n := len(h.R.Commits)
	h.R.Commits = append(h.R.Commits, GCommit{
		Hash: Hash40(string(rune('a'+n%6)) + strconv.Itoa(n) + "e"), Parents: parents, Files: files, Date: 1000 + n,
		Subject: "s", Author: "A", AEmail: "a@x", CName: "C", CEmail: "c@x", ADate: "2020-09-13T12:26:40+00:00",
	})
	h.R.Head = n
	return n
}

func (h *Hist) Files(c int) []GFile {
	return append([]GFile{}, h.R.Commits[c].Files...)
}

// Pick is one of the files.
func Pick(name string, fs []GFile) GFile {
	if len(fs) == 0 {
		Assume(false)
	}
	f := fs[Choose(name, len(fs))]
	f.Lines = append([]GLine{}, f.Lines...)
	return f
}

func insert(ls []GLine, i int, l GLine) []GLine {
	r := append([]GLine{}, ls[:i]...)
	r = append(r, l)
	return append(r, ls[i:]...)
}

// Insert puts a new line into a text file.
func (h *Hist) Insert(f *GFile, at int) { f.Lines = insert(f.Lines, at, h.Line()) }

// Ops is the number of operations Mutate knows.
const Ops = 13

// Mutate does one operation of an arbitrary kind on a tree.
func (h *Hist) Mutate(fs []GFile, op int) []GFile {
	free := h.Free(fs)
	needFree := func() string {
		if len(free) == 0 {
			Assume(false)
		}
		return free[Choose("path", len(free))]
	}
	text := func() GFile {
		f := Pick("file", fs)
		Assume(!f.Binary)
		return f
	}
	switch op {
	case 0: // nothing
		return fs
	case 1: // a text file of some lines
		p := needFree()
		return WithFile(fs, h.Text(p, Choose("size", 3)))
	case 2: // a line put in
		f := text()
		h.Insert(&f, Choose("at", len(f.Lines)+1))
		return WithFile(fs, f)
	case 3: // a line taken out
		f := text()
		if len(f.Lines) == 0 {
			Assume(false)
		}
		i := Choose("at", len(f.Lines))
		f.Lines = append(f.Lines[:i:i], f.Lines[i+1:]...)
		if i == len(f.Lines) {
			f.NoNL = false
		}
		return WithFile(fs, f)
	case 4: // a file deleted
		return WithoutFile(fs, Pick("file", fs).Path)
	case 5: // a file renamed
		f := Pick("file", fs)
		if !f.Binary && len(f.Lines) == 0 {
			Assume(false)
		}
		p := needFree()
		fs = WithoutFile(fs, f.Path)
		f.Path = p
		return WithFile(fs, f)
	case 6: // a file renamed and changed
		f := text()
		if len(f.Lines) < 2 {
			Assume(false)
		}
		p := needFree()
		fs = WithoutFile(fs, f.Path)
		f.Path = p
		h.Insert(&f, Choose("at", len(f.Lines)+1))
		return WithFile(fs, f)
	case 7: // a binary file
		return WithFile(fs, h.Bin(needFree()))
	case 8: // binary contents replaced
		f := Pick("file", fs)
		Assume(f.Binary)
		h.lines++
		f.Blob = h.lines
		return WithFile(fs, f)
	case 9: // from text to binary or back
		f := Pick("file", fs)
		h.lines++
		if f.Binary {
			f.Binary, f.Blob = false, 0
			f.Lines = []GLine{h.Line(), h.Line()}
		} else {
			f.Binary, f.Lines, f.Blob, f.NoNL = true, nil, h.lines, false
		}
		return WithFile(fs, f)
	case 10: // mode of a text file
		f := text()
		if f.Mode == "100755" {
			f.Mode = "100644"
		} else {
			f.Mode = "100755"
		}
		return WithFile(fs, f)
	case 11: // final newline
		f := text()
		if len(f.Lines) == 0 {
			Assume(false)
		}
		f.NoNL = !f.NoNL
		return WithFile(fs, f)
	case 12: // renamed, and another file created in its place
		f := Pick("file", fs)
		if !f.Binary && len(f.Lines) == 0 {
			Assume(false)
		}
		p, old := needFree(), f.Path
		fs = WithoutFile(fs, f.Path)
		f.Path = p
		fs = WithFile(fs, f)
		return WithFile(fs, h.Text(old, 1))
	}
	return fs
}

// union merges the lines of two versions.
func union(a, b []GLine) []GLine {
	ka, kb := lcs(a, b)
	var r []GLine
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case i < len(a) && !ka[i]:
			r = append(r, a[i])
			i++
		case j < len(b) && !kb[j]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

// MergeTree is an arbitrary outcome of a merge: of every file one side's
// version, or both together, possibly with a line of its own, or nothing.
func (h *Hist) MergeTree(evil bool, parents ...int) []GFile {
	var res []GFile
	var ids []int
	for _, p := range parents {
		for _, f := range h.R.Commits[p].Files {
			seen := false
			for _, id := range ids {
				seen = seen || id == f.ID
			}
			if !seen {
				ids = append(ids, f.ID)
			}
		}
	}
	for _, id := range ids {
		var vers []GFile
		all := true
		for _, p := range parents {
			found := false
			for _, f := range h.R.Commits[p].Files {
				if f.ID != id {
					continue
				}
				found = true
				dup := false
				for k := range vers {
					dup = dup || vers[k].Path == f.Path && SameContent(&vers[k], &f) && vers[k].mode() == f.mode()
				}
				if !dup {
					vers = append(vers, f)
				}
			}
			all = all && found
		}
		n := len(vers)
		k := n
		both := n == 2 && !vers[0].Binary && !vers[1].Binary
		if both {
			k++
		}
		own := evil && !vers[0].Binary
		if own {
			k++
		}
		none := !all
		if none {
			k++
		}
		c := Choose("merge", k)
		var f GFile
		switch {
		case c < n:
			f = vers[c]
		case both && c == n:
			f = vers[0]
			if vers[0].Path != vers[1].Path {
				f.Path = vers[Choose("name", 2)].Path
			}
			f.Lines = union(vers[0].Lines, vers[1].Lines)
			f.NoNL = false
		case own && (c == n || both && c == n+1):
			f = vers[0]
			if both {
				f.Lines = union(vers[0].Lines, vers[1].Lines)
			}
			h.Insert(&f, Choose("at", 2)*len(f.Lines))
			f.NoNL = false
		default:
			continue
		}
		for i := range res {
			if res[i].Path == f.Path {
				Assume(false)
			}
		}
		res = append(res, f)
	}
	return res
}

// Kept gives for every line of the new version the line of the old one it is,
// or -1.
func Kept(old, new *GFile) []int {
	if old.Binary || new.Binary {
		r := make([]int, len(new.Lines))
		for i := range r {
			r[i] = -1
		}
		return r
	}
	ka, kb := lcs(old.keyed(), new.keyed())
	r := make([]int, len(new.Lines))
	j := 0
	for i := range r {
		r[i] = -1
		if kb[i] {
			for !ka[j] {
				j++
			}
			r[i] = j
			j++
		}
	}
	return r
}

// Graph makes n commits, each with up to max of the commits before it as
// parents, in any order.
func (h *Hist) Graph(n, max int) {
	for i := 0; i < n; i++ {
		var ps []int
		for k := 0; k < max; k++ {
			p := Choose("parent", i+1-len(ps))
			if p == 0 {
				break
			}
			// the p-th of those not taken
			c := 0
			for ; ; c++ {
				taken := false
				for _, q := range ps {
					taken = taken || q == c
				}
				if taken {
					continue
				}
				p--
				if p == 0 {
					break
				}
			}
			ps = append(ps, c)
		}
		h.Commit(nil, ps...)
	}
}

// Map is the graph as the code holds it.
func (h *Hist) Map() map[string][]string {
	res := map[string][]string{}
	for _, c := range h.R.Commits {
		var ps []string
		for _, p := range c.Parents {
			ps = append(ps, h.R.Commits[p].Hash)
		}
		res[c.Hash] = ps
	}
	return res
}

// AnyRef makes any commit the head, on a branch or detached, and lets a ref of
// any kind lead to any commit, which it returns.
func AnyRef(h *Hist) int {
	n := len(h.R.Commits)
	h.R.Head = Choose("head", n)
	side := Choose("side", n)
	name := []string{"refs/heads/side", "refs/remotes/origin/side", "refs/tags/side", "refs/pull/1/head", "refs/stash"}[Choose("kind of ref", 5)]
	h.R.Refs = []GRef{{Name: name, Commit: side}}
	h.R.HeadRef = ""
	if Choose("detached", 2) == 0 {
		h.R.HeadRef = "refs/heads/master"
		h.R.Refs = append(h.R.Refs, GRef{Name: "refs/heads/master", Commit: h.R.Head})
	}
	return side
}
