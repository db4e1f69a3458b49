//sym:into ripsrc

package ripsrc

import (
	"bytes"
	"context"
	"sort"

	"github.com/pinpt/ripsrc/ripsrc/commitmeta"
	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process"
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
	"github.com/pinpt/ripsrc/ripsrc/verifsym/vscc"
)

func symCodeOpts() Opts {
	d := vs.TempDir()
	vs.FreshHash()
	return Opts{Logger: vs.Log{}, RepoDir: d, CheckpointsDir: d}
}

// symRecord checks the record of a file that has metadata.
func symRecord(meta map[string]commitmeta.Commit, m commitmeta.Commit, path string, b *incblame.Blame, r BlameResult) {
	f := m.Files[path]
	vs.Assert(r.Filename == path, "a record has the name of the file")
	vs.Assert(r.Commit.SHA == m.SHA && r.Commit.Ordinal == m.Ordinal && r.Commit.Message == m.Message && r.Commit.AuthorEmail == m.AuthorEmail && len(r.Commit.Files) == len(m.Files), "a record has the metadata of its commit")
	vs.Assert(r.Status == f.Status, "a record has the status of the file")
	if f.Status == GitFileCommitStatusRemoved {
		vs.Assert(len(r.Lines) == 0 && r.Skipped == "File was removed" && r.Language == "" && r.Loc == 0 && r.Size == 0, "a removed file has no lines")
		vs.Reach("removed")
		return
	}
	wide := false
	size := 0
	for _, l := range b.Lines {
		wide = wide || len(l.Line) > 1096
		size += len(l.Line) + 1
	}
	if wide || vs.LangOf(path) == "" {
		vs.Assert(r.Skipped != "" && len(r.Lines) == 0 && r.Language == "", "a skipped file has a reason and no lines")
		vs.Reach("skipped")
		return
	}
	vs.Assert(len(r.Lines) == len(b.Lines), "a file has one entry per line")
	vs.Assert(r.Size == int64(size), "a file has its size")
	var n [3]int64
	complexity := int64(0)
	generated, in := false, false
	for i, l := range b.Lines {
		k := vscc.Kind(l.Line, &in)
		n[k]++
		if k == 1 && l.Line[0] >= '0' && l.Line[0] <= '9' {
			complexity++
		}
		e := r.Lines[i]
		vs.Assert(e.SHA == l.Commit, "a line has the commit it is attributed to")
		if by, ok := meta[l.Commit]; ok {
			vs.Assert(e.Name == by.AuthorName && e.Email == by.AuthorEmail && e.Date.Equal(by.Date), "a line has the author and date of its commit")
		}
		if k == 2 && symMarked(l.Line) {
			generated = true
		}
		if !generated {
			vs.Assert(e.Blank == (k == 0) && e.Code == (k == 1) && e.Comment == (k == 2), "a line has its kind")
		}
	}
	if generated {
		vs.Assert(r.Skipped == "file was a generated file" && r.Language == "", "a generated file is skipped as such")
		vs.Reach("generated")
		return
	}
	vs.Assert(r.Skipped == "" && r.Language == vs.LangOf(path), "an analysed file has its language")
	vs.Assert(r.Loc == int64(len(b.Lines)) && r.Blanks == n[0] && r.Sloc == n[1] && r.Comments == n[2], "a file has its numbers of lines")
	vs.Assert(r.Complexity == complexity && r.WeightedComplexity == float64(2*complexity), "a file has its complexity")
	vs.Reach("analysed")
}

func symMarked(l []byte) bool {
	for _, m := range []string{"GENERATED", "DO NOT EDIT", "DO NOT MODIFY", "machine generated"} {
		if bytes.Contains(l, []byte(m)) {
			return true
		}
	}
	return false
}

// symExpect is what records are made of.
func symExpect(o Opts) ([]process.Result, map[string]commitmeta.Commit) {
	meta, err := commitmeta.New(o.RepoDir, commitmeta.Opts{}).RunMap()
	vs.Assert(err == nil, "reading metadata succeeds")
	po := process.Opts{Logger: vs.Log{}, RepoDir: o.RepoDir, CheckpointsDir: vs.TempDir()}
	res, err := process.New(po).RunGetAll()
	vs.Assert(err == nil, "processing succeeds")
	return res, meta
}

func symNames(p process.Result, m commitmeta.Commit) (res []string) {
	for f := range p.Files {
		if m.Files[f] != nil {
			res = append(res, f)
		}
	}
	sort.Strings(res)
	return
}

func symCode(h *vs.Hist) {
	vs.SetExec(h.R.Exec)
	o := symCodeOpts()
	exp, meta := symExpect(o)
	res := make(chan CommitCode)
	done := make(chan bool)
	var cs []Commit
	var bs [][]BlameResult
	go func() {
		for c := range res {
			cs = append(cs, c.Commit)
			var l []BlameResult
			for b := range c.Blames {
				l = append(l, b)
			}
			bs = append(bs, l)
		}
		done <- true
	}()
	err := New(o).CodeByCommit(context.Background(), res)
	<-done
	vs.Assert(err == nil, "processing succeeds")
	vs.Assert(len(cs) == len(exp), "every commit is delivered once")
	total := 0
	for i, e := range exp {
		m := meta[e.Commit]
		vs.Assert(cs[i].SHA == e.Commit && cs[i].Ordinal == m.Ordinal && cs[i].Message == m.Message, "commits come in order with their metadata")
		names := symNames(e, m)
		vs.Assert(len(bs[i]) == len(names), "every changed file has one record")
		total += len(names)
		for _, p := range names {
			n := 0
			for _, r := range bs[i] {
				if r.Filename == p {
					n++
					symRecord(meta, m, p, e.Files[p], r)
				}
			}
			vs.Assert(n == 1, "every changed file has one record")
		}
	}
	// the same as one list
	all, err := New(o).CodeSlice(context.Background())
	vs.Assert(err == nil && len(all) == total, "the list has every record")
	k := 0
	for _, e := range exp {
		m := meta[e.Commit]
		for range symNames(e, m) {
			r := all[k]
			k++
			vs.Assert(r.Commit.SHA == e.Commit && e.Files[r.Filename] != nil, "records are in order of commits")
			symRecord(meta, m, r.Filename, e.Files[r.Filename], r)
		}
	}
	vs.Reach("checked")
}

// SymC18Linear: any small history without merges.
func SymC18Linear() {
	h := vs.NewHist("a.d", "b.m", "c")
	h.Pool = []string{"x", "# c", "7", "", "y", "#"}
	n := vs.Param("commits", 3)
	var fs []vs.GFile
	for i := 0; i < n; i++ {
		k := 1
		if i == 0 {
			k = 1 + vs.Choose("first", 2)
		}
		for ; k > 0; k-- {
			op := vs.Choose("op", vs.Ops)
			if i == 0 && op != 1 && op != 7 {
				vs.Assume(false)
			}
			fs = h.Mutate(fs, op)
		}
		if i == 0 {
			h.Commit(fs)
		} else {
			h.Commit(fs, i-1)
		}
		c := &h.R.Commits[i]
		c.Author, c.AEmail, c.Subject = "n"+string(rune('0'+i)), "e"+string(rune('0'+i)), "s"+string(rune('0'+i))
		c.ADate = "2020-09-13T12:26:4" + string(rune('0'+i)) + "+00:00"
	}
	symCode(h)
}

// SymC18Merge: merges with and without changes of their own.
func SymC18Merge() {
	h := vs.NewHist("a.d", "b.d")
	h.Pool = []string{"x", "# c", "7", "", "y", "#"}
	h.Commit([]vs.GFile{h.Text("a.d", 2)})
	h.Commit(h.Mutate(h.Files(0), vs.Choose("left", 6)), 0)
	h.Commit(h.Mutate(h.Files(0), vs.Choose("right", 6)), 0)
	h.Commit(h.MergeTree(vs.Choose("evil", 2) == 1, 1, 2), 1, 2)
	h.Commit(h.Mutate(h.Files(3), 2), 3)
	for i := range h.R.Commits {
		c := &h.R.Commits[i]
		c.Author, c.AEmail = "n"+string(rune('0'+i)), "e"+string(rune('0'+i))
	}
	symCode(h)
}

// SymC18Lines: lines of arbitrary content, with markers of generated files
// and with widths at the limit.
func SymC18Lines() {
	h := vs.NewHist("a.d")
	f := h.Text("a.d", vs.Param("lines", 3))
	pool := []string{"", "# x", "7", "#GENERATED", "DO NOT EDIT", "# DO NOT MODIFY", "# machine  generated", "\r", " #", string(bytes.Repeat([]byte("x"), 1096)), string(bytes.Repeat([]byte("#"), 1097))}
	at := vs.Choose("at", len(f.Lines)+1)
	for i := range f.Lines {
		if i != at {
			f.Lines[i].Text = pool[vs.Choose("text", len(pool))]
			continue
		}
		t := vs.String("line", 2)
		vs.Assume(vs.And(vs.And(t[0] != '\n', t[1] != '\n'), vs.And(t[0] != 0, t[1] != 0)))
		f.Lines[i].Text = t
	}
	h.Commit([]vs.GFile{f})
	if at == len(f.Lines) {
		// with a name, an address, neither or both
		c := &h.R.Commits[0]
		c.Author = []string{"", "n"}[vs.Choose("author", 2)]
		c.AEmail = []string{"", "e"}[vs.Choose("address", 2)]
	}
	symCode(h)
}

// SymC18Block: lines with the same text inside and outside of comments that
// span lines, in two versions of a file.
func SymC18Block() {
	h := vs.NewHist("a.d", "b.d")
	pool := []string{"x", "{", "}", ""}
	f := h.Text("a.d", vs.Param("lines", 4))
	for i := range f.Lines {
		f.Lines[i].Text = pool[vs.Choose("text", len(pool))]
	}
	h.Commit([]vs.GFile{f})
	h.Pool = pool
	h.SymLen = 0
	h.Insert(&f, vs.Choose("at", len(f.Lines)+1))
	g := f
	g.Path = "b.d"
	h.Commit([]vs.GFile{f, g}, 0)
	symCode(h)
}
