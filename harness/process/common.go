//sym:into ripsrc/history3/process

package process

import (
	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

func symHash(h *vs.Hist, i int) string { return h.R.Commits[i].Hash }

// symCheckBlame compares one delivered file with the model.
func symCheckBlame(h *vs.Hist, c int, f *vs.GFile, att []int, got *incblame.Blame) {
	if got == nil {
		vs.Fail("a file without blame is delivered")
	}
	vs.Assert(!got.IsBinary, "a text file is delivered as text")
	vs.Assert(len(got.Lines) == len(f.Lines), "a file has as many lines as at that commit")
	for i, l := range f.Lines {
		vs.Observe("line", got.Lines[i].Line)
		vs.Assert(string(got.Lines[i].Line) == l.Text, "a line has its content at that commit")
		vs.Assert(got.Lines[i].Commit == symHash(h, att[i]), "a line is attributed to the commit that introduced it")
	}
}

// symCheckRegular compares the result of a commit without several parents.
func symCheckRegular(h *vs.Hist, c int, r Result) {
	vs.Assert(r.Commit == symHash(h, c), "commits come in history order")
	cm := &h.R.Commits[c]
	var old []vs.GFile
	if len(cm.Parents) > 0 {
		old = h.R.Commits[cm.Parents[0]].Files
	}
	chs := vs.TreeDiff(old, cm.Files, true)
	n := 0
	for i, ch := range chs {
		if ch.New == nil {
			if i+1 < len(chs) && chs[i+1].New != nil && chs[i+1].New.Path == ch.Old.Path {
				continue // replaced by a file of another type
			}
			n++
			b, ok := r.Files[ch.Old.Path]
			vs.Assert(ok && b != nil, "a deleted file is named")
			vs.Assert(len(b.Lines) == 0, "a deleted file has no lines")
			vs.Assert(b.Commit == r.Commit, "a deleted file is stamped with the commit")
			continue
		}
		n++
		b, ok := r.Files[ch.New.Path]
		vs.Assert(ok && b != nil, "a changed file is named")
		if symFlagged(h, c, ch.New.Path) {
			vs.Assert(b.IsBinary, "a file git treats as binary is flagged")
			vs.Assert(len(b.Lines) == 0, "a binary file has no lines")
			continue
		}
		vs.Assert(b.Commit == r.Commit, "a changed file is stamped with the commit")
		symCheckBlame(h, c, ch.New, h.R.Attribution(c, ch.New.Path), b)
	}
	vs.Assert(len(r.Files) == n, "no other file is named")
}

// symFlagged tells whether a file is binary as far as git's patches tell: its
// last change of content was reported as one of binary files, and no other
// change of the file has been reported since.
func symFlagged(h *vs.Hist, c int, path string) bool {
	cm := &h.R.Commits[c]
	f := cm.File(path)
	if len(cm.Parents) == 0 {
		return f.Binary
	}
	p := cm.Parents[0]
	old := h.R.Source(p, c, path)
	switch {
	case old == nil:
		return f.Binary
	case !vs.SameContent(old, f):
		return f.Binary || old.Binary
	case old.Path == f.Path && old.Mode != f.Mode:
		return f.Binary
	}
	return symFlagged(h, p, old.Path)
}

func symOpts() Opts {
	d := vs.TempDir()
	vs.FreshHash()
	return Opts{Logger: vs.Log{}, RepoDir: d, CheckpointsDir: d}
}
