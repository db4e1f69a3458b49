//sym:into ripsrc/history3/process

package process

import (
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// SymC06Linear: an arbitrary history without merges.
func SymC06Linear() {
	h := vs.NewHist("a", "b c")
	n := vs.Param("commits", 3)
	var fs []vs.GFile
	ops := vs.Param("ops", 1)
	for i := 0; i < n; i++ {
		k := ops
		if i == 0 {
			// a first commit with some files
			k = vs.Choose("first", 3)
		}
		for ; k > 0; k-- {
			op := 1 + vs.Choose("op", vs.Ops-1)
			if i == 0 && op != 1 && op != 7 {
				vs.Assume(false)
			}
			fs = h.Mutate(fs, op)
		}
		if i == 0 {
			h.Commit(fs)
		} else {
			h.Commit(fs, i-1)
		}
	}
	symRunLinear(h)
}

func symRunLinear(h *vs.Hist) {
	vs.SetExec(h.R.Exec)
	res, err := New(symOpts()).RunGetAll()
	vs.Assert(err == nil, "processing succeeds")
	vs.Assert(len(res) == len(h.R.Commits), "one result per commit")
	for i := range res {
		symCheckRegular(h, i, res[i])
	}
	vs.Reach("linear")
}

// SymC06Empty: commits that change nothing, between commits that do.
func SymC06Empty() {
	h := vs.NewHist("a")
	n := vs.Param("commits", 4)
	var fs []vs.GFile
	for i := 0; i < n; i++ {
		fs = h.Mutate(fs, []int{0, 1, 2, 4}[vs.Choose("op", 4)])
		if i == 0 {
			h.Commit(fs)
		} else {
			h.Commit(fs, i-1)
		}
	}
	symRunLinear(h)
}

// SymC06Long: a longer life of one file.
func SymC06Long() {
	h := vs.NewHist("a")
	n := vs.Param("commits", 6)
	fs := []vs.GFile{h.Text("a", 1)}
	h.Commit(fs)
	for i := 1; i < n; i++ {
		if len(fs) == 0 {
			fs = []vs.GFile{h.Text("a", 2)}
			h.Commit(fs, i-1)
			continue
		}
		f := fs[0]
		op := vs.Choose("op", 4)
		switch {
		case op == 0:
			fs = h.Mutate(fs, 9)
		case op == 1:
			fs = h.Mutate(fs, 4)
		case f.Binary && op == 2:
			fs = h.Mutate(fs, 8)
		case f.Binary:
			vs.Assume(false)
		case op == 2:
			h.Insert(&f, len(f.Lines))
			fs = vs.WithFile(fs, f)
		default:
			vs.Assume(len(f.Lines) > 1)
			f.Lines = append([]vs.GLine{}, f.Lines[1:]...)
			fs = vs.WithFile(fs, f)
		}
		h.Commit(fs, i-1)
	}
	symRunLinear(h)
}
