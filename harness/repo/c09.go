//sym:into ripsrc/history3/process/repo

package repo

import (
	"bytes"
	"math/bits"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process/repo/disk"
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
	"github.com/tinylib/msgp/msgp"
)

// symSame compares what was read with what was written.
func symSame(want, got Repo) {
	vs.Assert(len(want) == len(got), "as many commits are read as were written")
	for c, wf := range want {
		gf, ok := got[c]
		vs.Assert(ok, "every commit is read")
		vs.Assert(len(wf) == len(gf), "a commit has as many files as before")
		for p, w := range wf {
			g := gf[p]
			vs.Assert(g != nil, "every file of a commit is read")
			vs.Assert(g.Commit == w.Commit, "a file keeps its commit")
			vs.Assert(g.IsBinary == w.IsBinary, "a file keeps its binary flag")
			vs.Assert(len(g.Lines) == len(w.Lines), "a file keeps its number of lines")
			for i, l := range w.Lines {
				vs.Assert(g.Lines[i].Commit == l.Commit, "a line keeps its commit")
				vs.Assert(bytes.Equal(g.Lines[i].Line, l.Line), "a line keeps its content")
			}
		}
	}
}

func symRoundTrip(r Repo) {
	d := vs.TempDir()
	err := NewCheckpointWriter(vs.Log{}).Write(r, d, "last")
	vs.Assert(err == nil, "writing succeeds")
	got, err := NewCheckpointReader(vs.Log{}).Read(d, "last")
	vs.Assert(err == nil, "reading succeeds")
	symSame(r, got)
	_, err = NewCheckpointReader(vs.Log{}).Read(d, "other")
	vs.Assert(err != nil, "a checkpoint saved at another commit is refused")
	got, err = NewCheckpointReader(vs.Log{}).Read(d, "")
	vs.Assert(err == nil, "reading succeeds without an expected commit")
	symSame(r, got)
	vs.Reach("read")
}

// symLines is some lines of arbitrary short content and commit.
func symLines(n, max int) []*incblame.Line {
	var ls []*incblame.Line
	for i := 0; i < n; i++ {
		ls = append(ls, &incblame.Line{
			Line:   vs.Bytes("line", vs.Choose("len", max+1)),
			Commit: vs.String("by", 1),
		})
	}
	return ls
}

// SymC09State: any small state, with lines and files shared in any way.
func SymC09State() {
	vs.MapOrder(vs.Param("order", 0))
	lines := symLines(vs.Param("lines", 2), vs.Param("len", 1))
	var blames []*incblame.Blame
	for i := 0; i < vs.Param("blames", 2); i++ {
		b := &incblame.Blame{Commit: vs.String("commit", 1)}
		n := vs.Choose("n", 4)
		if n == 3 {
			b.IsBinary = true
		} else {
			for j := 0; j < n; j++ {
				b.Lines = append(b.Lines, lines[vs.Choose("which", len(lines))])
			}
		}
		blames = append(blames, b)
	}
	r := New()
	paths := []string{"a", "dir/b c"}
	for i := 0; i < vs.Param("commits", 2); i++ {
		c := string(rune('c'+i)) + "0123"
		r.AddCommit(c)
		for _, p := range paths {
			if k := vs.Choose("file", len(blames)+1); k > 0 {
				r[c][p] = blames[k-1]
			}
		}
	}
	symRoundTrip(r)
}

// SymC09Empty: commits without files among others.
func SymC09Empty() {
	vs.MapOrder(2)
	r := New()
	b := &incblame.Blame{Commit: "x", Lines: symLines(1, 1)}
	for i := 0; i < 3; i++ {
		c := "c" + string(rune('0'+i))
		r.AddCommit(c)
		if vs.Choose("empty", 2) == 1 {
			r[c]["f"] = b
		}
	}
	symRoundTrip(r)
}

// xxPreimage is eight bytes whose xxhash64 is h.
func xxPreimage(h uint64) []byte {
	const p1, p2, p3, p4, p5 uint64 = 11400714785074694791, 14029467366897019727, 1609587929392839161, 9650029242287828579, 2870177450012600261
	inv := func(p uint64) uint64 {
		x := p
		for i := 0; i < 6; i++ {
			x *= 2 - p*x
		}
		return x
	}
	h ^= h >> 32
	h *= inv(p3)
	h ^= h>>29 ^ h>>58
	h *= inv(p2)
	h ^= h >> 33
	h = (h - p4) * inv(p1)
	h = bits.RotateLeft64(h, -27)
	h ^= p5 + 8
	// h is the round of the input
	h *= inv(p1)
	h = bits.RotateLeft64(h, -31)
	h *= inv(p2)
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(h >> (8 * uint(i)))
	}
	return b
}

// SymC09Collide: different lines that the storage takes for the same, and
// such that look like the neighbour of one of these.
func SymC09Collide() {
	h := vs.XXHash([]byte("x"))
	pool := [][]byte{[]byte("x"), xxPreimage(h), xxPreimage(h + 1), xxPreimage(h + 2), xxPreimage(h - 1), []byte("y")}
	vs.Assume(vs.XXHash(pool[1]) == h)
	r := New()
	r.AddCommit("c")
	b := &incblame.Blame{Commit: "x"}
	for i := 0; i < vs.Param("lines", 3); i++ {
		b.Lines = append(b.Lines, &incblame.Line{Commit: "x", Line: pool[vs.Choose("line", len(pool))]})
	}
	r["c"]["f"] = b
	symRoundTrip(r)
}

// SymC09Hash: any two inputs may have the same hash.
func SymC09Hash() {
	vs.WeakHash = 2
	n := vs.Param("lines", 3)
	r := New()
	r.AddCommit("c")
	b := &incblame.Blame{Commit: "x"}
	for i := 0; i < n; i++ {
		l := &incblame.Line{Commit: vs.String("by", 1+vs.Choose("bylen", 2)), Line: vs.Bytes("line", vs.Choose("len", 3))}
		b.Lines = append(b.Lines, l)
	}
	r["c"]["f"] = b
	symRoundTrip(r)
}

// SymC09Sizes: lengths and counts on both sides of every step of the encoding.
func SymC09Sizes() {
	sizes := []int{0, 1, 15, 16, 17, 31, 32, 33, 127, 128, 255, 256, 257, 4095, 4097, 65535, 65536, 65537}
	n := sizes[vs.Choose("size", len(sizes))]
	r := New()
	r.AddCommit("c")
	long := bytes.Repeat([]byte("ab\x00\xff"), n/4+1)[:n]
	b := &incblame.Blame{Commit: "x"}
	what := vs.Choose("what", 5)
	if what >= 3 && n > 300 {
		vs.Assume(false)
	}
	switch what {
	case 0:
		b.Lines = []*incblame.Line{{Line: long, Commit: "x"}}
		r["c"]["f"] = b
	case 1:
		b.Commit = string(long)
		r["c"]["f"] = b
	case 2:
		r["c"]["p"+string(long)] = b
	case 3:
		l := &incblame.Line{Line: []byte("a"), Commit: "x"}
		for i := 0; i < n; i++ {
			b.Lines = append(b.Lines, l)
		}
		r["c"]["f"] = b
	case 4:
		for i := 0; i < n; i++ {
			b.Lines = append(b.Lines, &incblame.Line{Line: []byte{byte(i), byte(i >> 8)}, Commit: "x"})
		}
		r["c"]["f"] = b
	}
	symRoundTrip(r)
}

// SymC09Record: every number in a stored record.
func SymC09Record() {
	var buf bytes.Buffer
	wr := msgp.NewWriter(&buf)
	row := disk.DataRow{Commit: vs.String("c", 2), Path: vs.String("p", 2), BlamePointer: vs.Uint64("bp")}
	bl := disk.Blame{Pointer: vs.Uint64("ptr"), Commit: vs.String("bc", 2), IsBinary: vs.Bool("bin")}
	for i := vs.Choose("n", 3); i > 0; i-- {
		bl.LinePointers = append(bl.LinePointers, vs.Uint64("lp"))
	}
	ln := disk.Line{Pointer: vs.Uint64("lptr"), Commit: vs.String("lc", 1), LineDataPointer: vs.Uint64("ldp")}
	ld := disk.LineData{Pointer: vs.Uint64("dptr"), Data: vs.Bytes("data", vs.Choose("len", 3))}
	kind := vs.Choose("kind", 4)
	objs := []interface {
		msgp.Encodable
		msgp.Decodable
	}{&row, &bl, &ln, &ld}
	vs.Assert(objs[kind].EncodeMsg(wr) == nil, "a record is written")
	vs.Assert(wr.Flush() == nil, "a record is written")
	rd := msgp.NewReader(&buf)
	switch kind {
	case 0:
		var g disk.DataRow
		vs.Assert(g.DecodeMsg(rd) == nil, "a record is read")
		vs.Assert(g == row, "a record is read as written")
	case 1:
		var g disk.Blame
		vs.Assert(g.DecodeMsg(rd) == nil, "a record is read")
		vs.Assert(g.Pointer == bl.Pointer && g.Commit == bl.Commit && g.IsBinary == bl.IsBinary && len(g.LinePointers) == len(bl.LinePointers), "a record is read as written")
		for i := range bl.LinePointers {
			vs.Assert(g.LinePointers[i] == bl.LinePointers[i], "a record is read as written")
		}
	case 2:
		var g disk.Line
		vs.Assert(g.DecodeMsg(rd) == nil, "a record is read")
		vs.Assert(g == ln, "a record is read as written")
	case 3:
		var g disk.LineData
		vs.Assert(g.DecodeMsg(rd) == nil, "a record is read")
		vs.Assert(g.Pointer == ld.Pointer && bytes.Equal(g.Data, ld.Data), "a record is read as written")
	}
	vs.Reach("read")
}
