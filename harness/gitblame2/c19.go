//sym:into ripsrc/gitblame2

package gitblame2

import (
	"strconv"

	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

type symEntry struct {
	by   int
	from int // line in the file of the commit
	text string
}

// symText is arbitrary text without line ends.
func symText(name string, max int) string {
	n := vs.Choose(name+" length", max+1)
	s := vs.String(name, n)
	for i := 0; i < n; i++ {
		vs.Assume(s[i] != '\n')
	}
	return s
}

// symPorcelain prints entries the way git blame --porcelain does: lines of one
// commit that follow each other there and here are a group, metadata comes
// with the first group of a commit, file names again where a commit has several.
func symPorcelain(hashes []string, meta []string, again []string, es []symEntry) string {
	out := ""
	seen := make([]bool, len(hashes))
	for i := 0; i < len(es); {
		n := 1
		for i+n < len(es) && es[i+n].by == es[i].by && es[i+n].from == es[i].from+n {
			n++
		}
		e := es[i]
		out += hashes[e.by] + " " + strconv.Itoa(e.from) + " " + strconv.Itoa(i+1) + " " + strconv.Itoa(n) + "\n"
		if !seen[e.by] {
			seen[e.by] = true
			out += meta[e.by]
		} else {
			out += again[e.by]
		}
		for k := 0; k < n; k++ {
			if k > 0 {
				out += hashes[e.by] + " " + strconv.Itoa(e.from+k) + " " + strconv.Itoa(i+k+1) + "\n"
			}
			out += "\t" + es[i+k].text + "\n"
		}
		i += n
	}
	return out
}

func symMeta(author, summary, previous, file string, boundary bool) string {
	s := "author " + author + "\nauthor-mail <" + author + ">\nauthor-time 1600000000\nauthor-tz +0000\ncommitter c\ncommitter-mail <c@x>\ncommitter-time 1600000000\ncommitter-tz +0000\nsummary " + summary + "\n"
	if boundary {
		s += "boundary\n"
	}
	if previous != "" {
		s += "previous " + previous + "\n"
	}
	return s + "filename " + file + "\n"
}

func symRunBlame(hashes []string, out string, es []symEntry) {
	file := "d e/f"
	vs.SetExec(func(dir string, args []string) vs.ExecResult {
		seen := 0
		for _, a := range args {
			if a == "blame" || a == "--porcelain" || a == "-p" || a == hashes[0] || a == file {
				seen++
			}
		}
		if seen != 4 || args[len(args)-1] != file {
			return vs.ExecResult{Code: 129, Err: "fatal: not what was asked for\n"}
		}
		return vs.ExecResult{Out: out}
	})
	res, err := Run(".", hashes[0], file)
	vs.Assert(err == nil, "the blame is read")
	vs.Assert(len(res.Lines) == len(es), "every line is there once")
	for i, e := range es {
		vs.Assert(res.Lines[i].CommitHash == hashes[e.by], "a line has its commit")
		vs.Assert(res.Lines[i].Content == e.text, "a line has its content")
	}
	vs.Reach("checked")
}

// SymC19Entries: any grouping of lines, lines of any text.
func SymC19Entries() {
	hashes := []string{vs.Hash40("c0"), vs.Hash40("c1"), vs.Hash40("c2")}
	n := vs.Choose("lines", vs.Param("lines", 3)+1)
	var es []symEntry
	for i := 0; i < n; i++ {
		e := symEntry{by: vs.Choose("by", 3), from: 1}
		if i > 0 && es[i-1].by == e.by {
			e.from = es[i-1].from + 1
			if vs.Choose("apart", 2) == 1 {
				e.from += 10
			}
		}
		e.text = symText("text", vs.Param("len", 2))
		es = append(es, e)
	}
	var meta, again []string
	for i := range hashes {
		prev := ""
		if i > 0 {
			prev = hashes[i-1] + " g"
		}
		meta = append(meta, symMeta("A B", "s", prev, "d e/f", i == 0))
		a := ""
		if i == 2 {
			a = "previous " + prev + "\nfilename g\n"
		}
		again = append(again, a)
	}
	symRunBlame(hashes, symPorcelain(hashes, meta, again, es), es)
}

// SymC19Meta: metadata of any text.
func SymC19Meta() {
	hashes := []string{vs.Hash40("c0"), vs.Hash40("c1")}
	pool := []string{"", "\t", "x\ty", hashes[0] + " 1 1 1", " ", "filename x"}
	text := func(name string) string {
		k := vs.Choose(name+" kind", len(pool)+1)
		if k < len(pool) {
			return pool[k]
		}
		return symText(name, vs.Param("len", 3))
	}
	var meta []string
	again := []string{"", ""}
	m0 := symMeta(text("author"), text("summary"), "", "\"d\\te\"", true)
	meta = append(meta, m0, symMeta("B", "t", hashes[0]+" \"d\\te\"", "f", false))
	es := []symEntry{{by: 0, from: 1, text: text("line")}, {by: 1, from: 1, text: "author x"}, {by: 0, from: 7, text: "\t"}}
	symRunBlame(hashes, symPorcelain(hashes, meta, again, es), es)
}
