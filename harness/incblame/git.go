//sym:into ripsrc/history3/incblame

package incblame

import (
	"bytes"
	"strconv"

	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// The part of git the patch harnesses need: rendering an edit script as a
// unified diff (see git's xdiff/xemit.c).

type symEdit struct {
	op   byte // ' ' kept, '-' removed, '+' added
	text []byte
	old  int // index in the old file
}

func symRange(off, cnt int) string {
	// git prints the line before an empty range and omits a count of one
	if cnt == 0 {
		return strconv.Itoa(off) + ",0"
	}
	if cnt == 1 {
		return strconv.Itoa(off + 1)
	}
	return strconv.Itoa(off+1) + "," + strconv.Itoa(cnt)
}

// symHunks renders the hunks of a script with ctx context lines.
func symHunks(script []symEdit, ctx int, oldNoNL, newNoNL bool, heading []byte) []byte {
	var out bytes.Buffer
	n := len(script)
	lastOld, lastNew := -1, -1
	for i, e := range script {
		if e.op != '+' {
			lastOld = i
		}
		if e.op != '-' {
			lastNew = i
		}
	}
	i := 0
	for i < n {
		// next change
		for i < n && script[i].op == ' ' {
			i++
		}
		if i == n {
			break
		}
		start := i - ctx
		if start < 0 {
			start = 0
		}
		// extend over changes that are close enough
		end := i
		for {
			for end < n && script[end].op != ' ' {
				end++
			}
			k := end
			for k < n && script[k].op == ' ' {
				k++
			}
			if k < n && k-end <= 2*ctx {
				end = k
				continue
			}
			break
		}
		stop := end + ctx
		if stop > n {
			stop = n
		}
		oldOff, newOff := 0, 0
		for _, e := range script[:start] {
			if e.op != '+' {
				oldOff++
			}
			if e.op != '-' {
				newOff++
			}
		}
		oldCnt, newCnt := 0, 0
		for _, e := range script[start:stop] {
			if e.op != '+' {
				oldCnt++
			}
			if e.op != '-' {
				newCnt++
			}
		}
		out.WriteString("@@ -" + symRange(oldOff, oldCnt) + " +" + symRange(newOff, newCnt) + " @@")
		if len(heading) > 0 {
			out.WriteByte(' ')
			out.Write(heading)
		}
		out.WriteByte('\n')
		for k := start; k < stop; k++ {
			e := script[k]
			out.WriteByte(e.op)
			out.Write(e.text)
			out.WriteByte('\n')
			if oldNoNL && k == lastOld || newNoNL && k == lastNew {
				out.WriteString("\\ No newline at end of file\n")
			}
		}
		i = stop
		if end > i {
			i = end
		}
	}
	return out.Bytes()
}

// symNL picks whether the old and the new file lack a final newline, in every
// way the script allows: a kept line has the same terminator in both.
func symNL(script []symEdit) (oldNoNL, newNoNL bool) {
	lastOld, lastNew := -1, -1
	for i, e := range script {
		if e.op != '+' {
			lastOld = i
		}
		if e.op != '-' {
			lastNew = i
		}
	}
	if lastOld >= 0 && lastOld == lastNew {
		x := vs.Choose("noNL", 2) == 1
		return x, x
	}
	if lastOld >= 0 && script[lastOld].op == '-' {
		oldNoNL = vs.Choose("oldNoNL", 2) == 1
	}
	if lastNew >= 0 && script[lastNew].op == '+' {
		newNoNL = vs.Choose("newNoNL", 2) == 1
	}
	return
}

// symLine is an arbitrary line without terminator bytes.
func symLine(name string, maxLen int) []byte {
	n := vs.Choose(name+".len", maxLen+1)
	return symLineN(name, n)
}

func symLineN(name string, n int) []byte {
	b := vs.Bytes(name, n)
	for _, c := range b {
		vs.Assume(c != '\n')
		vs.Assume(c != '\r')
	}
	return b
}

func symPatch(script []symEdit, ctx int, oldNoNL, newNoNL bool, heading []byte, oldEmpty, created bool) []byte {
	var p bytes.Buffer
	p.WriteString("diff --git a/f b/f\n")
	if created {
		p.WriteString("new file mode 100644\nindex 0000000..1111111\n")
	} else {
		p.WriteString("index 2222222..1111111 100644\n")
	}
	h := symHunks(script, ctx, oldNoNL, newNoNL, heading)
	if len(h) > 0 {
		if created {
			p.WriteString("--- /dev/null\n")
		} else {
			p.WriteString("--- a/f\n")
		}
		p.WriteString("+++ b/f\n")
		p.Write(h)
	}
	return p.Bytes()
}

// symScript makes an edit script of up to groups changes.
func symScript(groups, maxKeep, maxDel, maxAdd, maxLen int, tag string) []symEdit {
	var s []symEdit
	old := 0
	keep := func(n int) {
		for i := 0; i < n; i++ {
			s = append(s, symEdit{' ', symLineN(tag+"keep", old%(maxLen+1)), old})
			old++
		}
	}
	g := vs.Choose(tag+"groups", groups) + 1
	for k := 0; k < g; k++ {
		lo := 0
		if k > 0 {
			lo = 1
		}
		keep(lo + vs.Choose(tag+"nkeep", maxKeep+1-lo))
		d := vs.Choose(tag+"ndel", maxDel+1)
		a := vs.Choose(tag+"nadd", maxAdd+1)
		if d+a == 0 {
			vs.Assume(false)
		}
		for i := 0; i < d; i++ {
			s = append(s, symEdit{'-', symLineN(tag+"del", (old+1)%(maxLen+1)), old})
			old++
		}
		for i := 0; i < a; i++ {
			s = append(s, symEdit{'+', symLine(tag+"add", maxLen), -1})
		}
	}
	keep(vs.Choose(tag+"nkeep", maxKeep+1))
	return s
}

func symOldBlame(script []symEdit, tag string) Blame {
	b := Blame{Commit: "parent"}
	for _, e := range script {
		if e.op != '+' {
			b.Lines = append(b.Lines, &Line{Line: append([]byte{}, e.text...), Commit: "p" + vs.String(tag+"by", 1)})
		}
	}
	return b
}

func symCopyBlame(b Blame) Blame {
	r := Blame{Commit: b.Commit, IsBinary: b.IsBinary}
	for _, l := range b.Lines {
		r.Lines = append(r.Lines, &Line{Line: append([]byte{}, l.Line...), Commit: l.Commit})
	}
	return r
}

// symSameBlame is a condition, without branching on content.
func symSameBlame(a, b Blame) bool {
	if len(a.Lines) != len(b.Lines) || a.IsBinary != b.IsBinary {
		return false
	}
	r := a.Commit == b.Commit
	for i := range a.Lines {
		r = vs.And(r, vs.And(vs.EqBytes(a.Lines[i].Line, b.Lines[i].Line), a.Lines[i].Commit == b.Lines[i].Commit))
	}
	return r
}

// symScriptOver is an arbitrary script over existing lines: any of them may be
// deleted, and up to adds lines are put in at arbitrary places.
func symScriptOver(lines [][]byte, adds int, tag string) []symEdit {
	var s []symEdit
	changed := false
	for i := 0; i <= len(lines); i++ {
		for adds > 0 && vs.Choose(tag+"add", 2) == 1 {
			adds--
			s = append(s, symEdit{'+', symLineN(tag+"new", 1), -1})
			changed = true
		}
		if i < len(lines) {
			op := byte(' ')
			if vs.Choose(tag+"del", 2) == 1 {
				op = '-'
				changed = true
			}
			s = append(s, symEdit{op, lines[i], i})
		}
	}
	if !changed {
		vs.Assume(false)
	}
	return s
}

func symText(b Blame) [][]byte {
	var r [][]byte
	for _, l := range b.Lines {
		r = append(r, append([]byte{}, l.Line...))
	}
	return r
}

// symExpect is the blame after a script, from the definition.
func symExpect(old Blame, script []symEdit, commit string) Blame {
	r := Blame{Commit: commit}
	for _, e := range script {
		switch e.op {
		case ' ':
			r.Lines = append(r.Lines, &Line{Line: append([]byte{}, old.Lines[e.old].Line...), Commit: old.Lines[e.old].Commit})
		case '+':
			r.Lines = append(r.Lines, &Line{Line: append([]byte{}, e.text...), Commit: commit})
		}
	}
	return r
}

func symAssertBlame(got, want Blame, what string) {
	vs.Assert(got.Commit == want.Commit, what+": commit of the file")
	vs.Assert(got.IsBinary == want.IsBinary, what+": binary flag")
	vs.Assert(len(got.Lines) == len(want.Lines), what+": number of lines")
	for i := range want.Lines {
		vs.Assert(vs.EqBytes(got.Lines[i].Line, want.Lines[i].Line), what+": content of a line")
		vs.Assert(got.Lines[i].Commit == want.Lines[i].Commit, what+": commit of a line")
	}
}
