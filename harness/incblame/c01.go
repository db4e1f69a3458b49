//sym:into ripsrc/history3/incblame

package incblame

import (
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// SymC01Apply: an arbitrary change rendered as git renders it, parsed and applied.
func SymC01Apply() {
	script := symScript(vs.Param("groups", 2), vs.Param("keep", 3), vs.Param("del", 2), vs.Param("add", 2), vs.Param("len", 2), "")
	ctx := 2 + vs.Choose("ctx", 2)
	oldNoNL, newNoNL := symNL(script)
	var heading []byte
	if vs.Choose("heading", 2) == 1 {
		heading = symLineN("head", vs.Param("head", 2))
	}
	nOld := 0
	for _, e := range script {
		if e.op != '+' {
			nOld++
		}
	}
	created := nOld == 0 && vs.Choose("created", 2) == 1
	patch := symPatch(script, ctx, oldNoNL, newNoNL, heading, nOld == 0, created)
	old := symOldBlame(script, "")

	d := Parse(patch)
	res := Apply(old, d, "new", "f")

	var want [][]byte
	for _, e := range script {
		if e.op != '-' {
			want = append(want, e.text)
		}
	}
	vs.Reach("applied")
	if len(d.Hunks) > 1 {
		vs.Reach("two hunks")
	}
	if len(want) == 0 {
		vs.Reach("emptied")
	}
	if nOld == 0 {
		vs.Reach("from empty")
	}
	vs.Observe("res", res.Lines)
	vs.Assert(!res.IsBinary, "text stays text")
	vs.Assert(len(res.Lines) == len(want), "number of lines after the patch")
	for i := range want {
		vs.Assert(vs.EqBytes(res.Lines[i].Line, want[i]), "content of a line after the patch")
	}
}

// SymC01Long: lines longer than the scanners' buffers.
func SymC01Long() {
	sizes := []int{0, 1, 2047, 4090, 9000, 65536, 1000001}
	var script []symEdit
	old := 0
	n := 3
	for i := 0; i < n; i++ {
		op := " -+"[vs.Choose("op", 3)]
		k := len(sizes) // one line of every size among shorter ones
		if i != 1 {
			k = vs.Param("others", len(sizes)-2)
		}
		sz := sizes[vs.Choose("size", k)]
		text := make([]byte, sz)
		for j := range text {
			text[j] = byte('a' + i)
		}
		if sz > 0 {
			text[0] = symLineN("first", 1)[0]
			text[sz-1] = symLineN("last", 1)[0]
		}
		e := symEdit{op, text, -1}
		if op != '+' {
			e.old = old
			old++
		}
		script = append(script, e)
	}
	patch := symPatch(script, 3, false, false, nil, old == 0, false)
	blame := symOldBlame(script, "")
	before := symCopyBlame(blame)
	d := Parse(patch)
	res := Apply(blame, d, "new", "f")
	k := 0
	for _, e := range script {
		if e.op == '-' {
			continue
		}
		vs.Assert(k < len(res.Lines), "number of lines after the patch")
		vs.Assert(vs.EqBytes(res.Lines[k].Line, e.text), "content of a long line after the patch")
		k++
	}
	vs.Assert(k == len(res.Lines), "number of lines after the patch")
	vs.Assert(symSameBlame(blame, before), "blame before the patch is unchanged")
	vs.Reach("long")
}

// SymC01Far: changes far down a file, so that the numbers in hunk headers get
// long, and blocks of many lines.
func SymC01Far() {
	sizes := []int{0, 8, 9, 95, 98, 99, 100, 127, 255, 997, 1000, 9999, 32765, 32768, 65533, 65536, 100000}
	before := sizes[vs.Choose("before", vs.Param("far", len(sizes)))]
	block := []int{1, 2, 9, 10, 100, 256, 1025, 40000, 70000}[vs.Choose("block", vs.Param("blocks", 9))]
	op := "-+"[vs.Choose("op", 2)]
	between := 1 + vs.Choose("between", 2)*6
	var script []symEdit
	old := 0
	add := func(op byte, text []byte) {
		e := symEdit{op, text, -1}
		if op != '+' {
			e.old = old
			old++
		}
		script = append(script, e)
	}
	for i := 0; i < before; i++ {
		add(' ', []byte{byte(i), byte(i >> 8), 'k'})
		script[i].text[0] |= 32
		script[i].text[1] |= 32
	}
	for i := 0; i < block; i++ {
		add(op, []byte{'b'})
	}
	add("-+"[vs.Choose("op2", 2)], symLineN("text", 2))
	for i := 0; i < between; i++ {
		add(' ', []byte{'m'})
	}
	add("-+"[vs.Choose("op3", 2)], symLineN("text", 2))
	add(' ', []byte{'e'})
	blame := Blame{Commit: "parent"}
	for i, e := range script {
		if e.op != '+' {
			by := "p"
			if i >= before+block {
				by += vs.String("by", 1)
			}
			blame.Lines = append(blame.Lines, &Line{Line: e.text, Commit: by})
		}
	}
	res := Apply(blame, Parse(symPatch(script, 3, false, false, nil, false, false)), "new", "f")
	k, o := 0, 0
	same := true
	for _, e := range script {
		if e.op == '-' {
			o++
			continue
		}
		by := "new"
		if e.op == ' ' {
			by = blame.Lines[o].Commit
			o++
		}
		vs.Assert(k < len(res.Lines), "number of lines after the patch")
		same = vs.And(same, vs.And(vs.EqBytes(res.Lines[k].Line, e.text), res.Lines[k].Commit == by))
		k++
	}
	vs.Assert(k == len(res.Lines), "number of lines after the patch")
	vs.Assert(same, "content and attribution of the lines of a large file after the patch")
	vs.Reach("far")
}

// SymC01CRLF: carriage returns are part of the line terminator at most.
func SymC01CRLF() {
	mk := func(name string) []byte {
		b := vs.Bytes(name, vs.Choose(name+".len", 4))
		for _, c := range b {
			vs.Assume(c != '\n')
		}
		return b
	}
	script := []symEdit{{' ', mk("k"), 0}}
	switch vs.Choose("kind", 3) {
	case 0:
		script = append(script, symEdit{'+', mk("a"), -1}, symEdit{'+', mk("b"), -1})
	case 1:
		script = append(script, symEdit{'-', mk("d"), 1}, symEdit{'+', mk("a"), -1})
	case 2:
		script = append(script, symEdit{'+', mk("a"), -1}, symEdit{' ', mk("l"), 1})
	}
	trim := func(b []byte) []byte {
		for len(b) > 0 && b[len(b)-1] == '\r' {
			b = b[:len(b)-1]
		}
		return b
	}
	res := Apply(symOldBlame(script, ""), Parse(symPatch(script, 3, false, false, nil, false, false)), "new", "f")
	k := 0
	for _, e := range script {
		if e.op == '-' {
			continue
		}
		vs.Assert(k < len(res.Lines), "number of lines after the patch")
		vs.Assert(vs.EqBytes(trim(res.Lines[k].Line), trim(e.text)), "content of a line after the patch, line terminators aside")
		k++
	}
	vs.Assert(k == len(res.Lines), "number of lines after the patch")
	vs.Reach("crlf")
}
