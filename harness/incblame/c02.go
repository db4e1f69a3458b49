//sym:into ripsrc/history3/incblame

package incblame

import (
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

func symCommitted(n int, tag string) Blame {
	b := Blame{Commit: "base"}
	for i := 0; i < n; i++ {
		b.Lines = append(b.Lines, &Line{Line: symLineN(tag+"text", 1), Commit: "p" + vs.String(tag+"by", 1)})
	}
	return b
}

// SymC02Chain: two commits in a row and a sibling of the second; every result
// has the right attribution and no earlier result changes.
func SymC02Chain() {
	b0 := symCommitted(vs.Choose("lines", vs.Param("lines", 3)+1), "")
	k0 := symCopyBlame(b0)
	s1 := symScriptOver(symText(b0), vs.Param("adds1", 2), "1")
	w1 := symExpect(b0, s1, "c1")
	b1 := Apply(b0, Parse(symPatch(s1, 3, false, false, nil, len(b0.Lines) == 0, false)), "c1", "f")
	symAssertBlame(b1, w1, "first commit")
	s2 := symScriptOver(symText(w1), vs.Param("adds2", 1), "2")
	b2 := Apply(b1, Parse(symPatch(s2, 3, false, false, nil, len(w1.Lines) == 0, false)), "c2", "f")
	symAssertBlame(b2, symExpect(w1, s2, "c2"), "second commit")
	vs.Assert(symSameBlame(b1, w1), "first commit's blame is unchanged by the second")
	s3 := []symEdit{}
	for i, t := range symText(w1) {
		s3 = append(s3, symEdit{' ', t, i})
	}
	s3 = append(s3, symEdit{'+', symLineN("sib", 2), -1})
	b3 := Apply(b1, Parse(symPatch(s3, 3, false, false, nil, len(w1.Lines) == 0, false)), "c3", "f")
	symAssertBlame(b3, symExpect(w1, s3, "c3"), "sibling of the second commit")
	symAssertBlame(b2, symExpect(w1, s2, "c2"), "second commit after its sibling")
	symAssertBlame(b1, w1, "first commit after the others")
	vs.Assert(symSameBlame(b0, k0), "the original blame is unchanged")
	vs.Observe("b2", b2.Lines)
	vs.Reach("chain")
	if len(b2.Lines) == 0 {
		vs.Reach("emptied")
	}
}

// SymC02Hunks: attribution with hunks far apart.
func SymC02Hunks() {
	script := symScript(2, vs.Param("keep", 7), 1, 1, 0, "")
	old := symOldBlame(script, "")
	before := symCopyBlame(old)
	nOld := len(old.Lines)
	want := symExpect(old, script, "new")
	d := Parse(symPatch(script, 3, false, false, nil, nOld == 0, false))
	if len(d.Hunks) > 1 {
		vs.Reach("two hunks")
	}
	symAssertBlame(Apply(old, d, "new", "f"), want, "commit")
	vs.Assert(symSameBlame(old, before), "the previous blame is unchanged")
}

// SymC02Buffers: results stay intact when later patches are larger than any buffer.
func SymC02Buffers() {
	mk := func(tag string, n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = tag[0]
		}
		copy(b, symLineN(tag, 2))
		return b
	}
	sizes := []int{3, 2500, 5000}
	s1 := []symEdit{{'+', mk("a", sizes[vs.Choose("a", 3)]), -1}, {'+', mk("b", sizes[vs.Choose("b", 3)]), -1}}
	b1 := Apply(Blame{}, Parse(symPatch(s1, 3, false, false, nil, true, true)), "c1", "f")
	w1 := symExpect(Blame{}, s1, "c1")
	symAssertBlame(b1, w1, "first commit")
	s2 := []symEdit{{' ', s1[0].text, 0}, {'-', s1[1].text, 1}, {'+', mk("c", sizes[vs.Choose("c", 3)]), -1}, {'+', mk("d", sizes[vs.Choose("d", 3)]), -1}}
	b2 := Apply(b1, Parse(symPatch(s2, 3, false, false, nil, false, false)), "c2", "f")
	w2 := symExpect(w1, s2, "c2")
	symAssertBlame(b2, w2, "second commit")
	symAssertBlame(b1, w1, "first commit afterwards")
	vs.Reach("buffers")
}

// SymC02Header: patches that change the name or the mode of a file, with and
// without changes of its lines.
func SymC02Header() {
	b0 := symCommitted(vs.Choose("lines", vs.Param("lines", 3)+1), "")
	k0 := symCopyBlame(b0)
	s := symScriptOver(symText(b0), vs.Param("adds", 1), "1")
	if vs.Choose("bare", 2) == 1 {
		s = nil
		for i, t := range symText(b0) {
			s = append(s, symEdit{' ', t, i})
		}
	}
	mode, rename := vs.Choose("mode", 2) == 1, vs.Choose("rename", 2) == 1
	h := symHunks(s, 3, false, false, nil)
	vs.Assume(len(h) > 0 || mode || rename)
	from := "f"
	if rename {
		from = "e"
	}
	p := "diff --git a/" + from + " b/f\n"
	if mode {
		p += "old mode 100644\nnew mode 100755\n"
	}
	if rename {
		p += "similarity index 70%\nrename from e\nrename to f\n"
	}
	if len(h) > 0 {
		p += "index 2222222..1111111"
		if !mode {
			p += " 100644"
		}
		p += "\n--- a/" + from + "\n+++ b/f\n" + string(h)
	} else {
		vs.Reach("bare")
	}
	w1 := symExpect(b0, s, "c1")
	b1 := Apply(b0, Parse([]byte(p)), "c1", "f")
	symAssertBlame(b1, w1, "commit")
	vs.Assert(symSameBlame(b0, k0), "the previous blame is unchanged")
	s2 := symScriptOver(symText(w1), 1, "2")
	w2 := symExpect(w1, s2, "c2")
	b2 := Apply(b1, Parse(symPatch(s2, 3, false, false, nil, len(w1.Lines) == 0, false)), "c2", "f")
	symAssertBlame(b2, w2, "second commit")
	symAssertBlame(b1, w1, "commit after the second")
	vs.Assert(symSameBlame(b0, k0), "the previous blame is unchanged")
	vs.Reach("checked")
}
