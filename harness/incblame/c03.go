//sym:into ripsrc/history3/incblame

package incblame

import (
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// SymC03Merge: up to three parents, each of which had an arbitrary subset of
// the merged lines and some lines of its own.
func SymC03Merge() {
	heading := [][]byte{nil, symLineN("head", 6)}
	np := 1 + vs.Choose("parents", vs.Param("parents", 3))
	m := vs.Choose("lines", vs.Param("lines", 3)+1)
	own := vs.Param("own", 1)
	merged := make([][]byte, m)
	for i := range merged {
		merged[i] = symLineN("line", 1)
	}
	// some lines of the parents are the very same objects, as they come from a common ancestor
	shared := make([]*Line, m)
	isShared := make([]bool, m)
	for i := range shared {
		shared[i] = &Line{Line: append([]byte{}, merged[i]...), Commit: "s" + vs.String("sby", 1)}
		isShared[i] = vs.Choose("shared", 2) == 1
	}
	from := make([]string, m)
	for i := range from {
		from[i] = "merge"
	}
	var parents, before []Blame
	var diffs []Diff
	for p := 0; p < np; p++ {
		b := Blame{Commit: "p"}
		var s []symEdit
		left := own
		for i := 0; i <= m; i++ {
			if left > 0 && vs.Choose("own", 2) == 1 {
				left--
				t := symLineN("owntext", 1)
				s = append(s, symEdit{'-', t, len(b.Lines)})
				b.Lines = append(b.Lines, &Line{Line: append([]byte{}, t...), Commit: "o"})
			}
			if i == m {
				break
			}
			if vs.Choose("had", 2) == 1 {
				l := shared[i]
				if !isShared[i] {
					l = &Line{Line: append([]byte{}, merged[i]...), Commit: "c" + vs.String("by", 1)}
				}
				if from[i] == "merge" {
					from[i] = l.Commit
				}
				s = append(s, symEdit{' ', merged[i], len(b.Lines)})
				b.Lines = append(b.Lines, l)
			} else {
				s = append(s, symEdit{'+', merged[i], -1})
			}
		}
		parents = append(parents, b)
		before = append(before, symCopyBlame(b))
		diffs = append(diffs, Parse(symPatch(s, 3, false, false, heading[p%2], len(b.Lines) == 0, false)))
	}
	res := ApplyMerge(parents, diffs, "merge", "f")
	vs.Observe("res", res.Lines)
	vs.Assert(res.Commit == "merge", "the file is stamped with the merge")
	vs.Assert(len(res.Lines) == m, "number of merged lines")
	for i := range merged {
		vs.Assert(vs.EqBytes(res.Lines[i].Line, merged[i]), "content of a merged line")
		vs.Assert(res.Lines[i].Commit == from[i], "attribution of a merged line")
	}
	for p := range parents {
		vs.Assert(symSameBlame(parents[p], before[p]), "blame of a parent is unchanged")
	}
	vs.Reach("merged")
	if np == 3 {
		vs.Reach("three parents")
	}
}
