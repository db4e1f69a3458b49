//sym:into ripsrc/history3/process/repo

package repo

import (
	"bytes"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// symEqual tells whether two states are the same.
func symEqual(a, b Repo) bool {
	if len(a) != len(b) {
		return false
	}
	for c, af := range a {
		bf, ok := b[c]
		if !ok || len(af) != len(bf) {
			return false
		}
		for p, x := range af {
			y := bf[p]
			if y == nil || x.Commit != y.Commit || x.IsBinary != y.IsBinary || len(x.Lines) != len(y.Lines) {
				return false
			}
			for i := range x.Lines {
				if x.Lines[i].Commit != y.Lines[i].Commit || !bytes.Equal(x.Lines[i].Line, y.Lines[i].Line) {
					return false
				}
			}
		}
	}
	return true
}

func symState(commits ...string) Repo {
	r := New()
	n := 0
	for _, c := range commits {
		r.AddCommit(c)
		for _, p := range []string{"a", "b"}[:vs.Param("files", 2)] {
			b := &incblame.Blame{Commit: c}
			for i := 0; i < vs.Param("lines", 2); i++ {
				n++
				b.Lines = append(b.Lines, &incblame.Line{Commit: c, Line: []byte(p + c + string(rune('0'+n)))})
			}
			r[c][p] = b
		}
	}
	return r
}

// SymC10Save: a save over an earlier checkpoint, with one fault at any of its
// operations on files, or the end of the process there.
func SymC10Save() {
	d := vs.TempDir()
	kind := 1 + vs.Choose("kind", 2)
	before := symState("c1", "c2")
	after := symState("c2", "c3", "c4")
	hasOld := vs.Choose("old", 2) == 1
	if hasOld {
		vs.Assert(NewCheckpointWriter(vs.Log{}).Write(before, d, "c2") == nil, "the first save succeeds")
	}
	place := vs.ListDir(d)
	junk := vs.Choose("junk", 3)
	if junk > 0 {
		// what an earlier interrupted save left behind
		vs.MakeFile(d+"/tmp/"+[]string{"", "repo", "lines.tmp"}[junk], []byte("junk"))
	}
	vs.FSFault(kind)
	err := NewCheckpointWriter(vs.Log{}).Write(after, d, "c4")
	hit, _ := vs.FSHit()
	vs.FSCalm()
	// the replacement has begun when something of the previous one was touched
	replacing := hasOld && vs.FSTouched(d+"/"+place[0])
	if !hit {
		vs.Assert(err == nil, "a save without faults succeeds")
	} else {
		vs.Assert(err != nil, "a failed save is reported")
	}
	vs.Reach("saved")
	rd := NewCheckpointReader(vs.Log{})
	// what a strict resume from either state, or any resume, reads
	for _, want := range []string{"c2", "c4", ""} {
		got, rerr := rd.Read(d, want)
		if rerr != nil {
			if want == "c4" && !hit {
				vs.Fail("the saved checkpoint is readable")
			}
			if want == "c2" && hasOld && hit && !replacing {
				vs.Fail("a fault before the replacement leaves the previous checkpoint")
			}
			continue
		}
		isOld, isNew := symEqual(got, before), symEqual(got, after)
		switch want {
		case "c2":
			vs.Assert(isOld && hasOld, "what is read as the previous state is the previous state")
		case "c4":
			vs.Assert(isNew, "what is read as the new state is the new state")
		default:
			vs.Assert(isOld && hasOld || isNew, "what is read is the previous or the new state")
		}
	}
	if hasOld && replacing {
		symStill(d, place[0], after)
	}
	// saving again works whatever was left behind
	vs.Assert(NewCheckpointWriter(vs.Log{}).Write(after, d, "c4") == nil, "the next save succeeds")
	got, rerr := rd.Read(d, "c4")
	vs.Assert(rerr == nil && symEqual(got, after), "the next save is read")
}

// symStill checks that once the previous checkpoint is being replaced the new
// one is complete, in its place or next to it.
func symStill(d, place string, after Repo) {
	rd := NewCheckpointReader(vs.Log{})
	got, err := rd.Read(d, "c4")
	if err == nil && symEqual(got, after) {
		return
	}
	for _, n := range vs.ListDir(d) {
		if n == place {
			continue
		}
		vs.MoveDir(d+"/"+n, d+"/"+place)
		got, err := rd.Read(d, "c4")
		if err == nil && symEqual(got, after) {
			return
		}
	}
	vs.Fail("the previous checkpoint is given up before the new one is complete")
}
