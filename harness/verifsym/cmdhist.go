//sym:into ripsrc/verifsym

package verifsym

import (
	"path/filepath"
	"strconv"
	"time"
)

// CmdRepos is a directory of repositories, some of which fail.
type CmdRepos struct {
	Dir    string
	Names  []string
	State  []int
	Hists  []*Hist
	bad    bool // the directory cannot be read
	faults []*GFault
}

// What may happen to a repository.
const (
	RepoOK = iota
	RepoEmpty
	RepoFails
)

// NewCmdRepos makes a directory with up to n repositories, and commands of git
// that fail for some of them. Each way to fail is a word of a command line.
func NewCmdRepos(n int, word []string) *CmdRepos {
	s := &CmdRepos{Dir: TempDir()}
	switch Choose("dir", 4) {
	case 0: // repositories below
		MakeFile(s.Dir+"/file", []byte("x"))
		MakeDir(s.Dir + "/plain/objects")
		n = Choose("repos", n+1)
		for i := 0; i < n; i++ {
			s.Names = append(s.Names, "r"+strconv.Itoa(i))
		}
	case 1: // a repository itself
		s.Dir += "/r0"
		s.Names = []string{"r0"}
	case 2:
		s.Dir += "/missing"
		s.bad = true
	case 3:
		s.Dir += "/file"
		MakeFile(s.Dir, nil)
		s.bad = true
	}
	for i, name := range s.Names {
		d := s.Dir
		if filepath.Base(d) != name {
			d += "/" + name
		}
		MakeDir(d + "/.git")
		k := Choose("state", 2+len(word))
		h := NewHist("f" + strconv.Itoa(i) + ".d")
		h.Pool = []string{"x"}
		f := &GFault{Cmd: "none"}
		if k != RepoEmpty {
			h.Commit([]GFile{h.Text(h.Paths[0], 1)})
			h.Commit([]GFile{h.Text(h.Paths[0], 1)}, 0)
			h.R.HeadRef, h.R.Head = "refs/heads/master", 1
			h.R.Refs = []GRef{{Name: "refs/heads/b" + strconv.Itoa(i), Commit: 0}, {Name: "refs/heads/master", Commit: 1},
				{Name: "refs/remotes/origin/HEAD", Commit: 1, Sym: true}, {Name: "refs/remotes/origin/b" + strconv.Itoa(i), Commit: 0}, {Name: "refs/remotes/origin/master", Commit: 1}}
		}
		if k >= RepoFails {
			f = &GFault{Cmd: word[k-RepoFails], Code: 128, Cut: 0}
			if f.Cmd == "log" {
				f.Cut = []int{0, 60, -1}[Choose("cut", 3)]
			}
			if Choose("start", 2) == 1 {
				f.NoStart = true
			}
			k = RepoFails
		}
		s.State = append(s.State, k)
		s.Hists = append(s.Hists, h)
		f.Name = name
		s.faults = append(s.faults, f)
	}
	SetExec(func(dir string, args []string) ExecResult {
		for i, n := range s.Names {
			if filepath.Base(dir) == n {
				return s.faults[i].Wrap(s.Hists[i].R.Exec)(dir, args)
			}
		}
		return ExecResult{Code: 128, Err: "fatal: not a git repository\n"}
	})
	return s
}

// Fails tells what the exit status has to be.
func (s *CmdRepos) Fails() bool {
	if s.bad || len(s.Names) == 0 {
		return true
	}
	for _, f := range s.faults {
		if f.Hit() {
			return true
		}
	}
	return false
}

// A ticker that does not tick.
//
//sym:subst time.NewTicker
func newTicker(d time.Duration) *time.Ticker { return &time.Ticker{C: make(chan time.Time)} }

//sym:subst (*time.Ticker).Stop
func tickerStop(t *time.Ticker) {}
