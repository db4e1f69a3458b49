//sym:into ripsrc/pkg/gitrepos

package gitrepos

import (
	"errors"
	"path/filepath"
	"strings"

	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
)

// symWant is what to find: directories to report, and directories that may be
// reported or not because they are inside of a bare repository.
type symWant struct {
	plain     string // name of subdirectories that are not named like a bare one
	must, may []string
}

func (w *symWant) add(p string, free bool) {
	if free {
		w.may = append(w.may, p)
	} else {
		w.must = append(w.must, p)
	}
}

// symDir makes a directory with any content out of what matters, and collects
// what to find in it with so much depth left (negative: no limit).
func symDir(w *symWant, p string, levels, depth int, free, seen bool) {
	vs.MakeDir(p)
	repo := false
	switch vs.Choose("dot git", 3) {
	case 1:
		vs.MakeDir(p + "/.git/objects")
		vs.MakeFile(p+"/.git/HEAD", []byte("x"))
		repo = true
	case 2:
		vs.MakeFile(p+"/.git", []byte("gitdir: x"))
	}
	bare := false
	if strings.HasSuffix(p, ".git") || vs.Param("plain", 0) == 1 {
		switch vs.Choose("objects", 1+vs.Param("objects", 2)) {
		case 1:
			vs.MakeDir(p + "/objects")
			bare = strings.HasSuffix(p, ".git")
		case 2:
			vs.MakeFile(p+"/objects", nil)
		}
	}
	if seen && (repo || bare) {
		w.add(p, free)
	}
	if levels == 0 {
		return
	}
	inside := seen && !repo && depth != 0
	// one of the subdirectories has subdirectories of its own, or both do
	deep := -1
	if levels > 1 && vs.Param("both", 0) == 0 {
		deep = vs.Choose("deep", 2)
	}
	for i, n := range []string{w.plain, "b.git"} {
		switch vs.Choose(n, 2+vs.Param("files", 0)) {
		case 1:
			l := levels - 1
			if deep >= 0 && i != deep {
				l = 0
			}
			symDir(w, p+"/"+n, l, depth-1, free || bare, inside)
		case 2:
			vs.MakeFile(p+"/"+n, nil)
		}
	}
}

func symCheck(w symWant, got []string, all bool) {
	n := 0
	for i, g := range got {
		for _, o := range got[:i] {
			vs.Assert(o != g, "a repository is reported once")
		}
		ok := false
		for _, m := range w.must {
			if m == g {
				ok = true
				n++
			}
		}
		for _, m := range w.may {
			ok = ok || m == g
		}
		vs.Assert(ok, "only repositories are reported")
	}
	vs.Assert(!all || n == len(w.must), "every repository is reported")
}

func symRoot() string {
	d := vs.TempDir()
	if vs.Choose("root", 2) == 1 {
		return d + "/r.git"
	}
	return d + "/r"
}

// SymC20Tree: any tree.
func SymC20Tree() {
	root := symRoot()
	depth := vs.Choose("depth", 4) - 1
	w := symWant{plain: []string{"a", ".a", "node_modules", "c d", "x.git.d", "git"}[vs.Choose("name", vs.Param("names", 6))]}
	symDir(&w, root, vs.Param("levels", 2), depth, false, true)
	var got []string
	err := IterDir(root, depth, func(p string) error {
		got = append(got, filepath.Clean(p))
		return nil
	})
	vs.Assert(err == nil, "the walk succeeds")
	symCheck(w, got, true)
	if len(got) > 1 {
		vs.Reach("several")
	}
	vs.Reach("checked")
}

// SymC20Error: processing of any of the repositories fails.
func SymC20Error() {
	root := symRoot()
	w := symWant{plain: []string{"a", ".a", "node_modules", "c d", "x.git.d", "git"}[vs.Choose("name", vs.Param("names", 6))]}
	symDir(&w, root, 1, 1, false, true)
	at := vs.Choose("at", 3)
	stop := errors.New("stop")
	var got []string
	err := IterDir(root, 1, func(p string) error {
		got = append(got, filepath.Clean(p))
		if len(got)-1 == at {
			return stop
		}
		return nil
	})
	if at < len(w.must) {
		vs.Assert(err == stop && len(got) == at+1, "an error from processing stops the walk and is returned")
		vs.Reach("stopped")
	} else if len(w.may) == 0 {
		vs.Assert(err == nil, "the walk succeeds")
	}
	symCheck(w, got, err == nil)
}

// SymC20Fault: something cannot be read.
func SymC20Fault() {
	root := symRoot()
	w := symWant{plain: []string{"a", ".a", "node_modules", "c d", "x.git.d", "git"}[vs.Choose("name", vs.Param("names", 6))]}
	kind := vs.Choose("kind", 4)
	switch kind {
	case 0:
		// does not exist
	case 1:
		vs.MakeFile(root, nil)
	default:
		symDir(&w, root, 1, 1, false, true)
	}
	if kind == 2 {
		vs.FSFault(1)
	}
	var got []string
	err := IterDir(root, 1, func(p string) error {
		got = append(got, filepath.Clean(p))
		return nil
	})
	vs.FSCalm()
	vs.Assert(kind > 1 || err != nil, "a path that is no directory is refused")
	symCheck(w, got, err == nil)
	vs.Reach("checked")
}

// SymC20Form: the directory is given in any form of its name.
func SymC20Form() {
	d := vs.TempDir()
	name := []string{"r", "r.git"}[vs.Choose("root", 2)]
	root := d + "/" + name
	vs.MakeDir(d + "/other/sub")
	w := symWant{plain: "a"}
	symDir(&w, root, 1, 1, false, true)
	given, at := root, root
	switch vs.Choose("form", 8) {
	case 0:
		given = root + "/"
	case 1:
		given = root + "/."
	case 2:
		given = d + "//./" + name + "//"
	case 3:
		given = d + "/other/../" + name
	case 4:
		vs.Chdir(root)
		given, at = ".", ""
	case 5:
		vs.Chdir(d)
		given, at = name, name
	case 6:
		vs.Chdir(d)
		given, at = "./"+name+"/", name
	case 7:
		vs.Chdir(d + "/other/sub")
		given, at = "../../"+name, "../../"+name
	}
	var got []string
	err := IterDir(given, 1, func(p string) error {
		p = filepath.Clean(p)
		switch {
		case strings.HasPrefix(p, d+"/"):
		case p == ".":
			p = root
		case at == "":
			p = root + "/" + p
		default:
			vs.Assert(p == at || strings.HasPrefix(p, at+"/"), "what is reported is below the directory given")
			p = root + p[len(at):]
		}
		got = append(got, p)
		return nil
	})
	vs.Assert(err == nil, "the walk succeeds")
	symCheck(w, got, true)
	vs.Reach("checked")
}
