//go:build !no_license

//sym:into ripsrc/fileinfo

package fileinfo

import (
	vs "github.com/pinpt/ripsrc/ripsrc/verifsym"
	"github.com/pinpt/ripsrc/ripsrc/verifsym/vlic"
)

// SymC17License: files named like a license, with any matches.
func SymC17License() {
	names := []string{"LICENSE", "a/LICENSE.md", "LICENCE.txt", "b/COPYING", "UNLICENSE", "LICENSE-MIT", "README.md"}
	p := names[vs.Choose("name", len(names))]
	n := vs.Choose("matches", vs.Param("matches", 3)+1)
	licenses := []string{"GPL-2.0", "Apache-2.0", "MIT", "BSD"}
	confs := []float32{0, 0.5, 0.849, 0.85, 0.9, 1}
	vlic.Result = nil
	best, name := float32(-1), ""
	if n > 0 {
		vlic.Result = map[string]float32{}
	}
	for i := 0; i < n; i++ {
		c := confs[vs.Choose("confidence", len(confs))]
		vlic.Result[licenses[i]] = c
		if c > best {
			best = c
		}
	}
	if n > 0 && vs.Bool("none") {
		// found, but nothing said
		vlic.Result = map[string]float32{}
		best = -1
	}
	for i := 0; i < n; i++ {
		if vlic.Result[licenses[i]] == best && (name == "" || licenses[i] < name) {
			name = licenses[i]
		}
	}
	a := InfoArgs{FilePath: p, Content: []byte("text\n"), Lines: [][]byte{[]byte("text")}}
	big := vs.Bool("big")
	if big {
		a.Content = make([]byte, 1000001)
	}
	vs.MapOrder(2)
	r1, s1 := New().GetInfo(a)
	r2, s2 := New().GetInfo(a)
	vs.MapOrder(0)
	vs.Assert(s1 == s2 && r1.Language == r2.Language && (r1.License == nil) == (r2.License == nil), "the decision depends on path and content only")
	if r1.License != nil && r2.License != nil {
		vs.Assert(*r1.License == *r2.License, "the license depends on path and content only")
	}
	if big || best < 0.85 {
		vs.Assert(r1.License == nil && s1 != "File is a license file", "no license is claimed")
		if big {
			vs.Assert(s1 == "File size was 1000K which exceeds limit of 1000K", "a large file is skipped for its size")
		}
		vs.Reach("none")
		return
	}
	vs.Assert(s1 == "File is a license file" && r1.Language == "", "a license is skipped as such")
	vs.Assert(r1.License != nil && r1.License.Confidence == best && vlic.Result[r1.License.Name] == best, "the best match is reported")
	vs.Assert(string(vlic.Content) == "text\n" && vlic.Asked == p, "the file itself is looked at")
	vs.Reach("license")
}

// SymC17LicenseName: only files named like a license are looked at.
func SymC17LicenseName() {
	shapes := []string{"LICENS?", "?ICENSE", "LICENSE?", "a?LICENSE", "README?md", "README.m?", "COPYING.t?t", "LICENSE-?", "LICENSE-?.?", "?.c", "LICENSE/?", "UNLICENC?", "?NLICENSE"}
	p := fill(shapes[vs.Choose("shape", len(shapes))])
	vlic.Result = map[string]float32{"MIT": 1}
	vlic.Asks = 0
	r, s := New().GetInfo(InfoArgs{FilePath: p, Content: []byte("text\n"), Lines: [][]byte{[]byte("text")}})
	want := licenseName(p)
	vs.Assert((s == "File is a license file") == want, "a license is a file named like one")
	vs.Assert((r.License != nil) == want, "a license is reported for a file named like one")
	if want {
		vs.Reach("license")
	} else {
		vs.Reach("other")
	}
}

// licenseName is the documented pattern, written out.
func licenseName(p string) bool {
	end := func(s string) bool {
		return len(p) >= len(s) && p[len(p)-len(s):] == s
	}
	for _, x := range []string{"", ".md", ".txt"} {
		for _, n := range []string{"LICENSE", "LICENCE", "README", "COPYING", "UNLICENSE", "UNLICENCE"} {
			if end(n + x) {
				return true
			}
		}
	}
	for i := 0; i+8 <= len(p); i++ {
		if p[i:i+8] == "LICENSE-" {
			return true
		}
	}
	return false
}
