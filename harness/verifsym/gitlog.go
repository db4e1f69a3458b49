//sym:into ripsrc/verifsym

package verifsym

import "strings"

// LogEntry is one entry of "git log -p -m --pretty=short".
type LogEntry struct {
	Hash    string
	From    string // parent of a merge the patches are against
	Merge   bool
	Author  string
	Subject []string // lines of the title
	Patches []string // each ends in a newline
}

// GitLogShort renders entries as git's log-tree.c and pretty.c do.
func GitLogShort(es []LogEntry) string {
	var b []byte
	for i, e := range es {
		if i > 0 {
			b = append(b, '\n')
		}
		b = append(b, "commit "...)
		b = append(b, e.Hash...)
		if e.From != "" {
			b = append(b, " (from "...)
			b = append(b, e.From...)
			b = append(b, ')')
		}
		b = append(b, '\n')
		if e.Merge {
			b = append(b, "Merge: 1111111 2222222\n"...)
		}
		b = append(b, "Author: "...)
		b = append(b, e.Author...)
		b = append(b, '\n')
		if len(e.Subject) > 0 {
			b = append(b, '\n')
			for _, l := range e.Subject {
				b = append(b, "    "...)
				b = append(b, l...)
				b = append(b, '\n')
			}
		}
		if len(e.Patches) > 0 {
			b = append(b, '\n')
			b = append(b, strings.Join(e.Patches, "")...)
		}
	}
	return string(b)
}
