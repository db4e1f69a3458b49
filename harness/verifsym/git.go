//sym:into ripsrc/verifsym

package verifsym

import (
	"strconv"
	"strings"
)

// Pieces of git's output format, written from git's own rules (quote.c,
// diff.c, combine-diff.c, pretty.c).

// needsQuote mirrors git's quote.c with core.quotePath=quoteHigh.
func needsQuote(c byte, quoteHigh bool) bool {
	r := Or(Or(c < 0x20, c == 0x7f), Or(c == '"', c == '\\'))
	if quoteHigh {
		r = Or(r, c >= 0x80)
	}
	return r
}

// GitQuoted renders a path as git prints it.
func GitQuoted(prefix, p string, quoteHigh bool) string {
	q := false
	for i := 0; i < len(p); i++ {
		q = Or(q, needsQuote(p[i], quoteHigh))
	}
	if !q {
		return prefix + p
	}
	var b []byte
	b = append(b, '"')
	b = append(b, prefix...)
	for i := 0; i < len(p); i++ {
		c := p[i]
		if !needsQuote(c, quoteHigh) {
			b = append(b, c)
			continue
		}
		b = append(b, '\\')
		switch c {
		case 7:
			b = append(b, 'a')
		case 8:
			b = append(b, 'b')
		case 9:
			b = append(b, 't')
		case 10:
			b = append(b, 'n')
		case 11:
			b = append(b, 'v')
		case 12:
			b = append(b, 'f')
		case 13:
			b = append(b, 'r')
		case '"':
			b = append(b, '"')
		case '\\':
			b = append(b, '\\')
		default:
			b = append(b, '0'+(c>>6), '0'+(c>>3)&7, '0'+c&7)
		}
	}
	b = append(b, '"')
	return string(b)
}

// GitHeader is the header of one file's patch.
type GitHeader struct {
	Old, New  string // empty when created or deleted
	Binary    bool
	OldMode   string // defaults to 100644
	NewMode   string
	Content   bool // contents differ
	QuoteHigh bool
}

func tabFor(p string) string {
	if strings.IndexByte(p, ' ') >= 0 {
		return "\t"
	}
	return ""
}

func (h GitHeader) String() string {
	old, nw := h.Old, h.New
	if old == "" {
		old = nw
	}
	if nw == "" {
		nw = old
	}
	om, nm := h.OldMode, h.NewMode
	if om == "" {
		om = "100644"
	}
	if nm == "" {
		nm = om
	}
	s := "diff --git " + GitQuoted("a/", old, h.QuoteHigh) + " " + GitQuoted("b/", nw, h.QuoteHigh) + "\n"
	switch {
	case h.Old == "":
		s += "new file mode " + nm + "\n"
	case h.New == "":
		s += "deleted file mode " + om + "\n"
	default:
		if om != nm {
			s += "old mode " + om + "\nnew mode " + nm + "\n"
		}
		if h.Old != h.New {
			sim := "100%"
			if h.Content {
				sim = "75%"
			}
			s += "similarity index " + sim + "\nrename from " + GitQuoted("", old, h.QuoteHigh) + "\nrename to " + GitQuoted("", nw, h.QuoteHigh) + "\n"
		}
	}
	if h.Old == "" || h.New == "" {
		i := "0000000..1111111"
		if h.New == "" {
			i = "1111111..0000000"
		}
		s += "index " + i + "\n"
	} else if h.Content {
		s += "index 2222222..1111111"
		if om == nm {
			s += " " + om
		}
		s += "\n"
	}
	if !h.Content {
		return s
	}
	a, b := "/dev/null", "/dev/null"
	at, bt := "", ""
	if h.Old != "" {
		a, at = GitQuoted("a/", old, h.QuoteHigh), tabFor(old)
	}
	if h.New != "" {
		b, bt = GitQuoted("b/", nw, h.QuoteHigh), tabFor(nw)
	}
	if h.Binary {
		return s + "Binary files " + a + " and " + b + " differ\n"
	}
	return s + "--- " + a + at + "\n+++ " + b + bt + "\n"
}

var _ = strconv.Itoa
