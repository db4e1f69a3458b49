//sym:into ripsrc/verifsym/vscc

// Package vscc stands for the counter of lines of code.
package vscc

import (
	"github.com/boyter/scc/processor"
)

// Kind of a line: 0 blank, 1 code, 2 comment. Comments go on from a line that
// starts with an opening brace to one that starts with a closing one.
func Kind(line []byte, in *bool) int {
	switch {
	case len(line) == 0:
		return 0
	case line[0] == '{':
		*in = true
		return 2
	case *in:
		*in = line[0] != '}'
		return 2
	case line[0] == '#':
		return 2
	}
	return 1
}

// CountStats replaces the counter: lines starting with # are comments, lines
// starting with a digit add to complexity.
//
//sym:subst[scc] github.com/boyter/scc/processor.CountStats
func CountStats(job *processor.FileJob) {
	job.Bytes = int64(len(job.Content))
	from, in := 0, false
	for i, c := range job.Content {
		if c != '\n' && i+1 < len(job.Content) {
			continue
		}
		line := job.Content[from:i]
		if c != '\n' {
			line = job.Content[from:]
		}
		from = i + 1
		job.Lines++
		k := Kind(line, &in)
		t := processor.LINE_BLANK
		switch k {
		case 0:
			job.Blank++
		case 1:
			job.Code++
			t = processor.LINE_CODE
			if line[0] >= '0' && line[0] <= '9' {
				job.Complexity++
				job.WeightedComplexity += 2
			}
		case 2:
			job.Comment++
			t = processor.LINE_COMMENT
		}
		if job.Callback != nil && !job.Callback.ProcessLine(job, job.Lines, t) {
			return
		}
	}
}
