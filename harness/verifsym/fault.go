//sym:into ripsrc/verifsym

package verifsym

import "strings"

// GFault is a way for some git commands to go wrong.
type GFault struct {
	Cmd     string // commands with this word go wrong
	Arg     string // and with an argument that starts so; of logs, one of LogPatch, LogStat and LogGraph
	Name    string // tells it from other faults
	hit     bool
	NoStart bool
	Code    int
	Cut     int // bytes of output before it stops, -1 for all
}

// What is asked of a log.
const (
	LogPatch = "log of patches"
	LogStat  = "log of statistics"
	LogGraph = "log of parents"
)

func logKind(args []string) string {
	kind := ""
	for _, a := range args {
		switch a {
		case "log":
			kind = LogGraph
		case "rev-list":
			return ""
		}
	}
	if kind == "" {
		return ""
	}
	for _, a := range args {
		switch a {
		case "-p", "-u", "--patch":
			return LogPatch
		case "--numstat", "--raw":
			kind = LogStat
		}
	}
	return kind
}

// Hits tells whether a command goes wrong.
func (f *GFault) Hits(args []string) bool {
	cmd, arg := false, f.Arg == ""
	switch f.Arg {
	case LogPatch, LogStat, LogGraph:
		arg = logKind(args) == f.Arg
	}
	for i, a := range args {
		if a == f.Cmd {
			cmd = true
		}
		if a == "--parents" && f.Cmd == "log" && (f.Arg == LogGraph || f.Arg == "") && i > 0 {
			cmd, arg = true, true
		}
		if f.Arg != "" && strings.HasPrefix(a, f.Arg) {
			arg = true
		}
	}
	return cmd && arg
}

// Hit tells whether a command went wrong.
func (f *GFault) Hit() bool { return f.hit || Marked("hit "+f.Name) }

// Wrap lets commands go wrong.
func (f *GFault) Wrap(exec func(string, []string) ExecResult) func(string, []string) ExecResult {
	return func(dir string, args []string) ExecResult {
		if !f.Hits(args) {
			return exec(dir, args)
		}
		f.hit = true
		Mark("hit " + f.Name)
		if f.NoStart {
			return ExecResult{NoStart: true}
		}
		r := exec(dir, args)
		if f.Cut >= 0 && f.Cut < len(r.Out) {
			r.Out = r.Out[:f.Cut]
		}
		r.Code = f.Code
		r.Err = "fatal: it went wrong\n"
		return r
	}
}

// AnyFault is any way for the commands to go wrong, given what they print.
// Each command is a word and the start of an argument.
func AnyFault(out func(f *GFault) string, cmds ...[2]string) *GFault {
	k := cmds[Choose("command", len(cmds))]
	f := &GFault{Cmd: k[0], Arg: k[1], Code: 128, Cut: -1}
	switch Choose("how", 3) {
	case 0:
		f.NoStart = true
	case 1: // all of the output, and then
	case 2:
		n := len(out(f))
		if n > 0 {
			f.Cut = Choose("cut", n)
		}
	}
	return f
}
