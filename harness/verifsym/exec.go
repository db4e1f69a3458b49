//sym:into ripsrc/verifsym

package verifsym

import (
	"bytes"
	"context"
	"io"
	"os"
	"os/exec"
	"strconv"
)

// ExecResult is what a git command does.
type ExecResult struct {
	Out     string
	Err     string
	Code    int  // exit status
	NoStart bool // the command cannot be started at all
}

type execHandler func(dir string, args []string) ExecResult

var handler execHandler
var phase int

// SetExec installs the model of git. All choices the model depends on must be
// made before.
func SetExec(h func(dir string, args []string) ExecResult) {
	handler = h
	if !Symbolic() && !gitMode {
		ensureCalls()
	}
	if gitMode {
		dir, _ := os.Getwd()
		r := h(dir, os.Args[1:])
		if r.NoStart {
			os.Exit(127)
		}
		realStdout.WriteString(r.Out)
		os.Stderr.WriteString(r.Err)
		os.Exit(r.Code)
	}
}

// SetPhase tells the model which phase the harness is in.
func SetPhase(n int) {
	phase = n
	calls = 0
	if !Symbolic() {
		ensureCalls()
		os.Setenv("SYM_PHASE", strconv.Itoa(n))
	}
}

func ensureCalls() {
	if callsDir == "" {
		callsDir = TempDir()
		os.Setenv("SYM_CALLS", callsDir)
	}
}

// Mark leaves a mark that the harness sees, even if made in a command.
func Mark(name string) {
	if gitMode {
		os.WriteFile(os.Getenv("SYM_CALLS")+"/mark "+name, nil, 0666)
	}
}

// Marked tells whether a command made the mark.
func Marked(name string) bool {
	if Symbolic() || callsDir == "" {
		return false
	}
	_, err := os.Stat(callsDir + "/mark " + name)
	return err == nil
}

// Phase is the phase the harness is in.
func Phase() int {
	if gitMode {
		n, _ := strconv.Atoi(os.Getenv("SYM_PHASE"))
		return n
	}
	return phase
}

var calls int
var callsDir string

// CallNo counts the commands of a phase: call it once per command.
func CallNo() int {
	if !gitMode {
		calls++
		return calls - 1
	}
	for i := 0; ; i++ {
		f, err := os.OpenFile(os.Getenv("SYM_CALLS")+"/"+strconv.Itoa(phaseNo())+"-"+strconv.Itoa(i), os.O_CREATE|os.O_EXCL, 0666)
		if err == nil {
			f.Close()
			return i
		}
		if !os.IsExist(err) {
			panic(err)
		}
	}
}

// Calls is how many commands the phase had so far.
func Calls() (n int) {
	if Symbolic() {
		return calls
	}
	for ; ; n++ {
		if _, err := os.Stat(callsDir + "/" + strconv.Itoa(phase) + "-" + strconv.Itoa(n)); err != nil {
			return
		}
	}
}

func phaseNo() int {
	n, _ := strconv.Atoi(os.Getenv("SYM_PHASE"))
	return n
}

// --- what takes the place of os/exec under the checker

type cmdState struct {
	c    *exec.Cmd
	ctx  context.Context
	pout *io.PipeWriter
	perr *io.PipeWriter
	done chan error
}

var cmds []*cmdState

type procState struct {
	ps   *os.ProcessState
	code int
}

var procs []procState

func stateOf(c *exec.Cmd) *cmdState {
	for _, s := range cmds {
		if s.c == c {
			return s
		}
	}
	s := &cmdState{c: c}
	cmds = append(cmds, s)
	return s
}

//sym:subst os/exec.Command
func execCommand(name string, arg ...string) *exec.Cmd {
	return &exec.Cmd{Path: name, Args: append([]string{name}, arg...)}
}

//sym:subst os/exec.CommandContext
func execCommandContext(ctx context.Context, name string, arg ...string) *exec.Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := execCommand(name, arg...)
	stateOf(c).ctx = ctx
	return c
}

//sym:subst os/exec.LookPath
func execLookPath(name string) (string, error) { return "/usr/bin/" + name, nil }

func newExitError(code int) error {
	ps := new(os.ProcessState)
	procs = append(procs, procState{ps, code})
	return &exec.ExitError{ProcessState: ps}
}

//sym:subst (*os.ProcessState).String
func psString(p *os.ProcessState) string {
	return "exit status " + strconv.Itoa(psExitCode(p))
}

//sym:subst (*os.ProcessState).ExitCode
func psExitCode(p *os.ProcessState) int {
	for _, s := range procs {
		if s.ps == p {
			return s.code
		}
	}
	return -1
}

//sym:subst (*os.ProcessState).Success
func psSuccess(p *os.ProcessState) bool { return psExitCode(p) == 0 }

func sendTo(w io.Writer, s string) error {
	if w == nil {
		return nil
	}
	b := []byte(s)
	for len(b) > 0 {
		n := len(b)
		if n > 32768 {
			n = 32768
		}
		if _, err := w.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

func doRun(c *exec.Cmd) error {
	r, err := launch(c)
	if err != nil {
		return err
	}
	return finish(c, r)
}

func launch(c *exec.Cmd) (r ExecResult, _ error) {
	st := stateOf(c)
	if st.ctx != nil && st.ctx.Err() != nil {
		return r, st.ctx.Err()
	}
	if handler == nil {
		Unsupported("command run without a model: " + c.Path)
	}
	args := c.Args
	if len(args) > 0 {
		args = args[1:]
	}
	r = handler(c.Dir, args)
	if r.NoStart {
		return r, &exec.Error{Name: c.Path, Err: exec.ErrNotFound}
	}
	return r, nil
}

func finish(c *exec.Cmd, r ExecResult) error {
	st := stateOf(c)
	werr := sendTo(c.Stdout, r.Out)
	if f, ok := c.Stderr.(*os.File); !ok || f == nil {
		if e := sendTo(c.Stderr, r.Err); werr == nil {
			werr = e
		}
	}
	if st.ctx != nil && st.ctx.Err() != nil {
		return st.ctx.Err()
	}
	c.ProcessState = new(os.ProcessState)
	procs = append(procs, procState{c.ProcessState, r.Code})
	if r.Code != 0 {
		return newExitError(r.Code)
	}
	return werr
}

//sym:subst (*os/exec.Cmd).Run
func cmdRun(c *exec.Cmd) error { return doRun(c) }

//sym:subst (*os/exec.Cmd).Output
func cmdOutput(c *exec.Cmd) ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := doRun(c)
	return b.Bytes(), err
}

//sym:subst (*os/exec.Cmd).CombinedOutput
func cmdCombined(c *exec.Cmd) ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := doRun(c)
	return b.Bytes(), err
}

//sym:subst (*os/exec.Cmd).StdoutPipe
func cmdStdoutPipe(c *exec.Cmd) (io.ReadCloser, error) {
	r, w := io.Pipe()
	c.Stdout = w
	stateOf(c).pout = w
	return r, nil
}

//sym:subst (*os/exec.Cmd).StderrPipe
func cmdStderrPipe(c *exec.Cmd) (io.ReadCloser, error) {
	r, w := io.Pipe()
	c.Stderr = w
	stateOf(c).perr = w
	return r, nil
}

//sym:subst (*os/exec.Cmd).Start
func cmdStart(c *exec.Cmd) error {
	st := stateOf(c)
	st.done = make(chan error, 1)
	r, err := launch(c)
	if err != nil {
		return err
	}
	go func() {
		err := finish(c, r)
		if st.pout != nil {
			st.pout.Close()
		}
		if st.perr != nil {
			st.perr.Close()
		}
		st.done <- err
	}()
	return nil
}

//sym:subst (*os/exec.Cmd).Wait
func cmdWait(c *exec.Cmd) error {
	st := stateOf(c)
	if st.done == nil {
		return os.ErrInvalid
	}
	return <-st.done
}
