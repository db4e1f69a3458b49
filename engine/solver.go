package main

// One SMT solver process per worker, fed with complete (sliced) queries
// between push and pop; answers are cached globally by query text up to
// renaming of variables.

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Verdict uint8

const (
	Unsat Verdict = iota
	Sat
	Unknown
)

type cacheEnt struct {
	v  Verdict
	m  []uint64
	ws []uint8
}

type SolverStats struct {
	Queries   int64 // decisions asked for
	CacheHits int64
	Solved    int64 // sent to a solver process
	Unsat     int64
	Sat       int64
	Unknown   int64
	Nanos     int64
	Crossed   int64
	Disagree  int64
}

const cacheShards = 64

type queryCache struct {
	sh [cacheShards]struct {
		mu sync.Mutex
		m  map[[16]byte]*cacheEnt
	}
}

func newQueryCache() *queryCache {
	q := &queryCache{}
	for i := range q.sh {
		q.sh[i].m = map[[16]byte]*cacheEnt{}
	}
	return q
}

func (q *queryCache) get(k [16]byte) *cacheEnt {
	s := &q.sh[k[0]%cacheShards]
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.m[k]
}
func (q *queryCache) put(k [16]byte, e *cacheEnt) {
	s := &q.sh[k[0]%cacheShards]
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.m) > 15000 {
		s.m = map[[16]byte]*cacheEnt{}
	}
	s.m[k] = e
}

type proc struct {
	argv  []string
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	setup string
}

func (p *proc) start() error {
	p.cmd = exec.Command(p.argv[0], p.argv[1:]...)
	in, err := p.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := p.cmd.Start(); err != nil {
		return err
	}
	p.in = in
	p.out = bufio.NewReaderSize(out, 1<<16)
	_, err = io.WriteString(in, p.setup)
	return err
}

func (p *proc) stop() {
	if p.cmd != nil && p.cmd.Process != nil {
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
	p.cmd = nil
}

// query sends one self-contained query; nvars variables named by names are
// read back when satisfiable.
func (p *proc) query(text string, decls string, names []string) (Verdict, []uint64, error) {
	if p.cmd == nil {
		if err := p.start(); err != nil {
			return Unknown, nil, err
		}
	}
	if _, err := io.WriteString(p.in, "(push 1)\n"+decls+text+"(check-sat)\n"); err != nil {
		p.stop()
		return Unknown, nil, err
	}
	line, err := p.line()
	if err != nil {
		p.stop()
		return Unknown, nil, err
	}
	v := Unknown
	switch line {
	case "sat":
		v = Sat
	case "unsat":
		v = Unsat
	case "unknown", "timeout":
	default:
		p.stop()
		return Unknown, nil, fmt.Errorf("solver said %q", line)
	}
	var m []uint64
	if v == Sat && len(names) > 0 {
		if _, err := io.WriteString(p.in, "(get-value ("+strings.Join(names, " ")+"))\n"); err != nil {
			p.stop()
			return Unknown, nil, err
		}
		s, err := p.sexpr()
		if err != nil || strings.HasPrefix(s, "(error") {
			p.stop()
			return Unknown, nil, fmt.Errorf("get-value: %v %s", err, s)
		}
		m, err = parseValues(s, len(names))
		if err != nil {
			p.stop()
			return Unknown, nil, err
		}
	}
	if _, err := io.WriteString(p.in, "(pop 1)\n"); err != nil {
		p.stop()
	}
	return v, m, nil
}

func (p *proc) line() (string, error) {
	for {
		s, err := p.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		s = strings.TrimSpace(s)
		if s != "" {
			return s, nil
		}
	}
}

func (p *proc) sexpr() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		c, err := p.out.ReadByte()
		if err != nil {
			return "", err
		}
		if c == '(' {
			depth++
		}
		if depth > 0 {
			sb.WriteByte(c)
		}
		if c == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

func parseValues(s string, n int) ([]uint64, error) {
	res := make([]uint64, 0, n)
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(s))
	for i := 0; i < len(f); {
		i++ // name
		if i >= len(f) {
			return nil, fmt.Errorf("bad values %s", s)
		}
		t := f[i]
		i++
		var v uint64
		var err error
		switch {
		case t == "true":
			v = 1
		case t == "false":
		case strings.HasPrefix(t, "#x"):
			v, err = strconv.ParseUint(t[2:], 16, 64)
		case strings.HasPrefix(t, "#b"):
			v, err = strconv.ParseUint(t[2:], 2, 64)
		case t == "_" && i < len(f):
			v, err = strconv.ParseUint(strings.TrimPrefix(f[i], "bv"), 10, 64)
			i += 2
		default:
			err = fmt.Errorf("value %q", t)
		}
		if err != nil {
			return nil, err
		}
		res = append(res, v)
	}
	if len(res) != n {
		return nil, fmt.Errorf("got %d values, want %d: %s", len(res), n, s)
	}
	return res, nil
}

type Solver struct {
	main  *proc
	alt   *proc
	cache *queryCache
	st    *SolverStats
	cross bool // ask the second solver too
	cnt   int
	errs  *errLog
}

type errLog struct {
	mu sync.Mutex
	s  []string
}

func (e *errLog) add(s string) {
	e.mu.Lock()
	if len(e.s) < 20 {
		e.s = append(e.s, s)
	}
	e.mu.Unlock()
}

func newSolver(c *queryCache, st *SolverStats, cross bool, el *errLog) *Solver {
	s := &Solver{cache: c, st: st, cross: cross, errs: el}
	s.main = &proc{argv: []string{"z3", "-in", "-smt2"}, setup: "(set-option :timeout 20000)\n(set-option :model.completion true)\n"}
	s.alt = &proc{argv: []string{"cvc5", "--incremental", "--produce-models", "--tlimit-per=20000", "--lang=smt2"}, setup: "(set-logic QF_BV)\n"}
	return s
}

func (s *Solver) close() { s.main.stop(); s.alt.stop() }

// solve decides the conjunction of ts; on Sat, vals maps variable to value.
func (s *Solver) solve(ts []*Term) (Verdict, map[uint32]uint64) {
	atomic.AddInt64(&s.st.Queries, 1)
	p := newPrinter()
	for _, t := range ts {
		if t.op == OpConst {
			if t.val == 0 {
				return Unsat, nil
			}
			continue
		}
		p.assert(t)
	}
	text := p.sb.String()
	// widths matter for identity
	for _, w := range p.ws {
		p.sb.WriteByte(w)
	}
	sum := sha256.Sum256([]byte(p.sb.String()))
	var key [16]byte
	copy(key[:], sum[:16])
	e := s.cache.get(key)
	if e == nil {
		var decls strings.Builder
		names := make([]string, len(p.order))
		for i := range p.order {
			if p.ws[i] == 0 {
				names[i] = "p" + strconv.Itoa(i)
				decls.WriteString("(declare-const " + names[i] + " Bool)\n")
			} else {
				names[i] = "v" + strconv.Itoa(i)
				decls.WriteString("(declare-const " + names[i] + " (_ BitVec " + strconv.Itoa(int(p.ws[i])) + "))\n")
			}
		}
		t0 := time.Now()
		v, m, err := s.main.query(text, decls.String(), names)
		if err != nil {
			s.errs.add("z3: " + err.Error())
		}
		if v == Unknown || s.cross {
			v2, m2, err2 := s.alt.query(text, decls.String(), names)
			if err2 != nil {
				s.errs.add("cvc5: " + err2.Error())
			}
			if v == Unknown {
				v, m = v2, m2
			} else if v2 != Unknown {
				atomic.AddInt64(&s.st.Crossed, 1)
				if v2 != v {
					atomic.AddInt64(&s.st.Disagree, 1)
					s.errs.add("solvers disagree on " + text)
					v = Unknown
				}
			}
		}
		atomic.AddInt64(&s.st.Nanos, int64(time.Since(t0)))
		atomic.AddInt64(&s.st.Solved, 1)
		s.cnt++
		if s.cnt%20000 == 0 { // keep process memory bounded
			s.main.stop()
			s.alt.stop()
		}
		e = &cacheEnt{v: v, m: m, ws: p.ws}
		if v != Unknown {
			s.cache.put(key, e)
		}
	} else {
		atomic.AddInt64(&s.st.CacheHits, 1)
	}
	switch e.v {
	case Unsat:
		atomic.AddInt64(&s.st.Unsat, 1)
	case Sat:
		atomic.AddInt64(&s.st.Sat, 1)
		vals := make(map[uint32]uint64, len(p.order))
		for i, o := range p.order {
			vals[o] = e.m[i]
		}
		return Sat, vals
	default:
		atomic.AddInt64(&s.st.Unknown, 1)
	}
	return e.v, nil
}
