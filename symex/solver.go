package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type satResult int

const (
	resUnsat satResult = iota
	resSat
	resUnknown
)

type cacheEntry struct {
	res   satResult
	vars  []int32
	model []uint64
}

// Solver drives one incremental SMT solver process. Queries are conjunctions of (sliced)
// boolean terms; answers are cached by the set of terms.
type Solver struct {
	bd      *Builder
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	wr      *bufio.Writer
	cache   map[string]*cacheEntry
	stats   SolverStats
	prog    string
	args    []string
	logExp  []satResult
	started int
	decl    *strings.Builder // thorough: the first queries, for the second solver
	full    bool
}

type SolverStats struct {
	Queries   int64
	CacheHits int64
	Sat       int64
	Unsat     int64
	Unknown   int64
	Time      time.Duration
}

func (s *SolverStats) add(o SolverStats) {
	s.Queries += o.Queries
	s.CacheHits += o.CacheHits
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Time += o.Time
}

func NewSolver(bd *Builder, prog string, args ...string) (*Solver, error) {
	s := &Solver{bd: bd, cache: map[string]*cacheEntry{}, prog: prog, args: args}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.prog, s.args...)
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.wr = bufio.NewWriterSize(s.in, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.started++
	s.wr.WriteString("(set-option :produce-models true)\n(set-option :timeout 20000)\n(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check decides the conjunction of cs. On sat, the values of the variables occurring in cs are
// returned.
func (s *Solver) Check(cs []*Expr) *cacheEntry {
	// canonical key
	ids := make([]uint32, 0, len(cs))
	for _, c := range cs {
		if c.isConst() {
			if c.k == 0 {
				return &cacheEntry{res: resUnsat}
			}
			continue
		}
		ids = append(ids, c.id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var kb []byte
	for _, id := range ids {
		kb = append(kb, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
	}
	if e, ok := s.cache[string(kb)]; ok {
		s.stats.CacheHits++
		return e
	}
	e := s.query(cs)
	s.cache[string(kb)] = e
	return e
}

func (s *Solver) query(cs []*Expr) *cacheEntry {
	t0 := time.Now()
	defer func() { s.stats.Time += time.Since(t0) }()
	s.stats.Queries++
	var defs strings.Builder
	var q strings.Builder
	var vars []int32
	q.WriteString("(push 1)\n")
	for _, c := range cs {
		t := c.smt(&defs)
		q.WriteString("(assert ")
		q.WriteString(t)
		q.WriteString(")\n")
		vars = mergeVars(vars, c.vars)
	}
	q.WriteString("(check-sat)\n")
	s.wr.WriteString(defs.String())
	s.wr.WriteString(q.String())
	log := s.decl != nil && !s.full
	if log {
		s.decl.WriteString(defs.String())
		s.decl.WriteString(q.String())
		s.decl.WriteString("(pop 1)\n")
	}
	if err := s.wr.Flush(); err != nil {
		return s.fail(err)
	}
	line, err := s.readLine()
	if err != nil {
		return s.fail(err)
	}
	e := &cacheEntry{}
	switch line {
	case "sat":
		e.res = resSat
		s.stats.Sat++
	case "unsat":
		e.res = resUnsat
		s.stats.Unsat++
	default:
		e.res = resUnknown
		s.stats.Unknown++
	}
	if log {
		s.logExp = append(s.logExp, e.res)
		s.full = len(s.logExp) >= 300 || s.decl.Len() > 4<<20
	}
	if e.res == resSat && len(vars) > 0 {
		// ask for the values
		names := map[int32]string{}
		var walk func(x *Expr)
		seen := map[*Expr]bool{}
		walk = func(x *Expr) {
			if x == nil || seen[x] || len(x.vars) == 0 {
				return
			}
			seen[x] = true
			if x.op == OpVar {
				names[x.vars[0]] = varText(x)
				return
			}
			walk(x.a)
			walk(x.b)
			walk(x.c)
		}
		for _, c := range cs {
			walk(c)
		}
		s.wr.WriteString("(get-value (")
		for _, v := range vars {
			s.wr.WriteString(names[v])
			s.wr.WriteByte(' ')
		}
		s.wr.WriteString("))\n(pop 1)\n")
		if err := s.wr.Flush(); err != nil {
			return s.fail(err)
		}
		txt, err := s.readSexp()
		if err != nil {
			return s.fail(err)
		}
		e.vars = vars
		e.model = make([]uint64, len(vars))
		if err := parseValues(txt, e.model); err != nil {
			return s.fail(err)
		}
	} else {
		s.wr.WriteString("(pop 1)\n")
	}
	return e
}

func (s *Solver) fail(err error) *cacheEntry {
	s.full = true
	s.stats.Unknown++
	fmt.Fprintln(errw, "solver:", err)
	// restart: forget the texts, as the new process knows no definition
	s.Close()
	for _, e := range s.bd.tab {
		e.text = ""
	}
	if s.started < 20 {
		s.start()
	}
	return &cacheEntry{res: resUnknown}
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			return "", fmt.Errorf("%s", l)
		}
		return l, nil
	}
}

func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if c == '(' {
			depth++
		}
		if depth > 0 {
			b.WriteByte(c)
		}
		if c == ')' {
			depth--
			if depth == 0 {
				t := b.String()
				if strings.HasPrefix(t, "(error") {
					return "", fmt.Errorf("%s", t)
				}
				return t, nil
			}
		}
	}
}

// parseValues reads ((name val) (name val) ...)
func parseValues(t string, out []uint64) error {
	t = strings.TrimSpace(t)
	t = t[1 : len(t)-1]
	i := 0
	for n := range out {
		j := strings.IndexByte(t[i:], '(')
		if j < 0 {
			return fmt.Errorf("bad model: %s", t)
		}
		i += j + 1
		depth := 1
		st := i
		for depth > 0 {
			if t[i] == '(' {
				depth++
			}
			if t[i] == ')' {
				depth--
			}
			i++
		}
		f := t[st : i-1]
		sp := strings.IndexAny(f, " \n")
		v := strings.TrimSpace(f[sp+1:])
		switch {
		case v == "true":
			out[n] = 1
		case v == "false":
			out[n] = 0
		case strings.HasPrefix(v, "#x"):
			x, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return err
			}
			out[n] = x
		case strings.HasPrefix(v, "#b"):
			x, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return err
			}
			out[n] = x
		case strings.HasPrefix(v, "(_ bv"):
			x, err := strconv.ParseUint(strings.Fields(v[5:])[0], 10, 64)
			if err != nil {
				return err
			}
			out[n] = x
		default:
			return fmt.Errorf("bad value %q", v)
		}
	}
	return nil
}
