package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// SMT-LIB back end: one long-lived z3 process per machine for the incremental
// queries, one-shot processes of other solvers as fallback.

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN int
	Cached                          int
	Tables                          int
	Fallbacks                       int
	Time                            time.Duration
	Max                             time.Duration
}

func (a *SolverStats) add(b SolverStats) {
	a.Queries += b.Queries
	a.SatN += b.SatN
	a.UnsatN += b.UnsatN
	a.UnknownN += b.UnknownN
	a.Cached += b.Cached
	a.Tables += b.Tables
	a.Fallbacks += b.Fallbacks
	a.Time += b.Time
	if b.Max > a.Max {
		a.Max = b.Max
	}
}

type Solver struct {
	tc      *TC
	cmd     *exec.Cmd
	in      *bufio.Writer
	pipe    io.WriteCloser
	out     *bufio.Reader
	emitted map[uint32]bool
	nq      int
	stats   SolverStats
	cache   map[string]cacheEnt
	timeout int // ms
}

type cacheEnt struct {
	res  Res
	vars []*Term
	vals []uint64
}

func NewSolver(tc *TC) *Solver {
	return &Solver{tc: tc, cache: map[string]cacheEnt{}, timeout: 4000}
}

func (s *Solver) start() {
	s.emitted = map[uint32]bool{}
	s.nq = 0
	cmd := exec.Command("z3", "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(engErr("cannot start z3: " + err.Error()))
	}
	s.cmd = cmd
	s.pipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.pipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(w uint8, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func termName(t *Term) string {
	if t.op == OConst {
		return constSMT(t.w, t.val)
	}
	if t.op == OVar {
		return "v" + strconv.Itoa(t.x.idx)
	}
	return "t" + strconv.Itoa(int(t.id))
}

func fpOf(w uint8, s string) string {
	if w == 32 {
		return "((_ to_fp 8 24) " + s + ")"
	}
	return "((_ to_fp 11 53) " + s + ")"
}

// writeDefs emits definitions for t (children first). With realFP unset, floating
// point arithmetic is left uninterpreted (an over-approximation).
func writeDefs(w *bufio.Writer, t *Term, seen map[uint32]bool, realFP bool) {
	if t.op == OConst || seen[t.id] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		x := f.t.x
		var ch *Term
		for f.i < 3 && ch == nil {
			switch f.i {
			case 0:
				ch = x.a
			case 1:
				ch = x.b
			case 2:
				ch = x.c
			}
			f.i++
			if ch != nil && (ch.op == OConst || seen[ch.id]) {
				ch = nil
			}
		}
		if ch != nil {
			st = append(st, fr{ch, 0})
			continue
		}
		tt := f.t
		st = st[:len(st)-1]
		if seen[tt.id] {
			continue
		}
		seen[tt.id] = true
		emit1(w, tt, realFP)
	}
}

func emit1(w *bufio.Writer, t *Term, realFP bool) {
	x := t.x
	if t.op == OVar {
		fmt.Fprintf(w, "(declare-const %s %s)\n", termName(t), sortOf(t.w))
		return
	}
	n := termName(t)
	if isFPOp(t.op) {
		if !realFP {
			fmt.Fprintf(w, "(declare-const %s %s)\n", n, sortOf(t.w))
			return
		}
		a := termName(x.a)
		var e string
		switch t.op {
		case OFAdd, OFSub, OFMul, OFDiv:
			op := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
			e = fmt.Sprintf("(%s RNE %s %s)", op, fpOf(t.w, a), fpOf(t.w, termName(x.b)))
		case OFCvt:
			k := "((_ to_fp 11 53) RNE "
			if t.w == 32 {
				k = "((_ to_fp 8 24) RNE "
			}
			e = k + fpOf(x.a.w, a) + ")"
		case OFFromS, OFFromU:
			k := "to_fp"
			if t.op == OFFromU {
				k = "to_fp_unsigned"
			}
			sz := "11 53"
			if t.w == 32 {
				sz = "8 24"
			}
			e = fmt.Sprintf("((_ %s %s) RNE %s)", k, sz, a)
		case OFToS, OFToU:
			k := "fp.to_sbv"
			if t.op == OFToU {
				k = "fp.to_ubv"
			}
			fmt.Fprintf(w, "(define-fun %s () %s ((_ %s %d) RTZ %s))\n", n, sortOf(t.w), k, t.w, fpOf(x.a.w, a))
			return
		}
		// bit pattern of the result, defined by its floating point reading
		fmt.Fprintf(w, "(declare-const %s %s)\n(assert (= %s %s))\n", n, sortOf(t.w), fpOf(t.w, n), e)
		return
	}
	var e string
	switch t.op {
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, termName(x.a))
	case OZExt:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-x.a.w, termName(x.a))
	case OSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-x.a.w, termName(x.a))
	case OMulHi:
		e = fmt.Sprintf("((_ extract 127 64) (bvmul ((_ zero_extend 64) %s) ((_ zero_extend 64) %s)))", termName(x.a), termName(x.b))
	default:
		op, ok := opNames[t.op]
		if !ok {
			panic(engErr("no smt op"))
		}
		e = "(" + op + " " + termName(x.a)
		if x.b != nil {
			e += " " + termName(x.b)
		}
		if x.c != nil {
			e += " " + termName(x.c)
		}
		e += ")"
	}
	fmt.Fprintf(w, "(define-fun %s () %s %s)\n", n, sortOf(t.w), e)
}

func rangeSMT(v *Term) string {
	if v.w == 0 || v.x.max >= mask(v.w) {
		return ""
	}
	return fmt.Sprintf("(assert (bvule %s %s))\n", termName(v), constSMT(v.w, v.x.max))
}

// Check decides the conjunction of cs. On Sat the returned values are for vars, the
// variables occurring in cs.
func (s *Solver) Check(cs []*Term) (Res, []*Term, []uint64) {
	for _, c := range cs {
		if c.isC() && c.val == 0 {
			return Unsat, nil, nil
		}
	}
	key := cacheKey(cs)
	if e, ok := s.cache[key]; ok {
		s.stats.Cached++
		return e.res, e.vars, e.vals
	}
	var sup bitset
	for _, c := range cs {
		sup = sup.union(c.sup())
	}
	var vars []*Term
	for i, v := range s.tc.vars {
		if sup.has(i) {
			vars = append(vars, v)
		}
	}
	t0 := time.Now()
	res, vals, ok := s.query(cs, vars)
	if !ok {
		// solver died: restart once
		s.Close()
		res, vals, ok = s.query(cs, vars)
		if !ok {
			s.Close()
			res = Unknown
		}
	}
	if res == Sat && !s.modelOK(cs, vars, vals) {
		// only possible with abstracted floating point
		res, vals = oneShot(s.tc, cs, vars, 10*time.Second)
		s.stats.Fallbacks++
		if res == Sat && !s.modelOK(cs, vars, vals) {
			res = Unknown
		}
	}
	d := time.Since(t0)
	s.stats.Time += d
	if d > s.stats.Max {
		s.stats.Max = d
	}
	s.stats.Queries++
	switch res {
	case Sat:
		s.stats.SatN++
	case Unsat:
		s.stats.UnsatN++
	default:
		s.stats.UnknownN++
	}
	if len(s.cache) > 400000 {
		s.cache = map[string]cacheEnt{}
	}
	s.cache[key] = cacheEnt{res, vars, vals}
	return res, vars, vals
}

// certify has the solver confirm that each condition agrees with its table on every value of its variable.
func (s *Solver) certify(ts []tableEnt) string {
	t0 := time.Now()
	res := Unknown
	for try := 0; try < 2 && res == Unknown; try++ {
		if s.cmd == nil || s.nq > 30000 || len(s.emitted) > 300000 {
			s.Close()
			s.start()
		}
		s.nq++
		w := s.in
		vars := map[int]*Term{}
		for _, e := range ts {
			vars[e.v.x.idx] = e.v
			writeDefs(w, e.v, s.emitted, false)
			writeDefs(w, e.t, s.emitted, false)
		}
		w.WriteString("(push 1)\n")
		for _, v := range vars {
			w.WriteString(rangeSMT(v))
		}
		w.WriteString("(assert (or false")
		for _, e := range ts {
			fmt.Fprintf(w, " (xor %s %s)", termName(e.t), setSMT(e.v, e.set))
		}
		w.WriteString("))\n(check-sat)\n")
		if w.Flush() == nil {
			if line, err := s.readLine(); err == nil {
				switch line {
				case "unsat":
					res = Unsat
				case "sat":
					res = Sat
				case "unknown", "timeout":
				default:
					panic(engErr("z3: " + line))
				}
				w.WriteString("(pop 1)\n")
				continue
			}
		}
		s.Close()
	}
	s.stats.Time += time.Since(t0)
	s.stats.Queries++
	switch res {
	case Unsat:
		s.stats.UnsatN++
		s.stats.Tables += len(ts)
		return ""
	case Sat:
		return "engine: a table of a condition differs from the condition"
	}
	s.stats.UnknownN++
	return "limit: a table of a condition was not confirmed by the solver"
}

func (s *Solver) modelOK(cs []*Term, vars []*Term, vals []uint64) bool {
	m := make(Model, len(s.tc.vars))
	for i, v := range vars {
		m[v.x.idx] = vals[i]
	}
	s.tc.BeginEval()
	defer s.tc.BeginEval() // the memo belongs to this model
	for _, c := range cs {
		if s.tc.Eval(c, m) != 1 {
			return false
		}
	}
	return true
}

func cacheKey(cs []*Term) string {
	ids := make([]uint32, 0, len(cs))
	for _, c := range cs {
		if c.isC() {
			continue
		}
		ids = append(ids, c.id)
	}
	sortU32(ids)
	b := make([]byte, 0, len(ids)*4)
	for _, i := range ids {
		b = append(b, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	return string(b)
}

func sortU32(a []uint32) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func (s *Solver) query(cs []*Term, vars []*Term) (Res, []uint64, bool) {
	if s.cmd == nil || s.nq > 30000 || len(s.emitted) > 300000 {
		s.Close()
		s.start()
	}
	s.nq++
	w := s.in
	for _, v := range vars {
		writeDefs(w, v, s.emitted, false)
	}
	for _, c := range cs {
		writeDefs(w, c, s.emitted, false)
	}
	w.WriteString("(push 1)\n")
	for _, v := range vars {
		w.WriteString(rangeSMT(v))
	}
	for _, c := range cs {
		w.WriteString("(assert ")
		w.WriteString(termName(c))
		w.WriteString(")\n")
	}
	w.WriteString("(check-sat)\n")
	if w.Flush() != nil {
		return Unknown, nil, false
	}
	line, err := s.readLine()
	if err != nil {
		return Unknown, nil, false
	}
	var vals []uint64
	res := Unknown
	switch line {
	case "unsat":
		res = Unsat
	case "sat":
		res = Sat
		if len(vars) > 0 {
			w.WriteString("(get-value (")
			for _, v := range vars {
				w.WriteString(termName(v))
				w.WriteByte(' ')
			}
			w.WriteString("))\n")
			if w.Flush() != nil {
				return Unknown, nil, false
			}
			txt, err := s.readSexp()
			if err != nil {
				return Unknown, nil, false
			}
			vals, err = parseVals(txt, len(vars))
			if err != nil {
				return Unknown, nil, false
			}
		}
	case "unknown", "timeout":
	default:
		if strings.HasPrefix(line, "(error") {
			panic(engErr("z3: " + line))
		}
		return Unknown, nil, false
	}
	w.WriteString("(pop 1)\n")
	return res, vals, true
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		b.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 && strings.TrimSpace(b.String()) != "" {
			return b.String(), nil
		}
	}
}

func parseVals(txt string, n int) ([]uint64, error) {
	if strings.Contains(txt, "error") {
		return nil, fmt.Errorf("solver: %s", txt)
	}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\r' })
	if len(f) != 2*n {
		return nil, fmt.Errorf("solver values: %q", txt)
	}
	vals := make([]uint64, n)
	for i := 0; i < n; i++ {
		v := f[2*i+1]
		var u uint64
		var err error
		switch {
		case v == "true":
			u = 1
		case v == "false":
			u = 0
		case strings.HasPrefix(v, "#x"):
			u, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			u, err = strconv.ParseUint(v[2:], 2, 64)
		default:
			err = fmt.Errorf("solver value %q", v)
		}
		if err != nil {
			return nil, err
		}
		vals[i] = u
	}
	return vals, nil
}

// script renders a complete SMT-LIB problem.
func script(tc *TC, cs []*Term, vars []*Term, logic string) []byte {
	var b bytes.Buffer
	w := bufio.NewWriter(&b)
	fmt.Fprintf(w, "(set-option :produce-models true)\n(set-logic %s)\n", logic)
	seen := map[uint32]bool{}
	for _, v := range vars {
		writeDefs(w, v, seen, true)
		w.WriteString(rangeSMT(v))
	}
	for _, c := range cs {
		writeDefs(w, c, seen, true)
	}
	for _, c := range cs {
		fmt.Fprintf(w, "(assert %s)\n", termName(c))
	}
	w.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		w.WriteString("(get-value (")
		for _, v := range vars {
			w.WriteString(termName(v))
			w.WriteByte(' ')
		}
		w.WriteString("))\n")
	}
	w.Flush()
	return b.Bytes()
}

// oneShot races several solvers on one query.
func oneShot(tc *TC, cs []*Term, vars []*Term, limit time.Duration) (Res, []uint64) {
	fp := false
	for _, c := range cs {
		if !c.isC() && c.x.fp {
			fp = true
		}
	}
	logic := "QF_BV"
	if fp {
		logic = "QF_BVFP"
	}
	txt := script(tc, cs, vars, logic)
	type ans struct {
		r Res
		v []uint64
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmds := [][]string{{"z3", "-in", "-smt2"}, {"cvc5", "--lang=smt2", "-"}}
	if !fp {
		cmds = append(cmds, []string{"cvc5", "--lang=smt2", "--solve-bv-as-int=sum", "-"}, []string{"z3-new", "-in", "-smt2"})
	}
	ch := make(chan ans, len(cmds))
	for _, c := range cmds {
		go func(c []string) {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = bytes.NewReader(txt)
			out, _ := cmd.Output()
			o := strings.TrimSpace(string(out))
			switch {
			case strings.HasPrefix(o, "unsat"):
				// a get-value after unsat prints an error line; that one is expected
				ch <- ans{Unsat, nil}
			case strings.HasPrefix(o, "sat"):
				if len(vars) == 0 {
					ch <- ans{Sat, nil}
					return
				}
				v, err := parseVals(o[3:], len(vars))
				if err != nil {
					ch <- ans{Unknown, nil}
					return
				}
				ch <- ans{Sat, v}
			default:
				ch <- ans{Unknown, nil}
			}
		}(c)
	}
	for range cmds {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.v
		}
	}
	return Unknown, nil
}
