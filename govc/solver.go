package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unknown Res = iota
	Sat
	Unsat
)

func (r Res) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type PC struct {
	parent *PC
	t      *Term
	depth  int
}

func (p *PC) add(t *Term) *PC {
	d := 1
	if p != nil {
		d = p.depth + 1
	}
	return &PC{parent: p, t: t, depth: d}
}

func (p *PC) list() []*Term {
	var out []*Term
	for q := p; q != nil; q = q.parent {
		out = append(out, q.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *Solver) pairAxiom(a, b int, seen map[int]bool, axs *[]*Term) {
	if e := s.c.congruence(a, b); e != nil {
		*axs = append(*axs, e)
	}
}

type level struct {
	keyed []int
	drop  bool
	pc    *PC
	ax    map[int]bool
}

type Solver struct {
	c        *Ctx
	cmd      *exec.Cmd
	in       *bufio.Writer
	inPipe   io.WriteCloser
	out      *bufio.Reader
	defined  map[int]bool
	decl     map[string]bool
	stack    []level
	queries  int
	time     time.Duration
	byBack   map[string]int
	dead     bool
	lastDrop bool
	lite     bool    // leaves out everything with a quantifier
	liteS    *Solver // the quantifier-free companion
}

// quantified tells whether a term contains a quantifier.
func (c *Ctx) quantified(t *Term) bool {
	if len(t.args) == 0 {
		return false
	}
	if t.op == OForall {
		return true
	}
	if v, ok := c.quantC[t.id]; ok {
		return v
	}
	v := false
	for _, a := range t.args {
		if c.quantified(a) {
			v = true
			break
		}
	}
	c.quantC[t.id] = v
	return v
}

// Lite is Check without the quantified facts: Unsat is definite, Sat is not.
func (s *Solver) Lite(pc *PC, extra []*Term, ms int) Res {
	if s.liteS == nil {
		s.liteS = &Solver{c: s.c, byBack: map[string]int{}, lite: true}
		s.liteS.start()
	}
	q0, t0 := s.liteS.queries, s.liteS.time
	r, _ := s.liteS.Check(pc, extra, ms, nil)
	s.queries += s.liteS.queries - q0
	s.time += s.liteS.time - t0
	return r
}

// Prove: Unsat as soon as the quantifier-free part suffices.
func (s *Solver) Prove(pc *PC, extra []*Term, ms int) Res {
	l := ms
	if l > 3000 {
		l = 3000
	}
	r := s.Lite(pc, extra, l)
	if r == Unsat {
		return r
	}
	if r == Sat && !s.liteS.dropped() {
		return r
	}
	r, _ = s.Check(pc, extra, ms, nil)
	return r
}

// dropped: something was left out for the last query.
func (s *Solver) dropped() bool {
	for i := range s.stack {
		if s.stack[i].drop {
			return true
		}
	}
	return s.lastDrop
}

const preamble = `(set-option :global-declarations true)
(set-option :print-success false)
(declare-sort Str 0)
(declare-datatypes ((Any 0)) (((any_nil) (any_bool (u_bool Bool)) (any_int (u_int (_ BitVec 64))) (any_int8 (u_int8 (_ BitVec 8))) (any_int16 (u_int16 (_ BitVec 16))) (any_int32 (u_int32 (_ BitVec 32))) (any_int64 (u_int64 (_ BitVec 64))) (any_uint (u_uint (_ BitVec 64))) (any_uint8 (u_uint8 (_ BitVec 8))) (any_uint16 (u_uint16 (_ BitVec 16))) (any_uint32 (u_uint32 (_ BitVec 32))) (any_uint64 (u_uint64 (_ BitVec 64))) (any_float32 (u_float32 (_ BitVec 32))) (any_float64 (u_float64 (_ BitVec 64))) (any_string (u_string Str)) (any_obj (u_obj (_ BitVec 64))))))
`

var z3Path = findBin("z3-new", "/opt/veriftools/bin/z3-new", "z3")

func findBin(names ...string) string {
	for _, n := range names {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
		if _, err := os.Stat(n); err == nil {
			return n
		}
	}
	return names[0]
}

func NewSolver(c *Ctx) *Solver {
	s := &Solver{c: c, byBack: map[string]int{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3Path, "-in", "-smt2")
	w, _ := s.cmd.StdinPipe()
	r, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	s.inPipe = w
	if lf := os.Getenv("GOVC_LOG"); lf != "" {
		f, _ := os.Create(lf)
		s.in = bufio.NewWriterSize(io.MultiWriter(w, f), 1<<16)
	} else {
		s.in = bufio.NewWriterSize(w, 1<<16)
	}
	s.out = bufio.NewReaderSize(r, 1<<16)
	if err := s.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start z3:", err)
		s.dead = true
		return
	}
	s.defined = map[int]bool{}
	s.decl = map[string]bool{}
	s.stack = []level{{ax: map[int]bool{}}}
	s.in.WriteString(preamble)
}

func (s *Solver) Close() {
	if s.liteS != nil {
		s.liteS.Close()
	}
	if s.cmd != nil && s.cmd.Process != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

// emitter writes declarations/definitions for a term
type emitter struct {
	w       io.Writer
	defined map[int]bool
	decl    map[string]bool
}

func (e *emitter) ref(t *Term) string {
	switch t.op {
	case OConst, OVar:
		return t.body(nil)
	case OApp:
		if len(t.args) == 0 {
			return t.body(nil)
		}
	case ORaw:
		if len(t.args) == 0 {
			return t.name
		}
	}
	if t.bound || t.op == OForall {
		return t.bodyWith(e.ref)
	}
	return "t" + strconv.Itoa(t.id)
}

func (t *Term) bodyWith(ref func(*Term) string) string {
	if t.op == OForall {
		i := strings.IndexByte(t.name, ' ')
		return fmt.Sprintf("(forall ((|%s| %s)) %s)", t.name[:i], t.name[i+1:], ref(t.args[0]))
	}
	return t.body(ref)
}

func (e *emitter) define(t *Term) {
	if e.defined[t.id] {
		return
	}
	e.defined[t.id] = true
	for _, a := range t.args {
		e.define(a)
	}
	switch t.op {
	case OConst:
		return
	case OVar:
		fmt.Fprintf(e.w, "(declare-const |%s| %s)\n", t.name, t.sort)
		return
	case OApp:
		if !e.decl[t.name] {
			e.decl[t.name] = true
			var ss []string
			for _, a := range t.args {
				ss = append(ss, a.sort.String())
			}
			fmt.Fprintf(e.w, "(declare-fun |%s| (%s) %s)\n", t.name, strings.Join(ss, " "), t.sort)
		}
		if len(t.args) == 0 {
			return
		}
	case ORaw:
		if len(t.args) == 0 {
			return
		}
	}
	if t.bound || t.op == OForall {
		return
	}
	fmt.Fprintf(e.w, "(define-fun t%d () %s %s)\n", t.id, t.sort, t.bodyWith(e.ref))
}

// collectAxioms finds axioms attached to subterms not yet in scope.
func (s *Solver) collectAxioms(t *Term, seen map[int]bool, out *[]*Term) {
	if seen[t.id] {
		return
	}
	for i := range s.stack {
		if s.stack[i].ax[t.id] {
			return
		}
	}
	seen[t.id] = true
	for _, a := range t.args {
		s.collectAxioms(a, seen, out)
	}
	for _, ax := range s.c.axioms[t.id] {
		if s.c.heavy[ax.id] {
			continue
		}
		*out = append(*out, ax)
		s.collectAxioms(ax, seen, out)
	}
}

func (s *Solver) assertAt(t *Term) {
	var axs []*Term
	seen := map[int]bool{}
	s.collectAxioms(t, seen, &axs)
	var ks []int
	for id := range seen {
		if s.c.keyed[id] != nil {
			ks = append(ks, id)
		}
	}
	sort.Ints(ks)
	for i, a := range ks {
		for _, b := range ks[:i] {
			s.pairAxiom(a, b, seen, &axs)
		}
		for j := range s.stack {
			for _, b := range s.stack[j].keyed {
				s.pairAxiom(a, b, seen, &axs)
			}
		}
	}
	tl := &s.stack[len(s.stack)-1]
	tl.keyed = append(tl.keyed, ks...)
	top := tl.ax
	for id := range seen {
		top[id] = true
	}
	e := &emitter{s.in, s.defined, s.decl}
	all := append(axs, t)
	if s.lite {
		var keep []*Term
		var split func(a *Term)
		split = func(a *Term) {
			if !s.c.quantified(a) {
				keep = append(keep, a)
			} else if a.op == OAnd {
				for _, x := range a.args {
					split(x)
				}
			} else {
				tl.drop = true
			}
		}
		for _, a := range all {
			split(a)
		}
		all = keep
	}
	for _, a := range all {
		e.define(a)
		fmt.Fprintf(s.in, "(assert %s)\n", e.ref(a))
	}
}

func (s *Solver) sync(pc *PC) {
	// target chain
	var chain []*PC
	for q := pc; q != nil; q = q.parent {
		chain = append(chain, q)
	}
	for i, j := 0, len(chain)-1; i < j; i, j = i+1, j-1 {
		chain[i], chain[j] = chain[j], chain[i]
	}
	k := 0
	for k < len(chain) && k+1 < len(s.stack) && s.stack[k+1].pc == chain[k] {
		k++
	}
	if n := len(s.stack) - 1 - k; n > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", n)
		s.stack = s.stack[:k+1]
	}
	for ; k < len(chain); k++ {
		fmt.Fprintf(s.in, "(push 1)\n")
		s.stack = append(s.stack, level{pc: chain[k], ax: map[int]bool{}})
		s.assertAt(chain[k].t)
	}
}

func (s *Solver) readLine(d time.Duration) (string, bool) {
	type rl struct {
		s string
		e error
	}
	ch := make(chan rl, 1)
	go func() {
		l, e := s.out.ReadString('\n')
		ch <- rl{l, e}
	}()
	select {
	case r := <-ch:
		if r.e != nil {
			return "", false
		}
		return strings.TrimSpace(r.s), true
	case <-time.After(d):
		return "", false
	}
}

// Check asks whether pc ∧ extra is satisfiable. If vals is non-nil and the
// answer is sat the values of these terms are returned.
func (s *Solver) Check(pc *PC, extra []*Term, ms int, vals []*Term) (Res, map[int]string) {
	for _, e := range extra {
		if e.isFalse() {
			return Unsat, nil
		}
	}
	if s.dead {
		return Unknown, nil
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.time += d
		if os.Getenv("GOVC_SLOW") != "" && d > slowD {
			buf := make([]byte, 4000)
			fmt.Fprintln(os.Stderr, "slow query", d, string(buf[:runtime.Stack(buf, false)]))
			for _, e := range extra {
				fmt.Fprintln(os.Stderr, "   ", trunc(e.full(), 600))
			}
		}
	}()
	s.queries++
	if s.queries%4000 == 0 {
		s.restart()
	}
	s.sync(pc)
	s.in.WriteString("(push 1)\n")
	s.stack = append(s.stack, level{ax: map[int]bool{}})
	for _, e := range extra {
		s.assertAt(e)
	}
	if len(vals) > 0 {
		e := &emitter{s.in, s.defined, s.decl}
		for _, v := range vals {
			e.define(v)
		}
	}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(check-sat)\n", ms)
	s.in.Flush()
	res := Unknown
	for {
		l, ok := s.readLine(time.Duration(ms)*time.Millisecond*2 + 5*time.Second)
		if !ok {
			s.restart()
			return Unknown, nil
		}
		if l == "sat" {
			res = Sat
			break
		}
		if l == "unsat" {
			res = Unsat
			break
		}
		if l == "unknown" || l == "timeout" {
			break
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "z3:", l)
			if os.Getenv("GOVC_Z3ERR") != "" {
				panic(l)
			}
			continue
		}
	}
	var m map[int]string
	if res == Sat && len(vals) > 0 {
		m = s.getValues(vals)
	}
	s.in.WriteString("(pop 1)\n")
	s.lastDrop = s.stack[len(s.stack)-1].drop
	s.stack = s.stack[:len(s.stack)-1]
	return res, m
}

func (s *Solver) getValues(vals []*Term) map[int]string {
	e := &emitter{s.in, s.defined, s.decl}
	m := map[int]string{}
	for i := 0; i < len(vals); i += 200 {
		j := i + 200
		if j > len(vals) {
			j = len(vals)
		}
		s.in.WriteString("(get-value (")
		for _, v := range vals[i:j] {
			s.in.WriteString(e.ref(v) + " ")
		}
		s.in.WriteString("))\n")
		s.in.Flush()
		txt := ""
		depth := 0
		started := false
		for {
			l, ok := s.readLine(10 * time.Second)
			if !ok {
				s.restart()
				return m
			}
			txt += l + " "
			inq := false
			for _, ch := range l {
				if ch == '|' {
					inq = !inq
				}
				if inq {
					continue
				}
				if ch == '(' {
					depth++
					started = true
				}
				if ch == ')' {
					depth--
				}
			}
			if started && depth <= 0 {
				break
			}
		}
		sx := parseSexp(txt)
		if sx == nil {
			continue
		}
		for k, p := range sx.list {
			if i+k < len(vals) && len(p.list) == 2 {
				m[vals[i+k].id] = p.list[1].String()
			}
		}
	}
	return m
}

// ---------------------------------------------------------------- s-expressions

type sexp struct {
	atom string
	list []*sexp
	isL  bool
}

func (s *sexp) String() string {
	if !s.isL {
		return s.atom
	}
	var p []string
	for _, x := range s.list {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

func parseSexp(t string) *sexp {
	i := 0
	var parse func() *sexp
	skip := func() {
		for i < len(t) && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t') {
			i++
		}
	}
	parse = func() *sexp {
		skip()
		if i >= len(t) {
			return nil
		}
		if t[i] == '(' {
			i++
			r := &sexp{isL: true}
			for {
				skip()
				if i >= len(t) {
					return r
				}
				if t[i] == ')' {
					i++
					return r
				}
				x := parse()
				if x == nil {
					return r
				}
				r.list = append(r.list, x)
			}
		}
		j := i
		if t[i] == '|' {
			i++
			for i < len(t) && t[i] != '|' {
				i++
			}
			i++
			return &sexp{atom: t[j:i]}
		}
		for i < len(t) && t[i] != ' ' && t[i] != '(' && t[i] != ')' {
			i++
		}
		return &sexp{atom: t[j:i]}
	}
	return parse()
}

func parseBV(v string) (uint64, bool) {
	switch {
	case v == "true":
		return 1, true
	case v == "false":
		return 0, true
	case strings.HasPrefix(v, "#x"):
		u, e := strconv.ParseUint(v[2:], 16, 64)
		return u, e == nil
	case strings.HasPrefix(v, "#b"):
		u, e := strconv.ParseUint(v[2:], 2, 64)
		return u, e == nil
	case strings.HasPrefix(v, "(_ bv"):
		f := strings.Fields(v[5:])
		u, e := strconv.ParseUint(f[0], 10, 64)
		return u, e == nil
	}
	return 0, false
}

// ---------------------------------------------------------------- standalone queries

func (s *Solver) script(pc *PC, extra []*Term) string {
	var b bytes.Buffer
	b.WriteString("(set-logic ALL)\n")
	b.WriteString(strings.Replace(preamble, "(set-option :global-declarations true)\n(set-option :print-success false)\n", "", 1))
	e := &emitter{&b, map[int]bool{}, map[string]bool{}}
	all := append(append([]*Term{}, pc.list()...), extra...)
	seen := map[int]bool{}
	var axs []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			walk(a)
		}
		for _, ax := range s.c.axioms[t.id] {
			axs = append(axs, ax)
			walk(ax)
		}
	}
	for _, t := range all {
		walk(t)
	}
	var ks []int
	for id := range seen {
		if s.c.keyed[id] != nil {
			ks = append(ks, id)
		}
	}
	sort.Ints(ks)
	for i, a := range ks {
		for _, b := range ks[:i] {
			s.pairAxiom(a, b, seen, &axs)
		}
	}
	for _, t := range append(axs, all...) {
		e.define(t)
		fmt.Fprintf(&b, "(assert %s)\n", e.ref(t))
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// Portfolio runs several solvers on the standalone text; the first definite answer wins.
func (s *Solver) Portfolio(pc *PC, extra []*Term, sec int) (Res, string) {
	txt := s.script(pc, extra)
	if d := os.Getenv("GOVC_DUMP"); d != "" {
		s.c.nSmtQ++
		os.WriteFile(fmt.Sprintf("%s/q%d_%d.smt2", d, os.Getpid(), s.c.nSmtQ), []byte(txt), 0644)
	}
	type ans struct {
		r Res
		b string
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sec)*time.Second)
	defer cancel()
	ch := make(chan ans, 4)
	run := func(name string, args ...string) {
		cmd := exec.CommandContext(ctx, name, args...)
		cmd.Stdin = strings.NewReader(txt)
		out, _ := cmd.Output()
		l := strings.TrimSpace(string(out))
		if i := strings.IndexByte(l, '\n'); i >= 0 {
			l = l[:i]
		}
		switch l {
		case "sat":
			ch <- ans{Sat, name}
		case "unsat":
			ch <- ans{Unsat, name}
		default:
			ch <- ans{Unknown, name}
		}
	}
	n := 2
	go run(z3Path, "-in", "-smt2", fmt.Sprintf("-T:%d", sec))
	go run("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", sec*1000), "-")
	if p, err := exec.LookPath("z3"); err == nil && p != z3Path {
		n++
		go run(p, "-in", "-smt2", fmt.Sprintf("-T:%d", sec))
	}
	for i := 0; i < n; i++ {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.b
		}
	}
	return Unknown, ""
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// Second puts a query to cvc5 alone.
func (s *Solver) Second(pc *PC, extra []*Term, sec int) Res {
	txt := s.script(pc, extra)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sec)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", sec*1000), "-")
	cmd.Stdin = strings.NewReader(txt)
	out, _ := cmd.Output()
	switch {
	case strings.HasPrefix(string(out), "unsat"):
		return Unsat
	case strings.HasPrefix(string(out), "sat"):
		return Sat
	}
	return Unknown
}

// heavyIn: the query depends on axioms that the incremental solver does not have.
func (s *Solver) heavyIn(pc *PC, extra []*Term) bool {
	if len(s.c.heavy) == 0 {
		return false
	}
	seen := map[int]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		for _, ax := range s.c.axioms[t.id] {
			if s.c.heavy[ax.id] || walk(ax) {
				return true
			}
		}
		return false
	}
	for q := pc; q != nil; q = q.parent {
		if walk(q.t) {
			return true
		}
	}
	for _, t := range extra {
		if walk(t) {
			return true
		}
	}
	return false
}

var slowD = func() time.Duration { d, _ := time.ParseDuration(os.Getenv("GOVC_SLOW")); return d }()
