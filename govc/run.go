package main

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func hash(s string) string {
	h := sha1.Sum([]byte(s))
	return hex.EncodeToString(h[:8])
}

// Oblig aggregates the instances of one named proof obligation of a contract.
type Oblig struct {
	Name    string
	Count   int
	Backend map[string]int
	Failed  int
}

type Failure struct {
	Name   string
	Msg    string
	Pos    string
	Res    string
	Abst   string
	Script []ScriptVal
	SMT    string
}

type ScriptVal struct {
	K string `json:"k"`
	V string `json:"v"`
}

type Run struct {
	seqObj     map[int]bool // modelled lists and list elements
	eng        *Engine
	c          *Ctx
	ctr        *Contract
	nextObj    int
	base       map[int]Val
	globals    map[*ssa.Global]int
	decCache   map[decKey]int
	views      map[string]*Source
	zeros      map[string]*Source
	triDone    map[string]bool
	steps      int
	paths      int
	maxPaths   int
	unroll     int
	bounded    bool
	cutPaths   int
	inline     bool            // inline everything except recursion into the target
	demoted    map[string]bool // contracts that must not be used
	useInv     bool
	quiet      int
	pure       int
	merging    int
	obls       map[string]*Oblig
	fails      []*Failure
	notes      map[string]bool
	usedC      map[string]bool
	usedM      map[string]bool
	inlined    map[string]bool
	covers     map[string]int
	returns    int
	deadline   time.Time
	ms         int
	portSec    int
	crossSec   int // thorough: every obligation is put to cvc5 as well
	failN      map[string]int
	demote     map[string]string
	loopInfo   []string
	intrp      string
	initing    bool
	choices    map[string]bool
	invMode    int
	invCol     []posConj
	invBase    *PC
	invAllowed map[token.Pos]bool
	cancel     func() bool
	usedL      map[string]bool // lemmas assumed
	ctrObj     map[int]bool    // variables of the contract itself
	specObj    map[int]bool    // variables of the specification
}

type stopRun string

func newRun(e *Engine, ctr *Contract) *Run {
	c := NewCtx()
	r := &Run{eng: e, c: c, ctr: ctr, base: map[int]Val{}, globals: map[*ssa.Global]int{}, decCache: map[decKey]int{}, views: map[string]*Source{},
		zeros: map[string]*Source{}, triDone: map[string]bool{}, maxPaths: 60000, unroll: 70, demoted: map[string]bool{}, obls: map[string]*Oblig{},
		notes: map[string]bool{}, usedC: map[string]bool{}, usedM: map[string]bool{}, inlined: map[string]bool{}, covers: map[string]int{}, ms: 8000, portSec: 60,
		failN: map[string]int{}, demote: map[string]string{}, useInv: true, ctrObj: map[int]bool{}, specObj: map[int]bool{}, usedL: map[string]bool{}}
	c.sol = NewSolver(c)
	return r
}

func (r *Run) note(s string) { r.notes[s] = true }

func (r *Run) checkBudget() {
	if !r.deadline.IsZero() && time.Now().After(r.deadline) {
		panic(stopRun("time budget exhausted"))
	}
	if r.cancel != nil && r.cancel() {
		panic(stopRun("stopped: a violation has been confirmed"))
	}
	if r.steps > 30000000 {
		panic(stopRun("step budget exhausted"))
	}
}

func (r *Run) oblAdd(name, backend string) {
	if r.quiet > 0 {
		return
	}
	o := r.obls[name]
	if o == nil {
		o = &Oblig{Name: name, Backend: map[string]int{}}
		r.obls[name] = o
	}
	o.Count++
	o.Backend[backend]++
}

// negated goal with the definitions it needs, without changing the state
func (s *State) negGoal(cond *Term) []*Term {
	n := s.c.Not(cond)
	save := s.defd
	s.defd = make(map[int]uint8, len(save))
	for k, v := range save {
		s.defd[k] = v
	}
	ds := s.defsFor(n)
	s.defd = save
	return append(ds, n)
}

// oblige generates a proof obligation. It returns whether the path goes on.
func (r *Run) oblige(s *State, name string, cond *Term, msg string) bool {
	if strings.HasPrefix(name, "safety:") && r.specDepth(s) {
		// a run-time error inside specification code in caller mode: the contract does not apply
		if f := r.contractFrame(s); f != nil && f.mode&^0x1000 == FCaller {
			if cond.isTrue() || s.decide(cond) == 1 {
				s.assume(cond)
				return true
			}
			panic(inlineReq{s, name + " in contract: " + msg})
		}
	}
	if r.quiet > 0 {
		if cond.isFalse() {
			return false
		}
		s.assume(cond)
		return cond.isTrue() || s.feasible()
	}
	if cond.isTrue() {
		r.oblAdd(name, "simplifier")
		return true
	}
	res := Sat
	neg := s.negGoal(cond)
	res = r.c.sol.Prove(s.pc, neg, r.ms)
	be := "z3-new"
	wasSat := res == Sat
	if (res == Unknown || res == Sat && r.c.sol.heavyIn(s.pc, neg)) && r.portSec > 0 {
		sec := r.portSec
		if wasSat && sec > 15 {
			sec = 15
		}
		res, be = r.c.sol.Portfolio(s.pc, neg, sec)
		if i := strings.LastIndexByte(be, '/'); i >= 0 {
			be = be[i+1:]
		}
		be += " (standalone)"
	}
	if res == Unsat {
		if r.crossSec > 0 {
			if x := r.c.sol.Second(s.pc, neg, r.crossSec); x == Sat {
				r.fail(s, name, "cvc5 disagrees with z3 on this obligation", Unknown, neg, false)
			} else if x == Unsat {
				be += "+cvc5"
			}
		}
		r.oblAdd(name, be)
		s.assume(cond)
		return true
	}
	r.fail(s, name, msg, res, neg, wasSat)
	if cond.isFalse() {
		return false
	}
	s.assume(cond)
	return s.feasible()
}

func (r *Run) fail(s *State, name, msg string, res Res, neg []*Term, try bool) {
	if r.quiet > 0 {
		return
	}
	r.oblAdd(name, "")
	r.obls[name].Failed++
	r.failN[name]++
	if r.failN[name] > 3 {
		return
	}
	f := &Failure{Name: name, Msg: msg, Pos: r.trace(s), Res: res.String(), Abst: s.abst}
	if res == Sat || try {
		f.Script = r.model(s, neg)
	}
	if f.Script == nil {
		f.SMT = trunc(r.c.sol.script(s.pc, neg), 200000)
	}
	r.fails = append(r.fails, f)
	if r.eng.verbose {
		fmt.Fprintf(os.Stderr, "  FAIL %s %s: %s [%s] %s abst=%q script=%v\n", r.ctr.Name, name, msg, f.Res, f.Pos, f.Abst, f.Script)
	}
	if len(r.fails) > 12 {
		panic(stopRun("too many failed obligations"))
	}
}

func (r *Run) trace(s *State) string {
	var p []string
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		if f.blk == nil {
			continue
		}
		pos := "?"
		ip := f.ip
		if ip >= len(f.blk.Instrs) {
			ip = len(f.blk.Instrs) - 1
		}
		for k := ip; k >= 0; k-- {
			if q := f.blk.Instrs[k].Pos(); q.IsValid() {
				ps := r.eng.fset.Position(q)
				pos = fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
				break
			}
		}
		p = append(p, fnName(f.fn)+"@"+pos)
		if len(p) > 8 {
			break
		}
	}
	return strings.Join(p, " < ")
}

// model turns the current counterexample into a replay script.
func (r *Run) model(s *State, neg []*Term) []ScriptVal {
	c := r.c
	var lens []*Term
	for _, e := range s.script {
		if q := r.entSeq(s, e); q != nil {
			lens = append(lens, q.n)
		}
	}
	extra := append([]*Term{}, neg...)
	ok := false
	var vals []*Term
	for _, e := range s.script {
		switch v := e.V.(type) {
		case *Term:
			vals = append(vals, v)
		case AnyV:
			vals = append(vals, v.t)
		}
	}
	vals = append(vals, lens...)
	if len(vals) == 0 {
		return []ScriptVal{}
	}
	var m map[int]string
	try := func(lim int64, small bool) bool {
		ex := append([]*Term{}, extra...)
		for _, l := range lens {
			if lim >= 0 {
				ex = append(ex, c.Ule(l, c.Int(lim)))
			}
		}
		if small {
			for _, e := range s.script {
				if v, ok := e.V.(*Term); ok && v.sort.K == KBV && v.sort.N == 64 && e.Kind == "int" {
					ex = append(ex, c.Ule(c.AddK(v, 16), c.Int(300)))
				}
			}
		}
		res, mm := c.sol.Check(s.pc, ex, 6000, vals)
		if res == Sat {
			m = mm
			extra = ex
			return true
		}
		return false
	}
	for _, a := range []struct {
		l int64
		s bool
	}{{3, true}, {3, false}, {20, false}, {300, false}, {5000, false}, {70000, false}, {-1, false}} {
		if try(a.l, a.s) {
			ok = true
			break
		}
	}
	if !ok {
		return nil
	}
	// fix scalars and lengths, then ask for bytes
	fix := append([]*Term{}, extra...)
	for _, v := range vals {
		if v.sort.K == KBV {
			if u, ok := parseBV(m[v.id]); ok {
				fix = append(fix, c.Eq(v, c.Const(v.sort.N, u)))
			}
		} else if v.sort.K == KBool {
			fix = append(fix, c.Eq(v, c.Bool(m[v.id] == "true")))
		}
	}
	var bytesOf []*Term
	for _, e := range s.script {
		q := r.entSeq(s, e)
		if q == nil {
			continue
		}
		n, _ := parseBV(m[q.n.id])
		if q.n.isConst() {
			n = q.n.val
		}
		if n > 70000 {
			return nil
		}
		for i := uint64(0); i < n; i++ {
			switch t := c.seqAt(q, c.Int(int64(i))).(type) {
			case *Term:
				bytesOf = append(bytesOf, t)
			case AnyV:
				bytesOf = append(bytesOf, t.t)
			}
		}
	}
	m2 := m
	if len(bytesOf) > 0 || len(fix) > len(extra) {
		res, mm := c.sol.Check(s.pc, fix, 10000, append(append([]*Term{}, vals...), bytesOf...))
		if res != Sat {
			return nil
		}
		m2 = mm
	}
	val := func(t *Term) uint64 {
		if t.isConst() {
			return t.val
		}
		u, _ := parseBV(m2[t.id])
		return u
	}
	out := []ScriptVal{}
	scalar := func(t *Term) string {
		if t.sort.K == KBool {
			if t.isTrue() || m2[t.id] == "true" {
				return "1"
			}
			return "0"
		}
		return fmt.Sprint(val(t))
	}
	for _, e := range s.script {
		switch v := e.V.(type) {
		case *Term:
			out = append(out, ScriptVal{e.Kind, scalar(v)})
		case AnyV:
			out = append(out, ScriptVal{"any", m2[v.t.id]})
		default:
			q := r.entSeq(s, e)
			n := val(q.n)
			if e.Kind == "slice" || e.Kind == "array" {
				var el []string
				for i := uint64(0); i < n; i++ {
					switch x := c.seqAt(q, c.Int(int64(i))).(type) {
					case *Term:
						k := "int"
						if x.sort.K == KBool {
							k = "bool"
						} else if e.Kind2 == "float" {
							k = "float"
						}
						el = append(el, k+":"+scalar(x))
					case AnyV:
						el = append(el, "any:"+m2[x.t.id])
					default:
						el = append(el, "str:")
					}
				}
				out = append(out, ScriptVal{e.Kind, strings.Join(el, ";")})
				continue
			}
			b := make([]byte, n)
			for i := range b {
				if t, ok := c.seqAt(q, c.Int(int64(i))).(*Term); ok {
					b[i] = byte(val(t))
				}
			}
			out = append(out, ScriptVal{e.Kind, hex.EncodeToString(b)})
		}
	}
	return out
}

func (r *Run) entSeq(s *State, e ScriptEnt) *Seq {
	switch v := e.V.(type) {
	case StrV:
		return v.s
	case ArrV:
		return v.s
	}
	return nil
}

// ---------------------------------------------------------------- globals

func (r *Run) globalObj(s *State, g *ssa.Global) int {
	if id, ok := r.globals[g]; ok {
		return id
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	r.nextObj++
	id := r.nextObj
	r.globals[g] = id
	if g.Pkg != r.eng.pkg {
		r.base[id] = r.externGlobal(g, t)
		return id
	}
	if r.eng.isSpecPos(g.Pos()) {
		r.specObj[id] = true
	}
	if !r.initing {
		panic(engErr("global after init: " + g.Name()))
	}
	s.heap[id] = r.zero(t)
	return id
}

func (r *Run) externGlobal(g *ssa.Global, t types.Type) Val {
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		et := r.eng.tpkg.Scope().Lookup("vcErr")
		if et == nil {
			panic(engErr("vcErr missing"))
		}
		r.nextObj++
		id := r.nextObj
		st := r.zero(et.Type()).(*StructV)
		n := &StructV{append([]Val{}, st.f...)}
		n.f[0] = StrV{r.c.strLit(g.Name())}
		r.base[id] = n
		return IfaceV{t: types.NewPointer(et.Type()), v: PtrV{obj: id}}
	}
	if g.Name() == "init$guard" {
		return r.c.True
	}
	if srcPkgs[g.Pkg.Pkg.Path()] {
		if v, ok := r.constGlobal(g); ok {
			return v
		}
	}
	defer func() {
		if e := recover(); e != nil {
			panic(engErr("external variable " + g.String() + " has no model"))
		}
	}()
	r.note("external variable " + g.String() + " is taken as its zero value")
	return r.zero(t)
}

func (r *Run) constGlobal(g *ssa.Global) (Val, bool) { return nil, false }

// init runs the package initialiser concretely; its result is the base heap.
func (r *Run) init() {
	s := &State{r: r, c: r.c, heap: map[int]Val{}, defd: map[int]uint8{}}
	r.initing = true
	r.quiet++
	var names []string
	for n, m := range r.eng.pkg.Members {
		if _, ok := m.(*ssa.Global); ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		r.globalObj(s, r.eng.pkg.Members[n].(*ssa.Global))
	}
	fn := r.eng.pkg.Func("init")
	s.pushFrame(fn, nil, nil, nil, FNormal)
	done := r.explore([]*State{s}, 0)
	if len(done) != 1 {
		panic(engErr(fmt.Sprintf("package initialisation has %d outcomes", len(done))))
	}
	for k, v := range done[0].heap {
		r.base[k] = v
	}
	r.quiet--
	r.initing = false
}

// ---------------------------------------------------------------- one contract

type Result struct {
	Ctr     *Contract
	Status  string // proved, failed, bounded, error
	Level   string
	Obls    map[string]*Oblig
	Fails   []*Failure
	Notes   []string
	UsedC   []string
	UsedM   []string
	Inlined []string
	Demote  map[string]string
	Covers  map[string]int
	Returns int
	Paths   int
	Steps   int
	Queries int
	SolTime time.Duration
	Time    time.Duration
	Err     string
	Loops   []string
	Cut     int
}

func keysOf(m map[string]bool) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// verify runs one contract.
func (r *Run) verify() (res *Result) {
	t0 := time.Now()
	res = &Result{Ctr: r.ctr}
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case engErr:
				res.Err = string(x)
			case stopRun:
				res.Err = string(x)
			case inlineReq:
				res.Err = "contract requires " + x.why
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					panic(e)
				}
				res.Err = fmt.Sprintf("internal error: %v", e)
			}
			if res.Err != "" && r.intrp != "" {
				res.Err += " at " + r.intrp
			}
		}
		res.Obls, res.Fails = r.obls, r.fails
		res.Notes, res.UsedC, res.UsedM, res.Inlined = keysOf(r.notes), append(keysOf(r.usedC), keysOf(r.usedL)...), keysOf(r.usedM), keysOf(r.inlined)
		res.Demote, res.Covers, res.Returns, res.Paths, res.Steps = r.demote, r.covers, r.returns, r.paths, r.steps
		res.Queries, res.SolTime, res.Time = r.c.sol.queries, r.c.sol.time, time.Since(t0)
		res.Loops = r.loopInfo
		res.Cut = r.cutPaths
		r.c.sol.Close()
		switch {
		case res.Err != "":
			res.Status = "error"
			if len(res.Fails) > 0 {
				res.Status = "failed"
			}
		case len(res.Fails) > 0:
			res.Status = "failed"
		case res.Returns == 0:
			res.Status = "error"
			res.Err = "no feasible path reaches the end of the contract (vacuous)"
		case r.bounded && r.cutPaths > 0:
			res.Status = "bounded"
		default:
			res.Status = "proved"
		}
	}()
	r.init()
	s := &State{r: r, c: r.c, heap: map[int]Val{}, defd: map[int]uint8{}}
	// parameters are generated by a synthetic prefix: generator functions run first
	states := []*State{s}
	fn := r.ctr.Fn
	argv := make([][]Val, 1)
	for _, p := range fn.Params {
		var ns []*State
		var na [][]Val
		for i, st := range states {
			for _, g := range r.genParam(st, p.Type(), p.Name()) {
				ns = append(ns, g)
				na = append(na, append(argv[i][:len(argv[i]):len(argv[i])], g.rets))
			}
		}
		states, argv = ns, na
	}
	var work []*State
	for i, st := range states {
		f := st.pushFrame(fn, argv[i], nil, nil, FVerify)
		f.ctr = r.ctr
		work = append(work, st)
	}
	done := r.explore(work, 0)
	for _, d := range done {
		if d.feasible() {
			r.returns++
		}
	}
	return res
}

// genParam produces a symbolic value of the given type.
func (r *Run) genParam(s *State, t types.Type, name string) []*State {
	if g, ok := r.eng.gens[t.String()]; ok {
		d := len(s.frames)
		s.pushFrame(g, nil, nil, nil, fEngine)
		return r.explore([]*State{s}, d)
	}
	s.rets = r.freshVal(s, t, name, true)
	return []*State{s}
}

func (r *Run) freshVal(s *State, t types.Type, name string, log bool) Val {
	c := r.c
	add := func(k string, v Val) {
		if log {
			s.script = append(s.script, ScriptEnt{Kind: k, V: v})
		}
	}
	w, _, k := basicInfo(t)
	switch k {
	case 1:
		v := c.Fresh(name, BoolS)
		add("bool", v)
		return v
	case 2:
		v := c.Fresh(name, BV(w))
		add("int", v)
		return v
	case 3:
		v := c.Fresh(name, BV(w))
		add("float", v)
		return v
	case 4:
		v := StrV{c.strTermSeq(c.Fresh(name, StrS))}
		add("str", v)
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		ew, _, ek := basicInfo(u.Elem())
		var es Sort
		switch {
		case ek == 1:
			es = BoolS
		case ek == 2 || ek == 3:
			es = BV(ew)
		case ek == 4:
			es = StrS
		case types.IsInterface(u.Elem()) && u.Elem().Underlying().(*types.Interface).NumMethods() == 0:
			es = AnyS
		default:
			panic(engErr("fresh slice of " + t.String()))
		}
		n := c.Fresh("len_"+name, BV(64))
		c.axioms[n.id] = []*Term{c.mk(&Term{op: OUlt, sort: BoolS, args: []*Term{n, c.Int(int64(maxLen))}})}
		src := c.newSource(Source{arr: c.Fresh("arr_"+name, ArrOf(es)), name: name})
		q := c.srcSeq(src, c.Int(0), n)
		id := s.newObj(ArrV{q})
		if ek == 2 && ew == 8 {
			add("bytes", ArrV{q})
		} else {
			add("slice", ArrV{q})
		}
		return SliceV{obj: id, off: c.Int(0), len: n, cap: n}
	case *types.Interface:
		if u.NumMethods() == 0 {
			v := AnyV{c.Fresh(name, AnyS)}
			add("any", v)
			return v
		}
	case *types.Struct:
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, r.freshVal(s, u.Field(i).Type(), name+"."+u.Field(i).Name(), log))
		}
		return sv
	case *types.Array:
		ew, _, ek := basicInfo(u.Elem())
		if ek == 2 {
			src := c.newSource(Source{arr: c.Fresh("arr_"+name, ArrOf(BV(ew))), name: name})
			q := c.srcSeq(src, c.Int(0), c.Int(u.Len()))
			add("array", ArrV{q})
			return ArrV{q}
		}
	}
	panic(engErr("no generator for type " + t.String()))
}
