package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn       *ssa.Function
	info     *FnInfo
	env      []Val
	blk      *ssa.BasicBlock
	prev     *ssa.BasicBlock
	ip       int
	defers   []deferred
	dest     ssa.Value // value in the caller frame receiving the result
	mode     int       // frame kind
	ctr      *Contract // contract being run in this frame
	snap     *State    // caller mode: state before the call (to fall back to inlining)
	args     []Val
	visits   map[int]int
	stop     *loopRec // header loop whose body is being explored in this frame
	iters    map[int]*Term
	dropRet  bool
	called   bool
	exitFrom *ssa.BasicBlock
	mods     []PtrV
	sets     []PtrV
	inlFn    *ssa.Function
	inlBind  []Val
	post     func(*State, Val) bool
}

const (
	FNormal = iota
	FVerify
	FCaller
	FModel
	FSpec
)

type deferred struct {
	fn   FuncV
	args []Val
	call *ssa.CallCommon
}

type ScriptEnt struct {
	Kind  string
	V     Val
	Kind2 string // kind of the elements
}

type State struct {
	r      *Run
	c      *Ctx
	pc     *PC
	heap   map[int]Val
	frames []*Frame
	script []ScriptEnt
	abst   string // why the path is not exactly replayable
	spawn  int
	loops  []*loopRec
	rets   Val
	done   bool
	depth  int
	defd   map[int]uint8 // eq atoms whose definitions are in pc (bit0 pos, bit1 neg)
	covers []string
	entry  *heapSnap
	rw     map[int]*Term
}

type heapSnap struct {
	heap  map[int]Val
	maxID int
	depth int
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = append([]Val{}, f.env...)
	g.defers = append([]deferred{}, f.defers...)
	if f.visits != nil {
		g.visits = make(map[int]int, len(f.visits))
		for k, v := range f.visits {
			g.visits[k] = v
		}
	}
	if f.iters != nil {
		g.iters = make(map[int]*Term, len(f.iters))
		for k, v := range f.iters {
			g.iters[k] = v
		}
	}
	return &g
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[int]Val, len(s.heap)+8)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.defd = make(map[int]uint8, len(s.defd))
	for k, v := range s.defd {
		n.defd[k] = v
	}
	n.loops = append([]*loopRec{}, s.loops...)
	n.script = s.script[:len(s.script):len(s.script)]
	n.covers = s.covers[:len(s.covers):len(s.covers)]
	return &n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// ---------------------------------------------------------------- heap

func (s *State) newObj(v Val) int {
	s.r.nextObj++
	id := s.r.nextObj
	s.heap[id] = v
	return id
}

func (s *State) objVal(id int) Val {
	if v, ok := s.heap[id]; ok {
		return v
	}
	if v, ok := s.r.base[id]; ok {
		return v
	}
	panic(engErr(fmt.Sprintf("no object %d", id)))
}

func (s *State) load(p PtrV) Val {
	v := s.objVal(p.obj)
	for _, e := range p.path {
		v = s.project(v, e)
	}
	return v
}

func (s *State) project(v Val, e PE) Val {
	switch x := v.(type) {
	case *StructV:
		return x.f[e.field]
	case ArrV:
		return s.c.seqAt(x.s, e.idx)
	}
	panic(engErr(fmt.Sprintf("project %T", v)))
}

func (s *State) store(p PtrV, v Val) {
	s.noteWrite(p)
	s.heap[p.obj] = s.update(s.objVal(p.obj), p.path, v)
}

func (s *State) update(o Val, path []PE, v Val) Val {
	if len(path) == 0 {
		return v
	}
	switch x := o.(type) {
	case *StructV:
		f := append([]Val{}, x.f...)
		f[path[0].field] = s.update(f[path[0].field], path[1:], v)
		return &StructV{f}
	case ArrV:
		i := path[0].idx
		if len(path) > 1 {
			v = s.update(s.c.seqAt(x.s, i), path[1:], v)
		}
		return ArrV{s.seqStore(x.s, i, v)}
	}
	panic(engErr(fmt.Sprintf("update %T", o)))
}

// noteWrite records modified locations for loops being explored.
func (s *State) noteWrite(p PtrV) {
	for _, l := range s.loops {
		if p.obj <= l.maxObj {
			l.noteMod(p)
		}
	}
}

// ---------------------------------------------------------------- sequence operations needing the path condition

// decide returns +1 if pc implies t, -1 if pc implies not t, 0 otherwise.
func (s *State) decide(t *Term) int {
	if t.isTrue() {
		return 1
	}
	if t.isFalse() {
		return -1
	}
	k := [2]*PC{s.pc, nil}
	_ = k
	key := decKey{s.pc, t.id}
	if v, ok := s.r.decCache[key]; ok {
		return v
	}
	v := 0
	if r := s.c.sol.Lite(s.pc, []*Term{s.c.Not(t)}, 2000); r == Unsat {
		v = 1
	} else if r := s.c.sol.Lite(s.pc, []*Term{t}, 2000); r == Unsat {
		v = -1
	}
	s.r.decCache[key] = v
	return v
}

type decKey struct {
	pc *PC
	t  int
}

// cut splits q at position pos (0 <= pos <= len is assumed).
func (s *State) cut(q *Seq, pos *Term) (*Seq, *Seq) {
	c := s.c
	if pos.isConst() && pos.val == 0 {
		return c.seqOf(nil), q
	}
	if pos == q.n {
		return q, c.seqOf(nil)
	}
	acc := c.Int(0)
	for k, g := range q.segs {
		d := c.Sub(pos, acc)
		if d.isConst() && d.val == 0 {
			return c.seqOf(q.segs[:k]), c.seqOf(q.segs[k:])
		}
		if d == g.n {
			return c.seqOf(q.segs[:k+1]), c.seqOf(q.segs[k+1:])
		}
		if g.src == nil {
			if d.isConst() && d.val < uint64(len(g.lit)) {
				l := append(append([]Seg{}, q.segs[:k]...), Seg{lit: g.lit[:d.val]})
				r := append([]Seg{{lit: g.lit[d.val:]}}, q.segs[k+1:]...)
				return c.seqOf(l), c.seqOf(r)
			}
			if s.decide(c.Ule(g.n, d)) == 1 {
				acc = c.Add(acc, g.n)
				continue
			}
			// maybe d is determined
			for j := 0; j <= len(g.lit); j++ {
				if r := s.decide(c.Eq(d, c.Int(int64(j)))); r == 1 {
					l := append(append([]Seg{}, q.segs[:k]...), Seg{lit: g.lit[:j]})
					r := append([]Seg{{lit: g.lit[j:]}}, q.segs[k+1:]...)
					return c.seqOf(l), c.seqOf(r)
				}
			}
			return s.viewCut(q, pos)
		}
		if s.decide(c.Ule(d, g.n)) == 1 {
			l := append(append([]Seg{}, q.segs[:k]...), Seg{src: g.src, off: g.off, n: d})
			r := append([]Seg{{src: g.src, off: c.Add(g.off, d), n: c.Sub(g.n, d)}}, q.segs[k+1:]...)
			return c.seqOf(l), c.seqOf(r)
		}
		if s.decide(c.Ule(g.n, d)) == 1 {
			acc = c.Add(acc, g.n)
			continue
		}
		return s.viewCut(q, pos)
	}
	// pos equals len semantically
	return q, c.seqOf(nil)
}

func (s *State) viewCut(q *Seq, pos *Term) (*Seq, *Seq) {
	c := s.c
	src := s.r.viewSource(q)
	return c.srcSeq(src, c.Int(0), pos), c.srcSeq(src, pos, c.Sub(q.n, pos))
}

func (r *Run) viewSource(q *Seq) *Source {
	k := r.c.seqKey(q)
	if s, ok := r.views[k]; ok {
		return s
	}
	s := r.c.newSource(Source{view: q})
	r.views[k] = s
	return s
}

func (s *State) sub(q *Seq, off, n *Term) *Seq {
	c := s.c
	if n.isConst() && n.val == 0 {
		return c.seqOf(nil)
	}
	_, r := s.cut(q, off)
	if n == r.n {
		return r
	}
	l, _ := s.cut(r, n)
	return l
}

func (s *State) seqStore(q *Seq, i *Term, v Val) *Seq {
	c := s.c
	if i.isConst() || len(q.segs) == 1 || true {
		// position determined inside the segments?
		acc := c.Int(0)
		for k, g := range q.segs {
			d := c.Sub(i, acc)
			if g.src == nil {
				if d.isConst() && d.val < uint64(len(g.lit)) {
					nl := append([]Val{}, g.lit...)
					nl[d.val] = v
					segs := append([]Seg{}, q.segs...)
					segs[k] = Seg{lit: nl}
					return c.seqOf(segs)
				}
			} else if d.isConst() || i.op != OConst {
				in := s.decide(c.Ult(d, g.n))
				if in == 1 {
					segs := append([]Seg{}, q.segs[:k]...)
					segs = append(segs, Seg{src: g.src, off: g.off, n: d}, Seg{lit: []Val{v}},
						Seg{src: g.src, off: c.Add(g.off, c.AddK(d, 1)), n: c.Sub(g.n, c.AddK(d, 1))})
					segs = append(segs, q.segs[k+1:]...)
					return c.seqOf(segs)
				}
				if in == 0 {
					break
				}
			}
			acc = c.Add(acc, g.n)
		}
	}
	src := c.newSource(Source{st: q, idx: i, v: v})
	return c.srcSeq(src, c.Int(0), q.n)
}

type piece struct {
	lit  *Term // literal comparison
	a, b *Source
	ao   *Term
	bo   *Term
	n    *Term
}

// align decomposes equality of a and b into pieces; ok=false if not possible.
func (s *State) align(a, b *Seq) (ps []piece, ok bool) {
	c := s.c
	i, j := 0, 0
	as := append([]Seg{}, a.segs...)
	bs := append([]Seg{}, b.segs...)
	for i < len(as) && j < len(bs) {
		x, y := as[i], bs[j]
		var n *Term // length consumed
		d := c.Sub(x.n, y.n)
		if d.isConst() && d.val == 0 {
			n = x.n
		} else if d.isConst() && x.n.isConst() && y.n.isConst() {
			if x.n.val < y.n.val {
				n = x.n
			} else {
				n = y.n
			}
		} else if s.decide(c.Eq(x.n, y.n)) == 1 {
			n = x.n
			if y.n.isConst() {
				n = y.n
			}
		} else if s.decide(c.Ule(x.n, y.n)) == 1 {
			n = x.n
		} else if s.decide(c.Ule(y.n, x.n)) == 1 {
			n = y.n
		} else {
			return nil, false
		}
		take := func(g Seg) (Seg, *Seg) {
			if g.n == n || s.isEqLen(g.n, n) {
				return g, nil
			}
			if g.src == nil {
				if !n.isConst() {
					return g, &Seg{n: nil}
				}
				k := int(n.val)
				return Seg{lit: g.lit[:k], n: n}, &Seg{lit: g.lit[k:], n: c.Int(int64(len(g.lit) - k))}
			}
			return Seg{src: g.src, off: g.off, n: n}, &Seg{src: g.src, off: c.Add(g.off, n), n: c.Sub(g.n, n)}
		}
		hx, rx := take(x)
		hy, ry := take(y)
		if rx != nil && rx.n == nil || ry != nil && ry.n == nil {
			return nil, false
		}
		switch {
		case hx.src == nil && hy.src == nil:
			if len(hx.lit) != len(hy.lit) {
				return nil, false
			}
			for k := range hx.lit {
				t, ok := s.eqVal(hx.lit[k], hy.lit[k])
				if !ok {
					return nil, false
				}
				ps = append(ps, piece{lit: t})
			}
		case hx.src == nil || hy.src == nil:
			l, sg := hx, hy
			if hx.src != nil {
				l, sg = hy, hx
			}
			for k := range l.lit {
				t, ok := s.eqVal(l.lit[k], c.sourceAt(sg.src, c.AddK(sg.off, int64(k))))
				if !ok {
					return nil, false
				}
				ps = append(ps, piece{lit: t})
			}
		default:
			if !(hx.src == hy.src && (hx.off == hy.off || hx.src.zero != nil)) {
				ps = append(ps, piece{a: hx.src, b: hy.src, ao: hx.off, bo: hy.off, n: n})
			}
		}
		if rx == nil {
			i++
		} else {
			as[i] = *rx
		}
		if ry == nil {
			j++
		} else {
			bs[j] = *ry
		}
	}
	rest := c.Int(0)
	for ; i < len(as); i++ {
		rest = c.Add(rest, as[i].n)
	}
	for ; j < len(bs); j++ {
		rest = c.Add(rest, bs[j].n)
	}
	if !(rest.isConst() && rest.val == 0) {
		ps = append(ps, piece{lit: c.Eq(rest, c.Int(0))})
	}
	return ps, true
}

func (s *State) isEqLen(a, b *Term) bool {
	return a == b || s.decide(s.c.Eq(a, b)) == 1
}

type eqDef struct{ a, b *Seq }

// seqEq returns a boolean term for equality of two sequences.
func (s *State) seqEq(a, b *Seq) *Term {
	c := s.c
	if a == b {
		return c.True
	}
	ka, kb := c.seqKey(a), c.seqKey(b)
	if ka == kb {
		return c.True
	}
	if d := c.Eq(a.n, b.n); d.isFalse() {
		return c.False
	}
	// one side finite literal: exact
	fin := func(x, y *Seq) (*Term, bool) {
		if !x.n.isConst() || x.n.val > 300 {
			return nil, false
		}
		conj := []*Term{c.Eq(y.n, x.n)}
		for i := int64(0); i < int64(x.n.val); i++ {
			t, ok := s.eqVal(c.seqAt(x, c.Int(i)), c.seqAt(y, c.Int(i)))
			if !ok {
				return nil, false
			}
			conj = append(conj, t)
		}
		return c.And(conj...), true
	}
	if t, ok := fin(a, b); ok {
		return t
	}
	if t, ok := fin(b, a); ok {
		return t
	}
	if ka > kb {
		ka, kb = kb, ka
		a, b = b, a
	}
	e := c.Var("seqeq!"+sanitize(hash(ka+"=="+kb)), BoolS)
	ta, tb := c.strTermOf(a), c.strTermOf(b)
	if _, ok := c.eqDefs[e.id]; !ok && s.r.pure > 0 {
		if ta != nil && tb != nil {
			return c.Eq(ta, tb)
		}
		panic(engErr("comparison of sequences below a quantifier"))
	}
	c.eqDefs[e.id] = &eqDef{a, b}
	if ta != nil && tb != nil {
		// strings are equal exactly when their contents are
		if _, ok := c.axioms[e.id]; !ok {
			c.axioms[e.id] = []*Term{c.Eq(e, c.Eq(ta, tb))}
		}
	}
	return e
}

func (s *State) eqDiff(d *eqDef) *Term {
	c := s.c
	if ps, ok := s.align(d.a, d.b); ok {
		var ds []*Term
		for _, p := range ps {
			if p.lit != nil {
				ds = append(ds, c.Not(p.lit))
			} else {
				k := c.Fresh("k", BV(64))
				t, ok := s.eqVal(c.sourceAt(p.a, c.Add(p.ao, k)), c.sourceAt(p.b, c.Add(p.bo, k)))
				if !ok {
					return c.True
				}
				ds = append(ds, c.And(c.Ult(k, p.n), c.Not(t)))
			}
		}
		return c.Or(ds...)
	}
	k := c.Fresh("k", BV(64))
	t, ok := s.eqVal(c.seqAt(d.a, k), c.seqAt(d.b, k))
	if !ok {
		return c.True
	}
	return c.Or(c.Not(c.Eq(d.a.n, d.b.n)), c.And(c.Ult(k, d.a.n), c.Not(t)))
}

func (s *State) eqSame(d *eqDef) *Term {
	c := s.c
	all := func(n *Term, f func(k *Term) (*Term, bool)) *Term {
		v := c.BoundVar(BV(64))
		t, ok := f(v)
		if !ok {
			return c.True
		}
		return c.Forall(v, c.Implies(c.Ult(v, n), t))
	}
	if ps, ok := s.align(d.a, d.b); ok {
		var cs []*Term
		for _, p := range ps {
			p := p
			if p.lit != nil {
				cs = append(cs, p.lit)
			} else {
				cs = append(cs, all(p.n, func(k *Term) (*Term, bool) {
					return s.eqVal(c.sourceAt(p.a, c.Add(p.ao, k)), c.sourceAt(p.b, c.Add(p.bo, k)))
				}))
			}
		}
		cs = append(cs, c.Eq(d.a.n, d.b.n))
		return c.And(cs...)
	}
	return c.And(c.Eq(d.a.n, d.b.n), all(d.a.n, func(k *Term) (*Term, bool) {
		return s.eqVal(c.seqAt(d.a, k), c.seqAt(d.b, k))
	}))
}

// eqAtoms collects equality atoms with polarity bits (1 positive, 2 negative).
func (c *Ctx) eqAtoms(t *Term, pol uint8, out map[int]uint8, seen map[[2]int]bool) {
	k := [2]int{t.id, int(pol)}
	if seen[k] {
		return
	}
	seen[k] = true
	if t.sort.K != KBool {
		// atoms below ite conditions of data terms
		for _, a := range t.args {
			if a.sort.K == KBool {
				c.eqAtoms(a, 3, out, seen)
			} else {
				c.eqAtoms(a, 3, out, seen)
			}
		}
		return
	}
	flip := func(p uint8) uint8 { return (p&1)<<1 | (p&2)>>1 }
	switch t.op {
	case OVar:
		if _, ok := c.eqDefs[t.id]; ok {
			out[t.id] |= pol
		}
	case ONot:
		c.eqAtoms(t.args[0], flip(pol), out, seen)
	case OAnd, OOr:
		for _, a := range t.args {
			c.eqAtoms(a, pol, out, seen)
		}
	case OIte:
		c.eqAtoms(t.args[0], 3, out, seen)
		c.eqAtoms(t.args[1], pol, out, seen)
		c.eqAtoms(t.args[2], pol, out, seen)
	default:
		for _, a := range t.args {
			c.eqAtoms(a, 3, out, seen)
		}
	}
}

// defsFor returns definitional facts for the equality atoms in t (asserted with positive polarity).
func (s *State) defsFor(t *Term) []*Term {
	c := s.c
	at := map[int]uint8{}
	c.eqAtoms(t, 1, at, map[[2]int]bool{})
	var out []*Term
	for id, pol := range at {
		need := pol &^ s.defd[id]
		if need == 0 {
			continue
		}
		s.defd[id] |= need
		d := c.eqDefs[id]
		e := c.byID(id)
		if need&1 != 0 {
			out = append(out, c.Implies(e, s.eqSame(d)))
		}
		if need&2 != 0 {
			out = append(out, c.Implies(c.Not(e), s.eqDiff(d)))
		}
	}
	return out
}

func (s *State) assume(t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	for _, d := range s.defsFor(t) {
		s.pc = s.pc.add(d)
	}
	s.pc = s.pc.add(t)
	if t.op == OEq {
		a, b := t.args[0], t.args[1]
		if !isSpecApp(a) {
			a, b = b, a
		}
		if isSpecApp(a) && !isSpecApp(b) {
			m := make(map[int]*Term, len(s.rw)+1)
			for k, v := range s.rw {
				m[k] = v
			}
			m[a.id] = b
			s.rw = m
		}
	}
}

// applications of opaque specification functions are replaced by what the path says they equal
func isSpecApp(t *Term) bool { return t.op == OApp && strings.HasPrefix(t.name, "spec_") }

func (s *State) rewrite(t *Term) *Term {
	if x, ok := s.rw[t.id]; ok {
		return x
	}
	return t
}

func (s *State) feasible() bool {
	r := s.c.sol.Lite(s.pc, nil, 500)
	return r != Unsat
}

// ---------------------------------------------------------------- equality of values

func (s *State) eqVal(a, b Val) (*Term, bool) {
	c := s.c
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return c.Eq(x, y), true
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			return s.seqEq(x.s, y.s), true
		}
	case PtrV:
		if y, ok := b.(PtrV); ok {
			return s.eqPtr(x, y), true
		}
	case MapV:
		if y, ok := b.(MapV); ok {
			return c.Bool(x.obj == y.obj), true
		}
	case ChanV:
		if y, ok := b.(ChanV); ok {
			return c.Bool(x.obj == y.obj), true
		}
	case FuncV:
		if y, ok := b.(FuncV); ok {
			if x.fn == nil && x.blt == "" {
				return c.Bool(y.fn == nil && y.blt == ""), true
			}
			if y.fn == nil && y.blt == "" {
				return c.False, true
			}
		}
	case SliceV:
		if y, ok := b.(SliceV); ok {
			if x.obj == 0 || y.obj == 0 {
				return c.Bool(x.obj == y.obj), true
			}
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			var cs []*Term
			for i := range x.f {
				t, ok := s.eqVal(x.f[i], y.f[i])
				if !ok {
					return nil, false
				}
				cs = append(cs, t)
			}
			return c.And(cs...), true
		}
	case ArrV:
		if y, ok := b.(ArrV); ok {
			return s.seqEq(x.s, y.s), true
		}
	case IfaceV:
		if y, ok := b.(IfaceV); ok {
			if x.t == nil || y.t == nil {
				return c.Bool(x.t == nil && y.t == nil), true
			}
			if !types.Identical(x.t, y.t) {
				return c.False, true
			}
			return s.eqVal(x.v, y.v)
		}
		if y, ok := b.(AnyV); ok {
			if t, ok := c.anyTerm(x); ok {
				return c.Eq(t, y.t), true
			}
		}
	case AnyV:
		if y, ok := c.anyTerm(b); ok {
			return c.Eq(x.t, y), true
		}
	}
	return nil, false
}

func (s *State) eqPtr(x, y PtrV) *Term {
	c := s.c
	if x.obj != y.obj || len(x.path) != len(y.path) {
		return c.False
	}
	var cs []*Term
	for i := range x.path {
		a, b := x.path[i], y.path[i]
		if a.idx != nil && b.idx != nil {
			cs = append(cs, c.Eq(a.idx, b.idx))
		} else if a.field != b.field {
			return c.False
		}
	}
	return c.And(cs...)
}
