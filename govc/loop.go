package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopRec struct {
	info   *loopInfo
	depth  int
	maxObj int
	exits  []*State
	backs  []*State
	mods   map[string]PtrV
	newMod bool
}

// noteMod records a modified location (array elements count as the whole array).
func (l *loopRec) noteMod(p PtrV) {
	q := PtrV{obj: p.obj}
	for _, e := range p.path {
		if e.idx != nil {
			break
		}
		q.path = append(q.path, e)
	}
	k := valKey(q)
	if _, ok := l.mods[k]; !ok {
		l.mods[k] = q
		l.newMod = true
	}
}

func (r *Run) wantInvariant(s *State, li *loopInfo) bool {
	if !r.useInv || r.invMode != 0 || r.bounded {
		return false
	}
	f := s.top()
	if r.inModel(s) {
		return false
	}
	if r.isSpecFn(f.fn) {
		return false
	}
	// for i := const; i < const: unrolled
	if x, ok := li.header.Instrs[len(li.header.Instrs)-1].(*ssa.If); ok {
		if b, ok := x.Cond.(*ssa.BinOp); ok {
			for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				if b, ok := pr[0].(*ssa.BinOp); ok && b.Block() == li.header && b.Op == token.ADD {
					if _, ok := b.Y.(*ssa.Const); ok {
						pr[0] = b.X // range loops
					}
				}
				p, ok1 := pr[0].(*ssa.Phi)
				k, ok2 := s.tryGet(pr[1]).(*Term)
				if ok1 && ok2 && p.Block() == li.header && k.isConst() {
					if v, ok := s.tryGet(p).(*Term); ok && v.isConst() {
						return false
					}
				}
			}
		}
	}
	return true
}

func (s *State) tryGet(v ssa.Value) (out Val) {
	defer func() {
		if e := recover(); e != nil {
			out = nil
		}
	}()
	return s.get(v)
}

type leaf struct {
	phi  *ssa.Phi
	ptr  PtrV
	name string
	typ  types.Type // static type if known
}

func (l leaf) get(s *State) Val {
	if l.phi != nil {
		return s.get(l.phi)
	}
	return s.load(l.ptr)
}
func (l leaf) put(s *State, v Val) {
	if l.phi != nil {
		s.set(l.phi, v)
		return
	}
	s.heap[l.ptr.obj] = s.update(s.objVal(l.ptr.obj), l.ptr.path, v)
}
func (l leaf) key() string {
	if l.phi != nil {
		return "phi:" + l.phi.Name()
	}
	return valKey(l.ptr)
}

// leaves expands a location to its non-struct leaves.
func (s *State) leaves(p PtrV, v Val, out *[]leaf) {
	if sv, ok := v.(*StructV); ok {
		for i := range sv.f {
			s.leaves(PtrV{p.obj, append(p.path[:len(p.path):len(p.path)], PE{field: i})}, sv.f[i], out)
		}
		return
	}
	*out = append(*out, leaf{ptr: p, name: "cell"})
}

type cand struct {
	name string
	f    func(s *State) *Term // nil: template conjunct
	tpl  *boundTmpl
	pos  token.Pos
	live bool
	sub  func(st *State) // makes the equality hold by construction
}

// byDelta: b changes by the same amount as a, or by the opposite amount.
func (b comp) byDelta(c *Ctx, a comp, neg bool) func(st *State) {
	if b.put == nil {
		return nil
	}
	return func(st *State) {
		d := c.Sub(a.get(st), a.init)
		if a.put != nil && !strings.HasPrefix(d.name, "delta!") {
			d = c.Fresh("delta", BV(64))
			old := a.get(st)
			a.put(st, c.Add(a.init, d))
			st.assume(c.Eq(old, a.get(st)))
		}
		v := c.Add(b.init, d)
		if neg {
			v = c.Sub(b.init, d)
		}
		old := b.get(st)
		b.put(st, v)
		st.assume(c.Eq(old, v))
	}
}

type boundTmpl struct {
	fn   *ssa.Function
	args func(s *State) []Val
}

type comp struct {
	name string
	get  func(s *State) *Term // 64 bit
	init *Term
	put  func(st *State, v *Term) // nil: cannot be set
}

func (r *Run) loopInvariant(s *State, li *loopInfo) ([]*State, bool) {
	f := s.top()
	depth := len(s.frames)
	outerStop := f.stop
	rec := &loopRec{info: li, depth: depth, maxObj: r.nextObj, mods: map[string]PtrV{}}
	c := r.c
	lname := fmt.Sprintf("%s#%d", fnName(f.fn), li.header.Index)

	havoc := map[string]leaf{} // leaves that change
	var order []string
	sliceNew := map[string]bool{} // slices whose backing object changes
	shapes := map[string]Val{}    // the values written to maps
	noteShape := func(k string, m *MapObj) {
		_, _, kind := basicInfo(m.vt)
		if it, ok := m.vt.Underlying().(*types.Interface); kind != 0 || ok && it.NumMethods() == 0 {
			return
		}
		vs := []Val{}
		for _, w := range m.writes {
			if !w.del {
				vs = append(vs, w.val)
			}
		}
		if m.base != nil && m.base.shape != nil {
			vs = append(vs, m.base.shape)
		}
		for _, v := range vs {
			if shapes[k] == nil {
				shapes[k] = v
			} else if !sameShape(shapes[k], v) {
				panic(engErr("loop " + lname + ": map values of several kinds"))
			}
		}
	}
	addLeaf := func(l leaf) bool {
		k := l.key()
		if _, ok := havoc[k]; ok {
			return false
		}
		havoc[k] = l
		order = append(order, k)
		return true
	}
	peel := false // see whether a state at a back edge leaves the loop at once
	explore1 := func(h *State) (backs, exits []*State) {
		rec.exits, rec.backs = nil, nil
		h.loops = append(append([]*loopRec{}, s.loops...), rec)
		h.top().stop = rec
		done := r.explore([]*State{h}, depth-1)
		backs, exits = rec.backs, rec.exits
		rec.exits, rec.backs = nil, nil
		for _, b := range backs {
			b.loops = s.loops
		}
		for _, x := range exits {
			x.loops = s.loops
			x.top().stop = outerStop
		}
		for _, d := range done {
			d.loops = s.loops
			exits = append(exits, d)
		}
		return
	}
	explore := func(h *State) (backs, exits []*State) {
		backs, exits = explore1(h)
		if !peel {
			return
		}
		all := backs
		backs = nil
		for _, b := range all {
			r.quiet++
			bb, _ := explore1(b.clone())
			r.quiet--
			if len(bb) > 0 {
				backs = append(backs, b)
				continue
			}
			_, ee := explore1(b)
			exits = append(exits, ee...)
		}
		return
	}
	// havocked header states (several shapes if interface values change)
	mkHavoc := func() []*State {
		h := s.clone()
		if h.abst == "" {
			h.abst = "loop invariant of " + lname
		}
		states := []*State{h}
		for _, k := range order {
			l := havoc[k]
			var ns []*State
			for _, st := range states {
				if m, ok := l.get(st).(*MapObj); ok {
					nm := c.Fresh("m_inv", BoolS).name
					l.put(st, &MapObj{kt: m.kt, vt: m.vt, base: &mapBase{name: nm, shape: shapes[k]}})
					ns = append(ns, st)
					continue
				}
				for _, alt := range r.havocLeaf(st, l, sliceNew[k]) {
					ns = append(ns, alt)
				}
			}
			states = ns
		}
		return states
	}

	// ---- discover what changes
	r.quiet++
	fixed := false
	for round := 0; round < 12 && !fixed; round++ {
		fixed = true
		rec.newMod = false
		for _, h := range mkHavoc() {
			ref := h.clone()
			backs, _ := explore(h)
			var ls []leaf
			for _, p := range li.phis {
				ls = append(ls, leaf{phi: p, name: p.Comment, typ: p.Type()})
			}
			var ks []string
			for k := range rec.mods {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				p := rec.mods[k]
				ref.leaves(p, ref.load(p), &ls)
			}
			for _, b := range backs {
				for _, l := range ls {
					if _, ok := havoc[l.key()]; ok {
						if m, ok := l.get(b).(*MapObj); ok {
							noteShape(l.key(), m)
						}
						// a slice that moves to a new backing array
						if x, ok := l.get(ref).(SliceV); ok {
							if y, ok := l.get(b).(SliceV); ok && y.obj != x.obj && !sliceNew[l.key()] {
								sliceNew[l.key()] = true
								fixed = false
							}
						}
						continue
					}
					x, y := l.get(ref), l.get(b)
					same := valKey(x) == valKey(y)
					if ax, ok := x.(ArrV); ok {
						same = c.seqKey(ax.s) == c.seqKey(y.(ArrV).s)
					}
					if sx, ok := x.(StrV); ok {
						same = c.seqKey(sx.s) == c.seqKey(y.(StrV).s)
					}
					if sx, ok := x.(SliceV); ok {
						sy := y.(SliceV)
						same = sx.obj == sy.obj && sx.off == sy.off && sx.len == sy.len && sx.cap == sy.cap
					}
					if !same {
						switch x.(type) {
						case PtrV, MapV, FuncV, ChanV:
							if l.typ != nil && r.eng.havocFn[l.typ.String()] != nil {
								break
							}
							if !peel {
								peel, fixed = true, false
								continue
							}
						}
						if m, ok := y.(*MapObj); ok {
							noteShape(l.key(), x.(*MapObj))
							noteShape(l.key(), m)
						}
						if addLeaf(l) {
							fixed = false
						}
					}
				}
			}
			if rec.newMod {
				fixed = false
			}
		}
	}
	if !fixed {
		r.quiet--
		panic(engErr("loop " + lname + ": the set of modified locations does not settle"))
	}

	// ---- candidates
	var comps []comp
	for _, k := range order {
		l := havoc[k]
		v := l.get(s)
		addT := func(nm string, g func(st *State) *Term) {
			comps = append(comps, comp{nm, g, g(s), nil})
		}
		switch x := v.(type) {
		case *Term:
			if x.sort.K == KBV {
				signed := true
				if l.typ != nil {
					_, signed, _ = basicInfo(l.typ)
				}
				addT(k, func(st *State) *Term { return c.Resize(l.get(st).(*Term), 64, signed) })
				if x.sort.N == 64 {
					comps[len(comps)-1].put = func(st *State, v *Term) { l.put(st, v) }
				}
			}
		case StrV:
			addT("len("+k+")", func(st *State) *Term { return l.get(st).(StrV).s.n })
		case SliceV:
			addT("len("+k+")", func(st *State) *Term { return l.get(st).(SliceV).len })
			if !sliceNew[k] {
				part := func(set func(x *SliceV, v *Term)) {
					comps[len(comps)-1].put = func(st *State, v *Term) {
						x := l.get(st).(SliceV)
						set(&x, v)
						l.put(st, x)
					}
				}
				part(func(x *SliceV, v *Term) { x.len = v })
				addT("off("+k+")", func(st *State) *Term { return l.get(st).(SliceV).off })
				part(func(x *SliceV, v *Term) { x.off = v })
				addT("cap("+k+")", func(st *State) *Term { return l.get(st).(SliceV).cap })
				part(func(x *SliceV, v *Term) { x.cap = v })
			}
		}
	}
	var cands []*cand
	for i := range comps {
		a := comps[i]
		cands = append(cands,
			&cand{name: a.name + ">=entry", f: func(st *State) *Term { return c.Sle(a.init, a.get(st)) }, live: true},
			&cand{name: a.name + "<=entry", f: func(st *State) *Term { return c.Sle(a.get(st), a.init) }, live: true})
		if strings.HasPrefix(a.name, "len(") || strings.HasPrefix(a.name, "cap(") {
			cands = append(cands, &cand{name: a.name + ">=0", f: func(st *State) *Term { return c.Sle(c.Int(0), a.get(st)) }, live: true})
		}
		for j := i + 1; j < len(comps); j++ {
			b := comps[j]
			cands = append(cands,
				&cand{name: fmt.Sprintf("d(%s)==d(%s)", a.name, b.name), f: func(st *State) *Term {
					return c.Eq(c.Sub(a.get(st), a.init), c.Sub(b.get(st), b.init))
				}, live: true, sub: b.byDelta(c, a, false)},
				&cand{name: fmt.Sprintf("d(%s)==-d(%s)", a.name, b.name), f: func(st *State) *Term {
					return c.Eq(c.Sub(a.get(st), a.init), c.Sub(b.init, b.get(st)))
				}, live: true, sub: b.byDelta(c, a, true)})
		}
	}
	for bi := range f.fn.Blocks {
		if !li.blocks[bi] {
			continue
		}
		blk := f.fn.Blocks[bi]
		for _, in := range blk.Instrs {
			b, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch b.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			w, signed, kind := basicInfo(b.X.Type())
			if kind != 2 || w == 0 {
				continue
			}
			for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
				p, ok := pr[0].(*ssa.Phi)
				if !ok || p.Block() != li.header {
					continue
				}
				if q, ok := pr[1].(ssa.Instruction); ok && li.blocks[q.Block().Index] {
					// defined inside the loop: usable only if it is a length or cast of an outside value
					continue
				}
				y := pr[1]
				le := c.Ule
				if signed {
					le = c.Sle
				}
				cands = append(cands,
					&cand{name: p.Comment + "<=bound", f: func(st *State) *Term { return le(st.get(p).(*Term), st.get(y).(*Term)) }, live: true},
					&cand{name: p.Comment + ">=bound", f: func(st *State) *Term { return le(st.get(y).(*Term), st.get(p).(*Term)) }, live: true})
			}
		}
	}
	var tmpls []*boundTmpl
	for _, tf := range r.ctr.Loops {
		tmpls = append(tmpls, r.bindTmpl(s, tf, li)...)
	}
	// conjuncts of templates
	for _, bt := range tmpls {
		var at []token.Pos
		for _, blk := range bt.fn.Blocks {
			for _, in := range blk.Instrs {
				if x, ok := in.(*ssa.Call); ok {
					if g, ok := x.Call.Value.(*ssa.Function); ok && (g.Name() == "vInv" || g.Name() == "vInvSet") {
						at = append(at, x.Pos())
					}
				}
			}
		}
		for _, pos := range at {
			cands = append(cands, &cand{name: "template " + bt.fn.Name() + "@" + r.eng.fset.Position(pos).String(), tpl: bt, pos: pos, live: true})
		}
	}
	// filter by a header state: drops candidates that are not implied. Given
	// invariants are judged only once the guessed ones have settled.
	guessDropped := false
	filter := func(st *State) bool {
		judge := func(live []*cand, goals []*Term, ms int) bool {
			all := c.And(goals...)
			if all.isTrue() {
				return false
			}
			if !all.isFalse() && len(live) > 1 {
				if res := c.sol.Prove(st.pc, st.negGoal(all), ms); res == Unsat {
					return false
				}
			}
			dropped := false
			for i, x := range live {
				if goals[i].isTrue() {
					continue
				}
				res := Sat
				if !goals[i].isFalse() {
					res = c.sol.Prove(st.pc, st.negGoal(goals[i]), ms)
				}
				if res != Unsat {
					x.live = false
					dropped = true
				}
			}
			return dropped
		}
		var live []*cand
		var goals []*Term
		for _, x := range cands {
			if x.live && x.f != nil {
				live = append(live, x)
				goals = append(goals, x.f(st))
			}
		}
		if judge(live, goals, 1500) {
			guessDropped = true
		}
		if guessDropped {
			return true
		}
		live, goals = nil, nil
		for _, bt := range tmpls {
			any := false
			for _, x := range cands {
				if x.live && x.tpl == bt {
					any = true
				}
			}
			if !any {
				continue
			}
			got := map[token.Pos]*Term{}
			for _, pc := range r.tmplCheck(st, bt) {
				got[pc.pos] = pc.t
			}
			for _, x := range cands {
				if x.live && x.tpl == bt {
					g, ok := got[x.pos]
					if !ok {
						g = c.True // not reached on this state
					}
					live = append(live, x)
					goals = append(goals, g)
				}
			}
		}
		if len(live) == 0 {
			return false
		}
		return judge(live, goals, 10000)
	}
	for filter(s) && guessDropped {
		guessDropped = false
	}
	guessDropped = false
	constrain := func() []*State {
		var out []*State
		for _, h := range mkHavoc() {
			for _, x := range cands {
				if x.live && x.sub != nil && !x.f(h).isTrue() {
					x.sub(h)
				}
			}
			sts := []*State{h}
			for _, bt := range tmpls {
				allowed := map[token.Pos]bool{}
				for _, x := range cands {
					if x.live && x.tpl == bt {
						allowed[x.pos] = true
					}
				}
				if len(allowed) == 0 {
					continue
				}
				var ns []*State
				for _, st := range sts {
					ns = append(ns, r.tmplAssume(st, bt, allowed)...)
				}
				sts = ns
			}
			for _, st := range sts {
				for _, x := range cands {
					if x.live && x.f != nil {
						st.assume(x.f(st))
					}
				}
				if st.feasible() {
					out = append(out, st)
				}
			}
		}
		return out
	}
	for round := 0; ; round++ {
		if round > 40 {
			r.quiet--
			panic(engErr("loop " + lname + ": candidate invariants do not settle"))
		}
		dropped := false
		guessDropped = false
		for _, h := range constrain() {
			backs, _ := explore(h)
			for _, b := range backs {
				b.top().stop = outerStop
				if filter(b) {
					dropped = true
				}
			}
		}
		if !dropped {
			break
		}
	}
	r.quiet--
	// ---- the invariant is inductive: final pass with obligations on
	var out []*State
	if r.quiet == 0 {
		var names []string
		for _, x := range cands {
			if x.live {
				names = append(names, x.name)
			}
		}
		r.oblAdd("loop-invariant "+lname, "z3-new")
		r.loopInfo = append(r.loopInfo, lname+": "+strings.Join(names, "; "))
		if r.eng.verbose {
			fmt.Printf("  loop %s: %v (havoc %v)\n", lname, names, order)
		}
	}
	for _, h := range constrain() {
		_, exits := explore(h)
		for _, x := range exits {
			if len(x.frames) == depth && x.top().exitFrom != nil {
				from := x.top().exitFrom
				x.top().exitFrom = nil
				fs, alive := r.arrive(x, from)
				out = append(out, fs...)
				if alive {
					out = append(out, x)
				}
				continue
			}
			out = append(out, x)
		}
	}
	return out, false
}

// havocLeaf replaces a leaf by an arbitrary value.
func (r *Run) havocLeaf(s *State, l leaf, newObj bool) []*State {
	c := r.c
	v := l.get(s)
	switch x := v.(type) {
	case *Term, StrV, AnyV, ArrV:
		l.put(s, r.havocVal(s, v, "inv_"+l.name))
		return []*State{s}
	case SliceV:
		mk := func(n string) *Term {
			t := c.Fresh("len_"+n, BV(64))
			c.axioms[t.id] = []*Term{c.mk(&Term{op: OUlt, sort: BoolS, args: []*Term{t, c.Int(int64(maxLen))}})}
			return t
		}
		if newObj || x.obj == 0 {
			et := Sort{}
			if x.obj != 0 {
				if t, ok := c.seqAt(s.load(PtrV{x.obj, x.path}).(ArrV).s, c.Int(0)).(*Term); ok {
					et = t.sort
				} else {
					et = AnyS
				}
			} else if l.typ != nil {
				if sl, ok := l.typ.Underlying().(*types.Slice); ok {
					w, _, k := basicInfo(sl.Elem())
					et = BV(w)
					if k == 1 {
						et = BoolS
					}
					if types.IsInterface(sl.Elem()) {
						et = AnyS
					}
				}
			}
			if et.N == 0 && et.K == KBV || et.K == KBool && et.N != 0 {
				et = BV(8)
			}
			n := mk("inv")
			src := c.newSource(Source{arr: c.Fresh("arr_inv", ArrOf(et))})
			id := s.newObj(ArrV{c.srcSeq(src, c.Int(0), n)})
			l.put(s, SliceV{obj: id, off: c.Int(0), len: n, cap: n})
			return []*State{s}
		}
		off, n, cp := mk("off"), mk("inv"), mk("cap")
		a := s.load(PtrV{x.obj, x.path}).(ArrV)
		s.assume(c.Ule(n, cp))
		s.assume(c.Ule(c.Add(off, cp), a.s.n))
		l.put(s, SliceV{obj: x.obj, path: x.path, off: off, len: n, cap: cp})
		return []*State{s}
	case IfaceV:
		t := l.typ
		if t == nil {
			t = types.Universe.Lookup("error").Type()
			if x.t != nil {
				if tn, ok := r.eng.tpkg.Scope().Lookup("TProtocolException").(*types.TypeName); ok && types.Implements(x.t, tn.Type().Underlying().(*types.Interface)) {
					t = tn.Type()
				}
			}
		}
		if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			l.put(s, AnyV{c.Fresh("inv_any", AnyS)})
			return []*State{s}
		}
		sts, vs := r.freshResult(s, t, "inv")
		for i := range sts {
			l.put(sts[i], vs[i])
		}
		return sts
	case MapV, PtrV, FuncV, ChanV:
		if p, ok := v.(PtrV); ok && l.typ != nil {
			if f := r.eng.havocFn[l.typ.String()]; f != nil {
				return r.havocElem(s, l, f, p)
			}
		}
		panic(engErr(fmt.Sprintf("loop changes a %T (%s)", v, l.key())))
	}
	panic(engErr(fmt.Sprintf("loop changes a %T", v)))
}

// havocElem: an arbitrary element of the list of the element p, or nil.
func (r *Run) havocElem(s *State, l leaf, f *ssa.Function, p PtrV) []*State {
	lst := PtrV{}
	if p.obj != 0 {
		if !r.seqObj[p.obj] {
			panic(engErr("a container/list object that the contract of the library does not cover"))
		}
		lst = s.objVal(p.obj).(*StructV).f[1].(PtrV)
	} else { // nil so far: the only list there is
		for id := range r.seqObj {
			ov := s.heap[id]
			if ov == nil {
				ov = r.base[id]
			}
			if o, ok := ov.(*StructV); ok && len(o.f) == 3 {
				if lst.obj != 0 {
					panic(engErr("loop changes a list element; several lists"))
				}
				lst = PtrV{obj: id}
			}
		}
	}
	d := len(s.frames)
	loops := s.loops
	s.loops = nil
	s.pushFrame(f, []Val{lst}, nil, nil, fEngine)
	out := r.explore([]*State{s}, d)
	for _, x := range out {
		x.loops = loops
		l.put(x, x.rets)
	}
	return out
}

// ---------------------------------------------------------------- templates

// bindTmpl binds the parameters of an invariant template: parameters of the
// contract by name, loop variables by name and otherwise by type (every
// assignment is tried: conjuncts that do not hold are dropped).
func (r *Run) bindTmpl(s *State, fn *ssa.Function, li *loopInfo) []*boundTmpl {
	var cf *Frame
	for i := len(s.frames) - 1; i >= 0; i-- {
		if s.frames[i].ctr != nil {
			cf = s.frames[i]
			break
		}
	}
	if cf == nil {
		return nil
	}
	type src struct {
		arg Val
		phi *ssa.Phi
		ptr *PtrV // the value stored there
		as  types.Type // of a phi: converted to this type
	}
	type asg struct {
		srcs []src
		used map[ssa.Value]bool
	}
	srcs := make([]src, len(fn.Params))
	used := map[ssa.Value]bool{}
	// values from before the loop that the loop uses
	var outer []ssa.Value
	f := s.top()
	seen := map[ssa.Value]bool{}
	for bi, blk := range f.fn.Blocks {
		if !li.blocks[bi] {
			continue
		}
		for _, in := range blk.Instrs {
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil || seen[v] {
					continue
				}
				seen[v] = true
				switch x := v.(type) {
				case *ssa.Parameter:
				case ssa.Instruction:
					if li.blocks[x.Block().Index] {
						continue
					}
				default:
					continue
				}
				outer = append(outer, v)
			}
		}
	}
	var open []int
	for n, p := range fn.Params {
		found := false
		for i, cp := range cf.ctr.Fn.Params {
			if cp.Name() == p.Name() && types.Identical(cp.Type(), p.Type()) {
				srcs[n].arg = s.frameArg(cf, i)
				found = true
				break
			}
		}
		if found {
			continue
		}
		for _, q := range li.phis {
			if !used[q] && q.Comment == p.Name() && (types.Identical(q.Type(), p.Type()) || bothInts(q.Type(), p.Type())) {
				srcs[n].phi, srcs[n].as = q, p.Type()
				used[q] = true
				found = true
				break
			}
		}
		if !found {
			open = append(open, n)
		}
	}
	all := []asg{{srcs, used}}
	for _, n := range open {
		var next []asg
		for _, a := range all {
			for _, q := range li.phis {
				if a.used[q] || !types.Identical(q.Type(), fn.Params[n].Type()) {
					continue
				}
				b := asg{append([]src{}, a.srcs...), map[ssa.Value]bool{q: true}}
				for k := range a.used {
					b.used[k] = true
				}
				b.srcs[n].phi = q
				next = append(next, b)
			}
			if len(next) == 0 { // an integer variable of another type
				for _, q := range li.phis {
					if a.used[q] || !bothInts(q.Type(), fn.Params[n].Type()) {
						continue
					}
					b := asg{append([]src{}, a.srcs...), map[ssa.Value]bool{q: true}}
					for k := range a.used {
						b.used[k] = true
					}
					b.srcs[n].phi, b.srcs[n].as = q, fn.Params[n].Type()
					next = append(next, b)
				}
			}
			for _, q := range outer {
				if a.used[q] || !types.Identical(q.Type(), fn.Params[n].Type()) {
					continue
				}
				v := s.tryGet(q)
				if v == nil {
					continue
				}
				b := asg{append([]src{}, a.srcs...), map[ssa.Value]bool{q: true}}
				for k := range a.used {
					b.used[k] = true
				}
				b.srcs[n].arg = v
				next = append(next, b)
			}
			// what such values point to: variables, fields of structs
			for _, q := range outer {
				for _, p := range s.placesOf(q, fn.Params[n].Type()) {
					p := p
					b := asg{append([]src{}, a.srcs...), a.used}
					b.srcs[n].ptr = &p
					next = append(next, b)
				}
			}
		}
		all = next
	}
	if len(all) > 12 {
		all = all[:12]
	}
	var out []*boundTmpl
	for _, a := range all {
		srcs := a.srcs
		out = append(out, &boundTmpl{fn: fn, args: func(st *State) []Val {
			var out []Val
			for _, x := range srcs {
				if x.ptr != nil {
					out = append(out, st.load(*x.ptr))
					continue
				}
				if x.phi == nil {
					out = append(out, x.arg)
					continue
				}
				v := st.get(x.phi)
				if x.phi.Comment == "rangeindex" { // starts at -1: count of rounds begun
					v = r.c.Add(v.(*Term), r.c.Int(1))
				}
				if x.as != nil && !types.Identical(x.as, x.phi.Type()) {
					v = r.convert(st, v, x.phi.Type(), x.as)
				}
				out = append(out, v)
			}
			return out
		}})
	}
	return out
}

func bothInts(a, b types.Type) bool {
	_, _, k := basicInfo(a)
	_, _, l := basicInfo(b)
	return k == 2 && l == 2
}

// placesOf lists the variables of type t that the pointer v leads to.
func (s *State) placesOf(v ssa.Value, t types.Type) []PtrV {
	pt, ok := v.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	p, ok := s.tryGet(v).(PtrV)
	if !ok || p.obj == 0 {
		return nil
	}
	var out []PtrV
	if types.Identical(pt.Elem(), t) {
		out = append(out, p)
	}
	if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), t) {
				out = append(out, PtrV{p.obj, append(p.path[:len(p.path):len(p.path)], PE{field: i})})
			}
		}
	}
	ok = true
	func() {
		defer func() { ok = recover() == nil && ok }()
		for _, q := range out {
			s.load(q)
		}
	}()
	if !ok {
		return nil
	}
	return out
}

func (s *State) frameArg(f *Frame, i int) Val {
	return f.env[f.info.idx[f.fn.Params[i]]]
}

type posConj struct {
	pos token.Pos
	t   *Term
}

// tmplCheck evaluates the conjuncts of a template in the given header state.
func (r *Run) tmplCheck(s *State, bt *boundTmpl) []posConj {
	saveM, saveC, saveB := r.invMode, r.invCol, r.invBase
	r.invMode, r.invCol, r.invBase = 2, nil, s.pc
	r.quiet++
	defer func() { r.invMode, r.invCol, r.invBase = saveM, saveC, saveB; r.quiet-- }()
	st := s.clone()
	d := len(st.frames)
	st.loops = nil
	st.pushFrame(bt.fn, bt.args(s), nil, nil, fEngine)
	r.explore([]*State{st}, d)
	return r.invCol
}

// tmplAssume assumes the allowed conjuncts.
func (r *Run) tmplAssume(s *State, bt *boundTmpl, allowed map[token.Pos]bool) []*State {
	saveM, saveA := r.invMode, r.invAllowed
	r.invMode, r.invAllowed = 1, allowed
	r.quiet++
	defer func() { r.invMode, r.invAllowed = saveM, saveA; r.quiet-- }()
	d := len(s.frames)
	loops := s.loops
	s.loops = nil
	s.pushFrame(bt.fn, bt.args(s), nil, nil, fEngine)
	out := r.explore([]*State{s}, d)
	for _, x := range out {
		x.loops = loops
	}
	return out
}

// invConj handles one conjunct of a template.
func (r *Run) invConj(s *State, t *Term, fin func(Val) (hres, bool)) (hres, bool) {
	f := s.top()
	pos := f.blk.Instrs[f.ip].Pos()
	switch r.invMode {
	case 1:
		if r.invAllowed[pos] {
			s.assume(t)
			if !s.feasible() {
				return hres{nil, false}, true
			}
		}
	case 2:
		g := r.c.True
		for q := s.pc; q != r.invBase && q != nil; q = q.parent {
			g = r.c.And(q.t, g)
		}
		x := r.c.Implies(g, t)
		for i := range r.invCol {
			if r.invCol[i].pos == pos {
				r.invCol[i].t = r.c.And(r.invCol[i].t, x)
				return fin(nil)
			}
		}
		r.invCol = append(r.invCol, posConj{pos, x})
	default:
		panic(engErr("vInv outside a loop template"))
	}
	return fin(nil)
}
