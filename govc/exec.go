package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- function info

type FnInfo struct {
	idx     map[ssa.Value]int
	n       int
	headers map[int]*loopInfo // block index -> loop
	merge   uint8             // 1: evaluated on all paths at once, 2: not
	specSet uint8             // 1: from the contract files, 2: not
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[int]bool
	phis   []*ssa.Phi
}

var fnInfos sync.Map

func infoOf(fn *ssa.Function) *FnInfo {
	if v, ok := fnInfos.Load(fn); ok {
		return v.(*FnInfo)
	}
	fi := &FnInfo{idx: map[ssa.Value]int{}, headers: map[int]*loopInfo{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.headers[s.Index]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[int]bool{s.Index: true}}
					fi.headers[s.Index] = l
				}
				// natural loop
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x.Index] {
						continue
					}
					l.blocks[x.Index] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	for _, l := range fi.headers {
		for _, in := range l.header.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				l.phis = append(l.phis, p)
			}
		}
	}
	v, _ := fnInfos.LoadOrStore(fn, fi)
	return v.(*FnInfo)
}

// ---------------------------------------------------------------- types

func (r *Run) under(t types.Type) types.Type {
	if n, ok := t.(*types.Named); ok {
		if l, ok := r.eng.layouts[n.String()]; ok {
			return l.Underlying()
		}
	}
	return t.Underlying()
}

func basicInfo(t types.Type) (width int, signed bool, kind int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, 0
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, 1
	case types.Int, types.UntypedInt, types.Int64:
		return 64, true, 2
	case types.UntypedRune, types.Int32:
		return 32, true, 2
	case types.Int8:
		return 8, true, 2
	case types.Int16:
		return 16, true, 2
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, 2
	case types.Uint8:
		return 8, false, 2
	case types.Uint16:
		return 16, false, 2
	case types.Uint32:
		return 32, false, 2
	case types.Float32:
		return 32, false, 3
	case types.Float64, types.UntypedFloat:
		return 64, false, 3
	case types.String, types.UntypedString:
		return 0, false, 4
	}
	return 0, false, 0
}

func (r *Run) zero(t types.Type) Val {
	c := r.c
	switch u := r.under(t).(type) {
	case *types.Basic:
		w, _, k := basicInfo(u)
		switch k {
		case 1:
			return c.False
		case 2, 3:
			return c.Const(w, 0)
		case 4:
			return StrV{c.seqOf(nil)}
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return PtrV{}
		}
		if u.Kind() == types.Complex128 || u.Kind() == types.Complex64 {
			return c.Const(64, 0)
		}
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		return SliceV{off: c.Int(0), len: c.Int(0), cap: c.Int(0)}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, r.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return ArrV{r.zeroSeq(u.Elem(), c.Int(u.Len()))}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, r.zero(u.At(i).Type()))
		}
		return tv
	}
	panic(engErr("zero value of " + t.String()))
}

func (r *Run) zeroSeq(elem types.Type, n *Term) *Seq {
	c := r.c
	z := r.zero(elem)
	if n.isConst() && n.val <= 64 {
		vs := make([]Val, n.val)
		for i := range vs {
			vs[i] = z
		}
		return c.litSeq(vs)
	}
	k := valKey(z)
	if st, ok := z.(StrV); ok && len(st.s.segs) == 0 {
		k = "emptystr"
	}
	s := r.zeros[k]
	if s == nil {
		s = c.newSource(Source{zero: z})
		r.zeros[k] = s
	}
	return c.srcSeq(s, c.Int(0), n)
}

func (r *Run) constVal(k *ssa.Const) Val {
	c := r.c
	t := k.Type()
	if k.Value == nil {
		return r.zero(t)
	}
	w, signed, kind := basicInfo(t)
	switch kind {
	case 1:
		return c.Bool(constant.BoolVal(k.Value))
	case 2:
		v := constant.ToInt(k.Value)
		if signed {
			i, _ := constant.Int64Val(v)
			return c.Const(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return c.Const(w, u)
	case 3:
		f, _ := constant.Float64Val(k.Value)
		if w == 32 {
			f32, _ := constant.Float32Val(k.Value)
			return c.Const(32, uint64(math.Float32bits(f32)))
		}
		return c.Const(64, math.Float64bits(f))
	case 4:
		return StrV{c.strLit(constant.StringVal(k.Value))}
	}
	panic(engErr("constant of type " + t.String()))
}

// ---------------------------------------------------------------- values

func (s *State) get(v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return s.r.constVal(x)
	case *ssa.Global:
		return PtrV{obj: s.r.globalObj(s, x)}
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return FuncV{blt: x.Name()}
	}
	f := s.top()
	i, ok := f.info.idx[v]
	if !ok {
		panic(engErr("no value for " + v.Name()))
	}
	r := f.env[i]
	if r == nil {
		panic(engErr("undefined value " + v.Name() + " in " + f.fn.String()))
	}
	return r
}

func (s *State) set(v ssa.Value, x Val) {
	f := s.top()
	f.env[f.info.idx[v]] = x
}

func (s *State) pushFrame(fn *ssa.Function, args []Val, bind []Val, dest ssa.Value, mode int) *Frame {
	fi := infoOf(fn)
	f := &Frame{fn: fn, info: fi, env: make([]Val, fi.n), blk: fn.Blocks[0], dest: dest, mode: mode, args: args}
	for i, p := range fn.Params {
		f.env[fi.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[fi.idx[p]] = bind[i]
	}
	s.frames = append(s.frames, f)
	return f
}

// ---------------------------------------------------------------- exploration

type pathEnd struct{ why string }

// explore runs states until their frame stack is back at depth stop.
func (r *Run) explore(init []*State, stop int) []*State {
	var done []*State
	work := append([]*State{}, init...)
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if len(s.frames) <= stop {
				done = append(done, s)
				break
			}
			r.steps++
			if r.steps&1023 == 0 {
				r.checkBudget()
			}
			forks, alive := r.stepSafe(s)
			work = append(work, forks...)
			if !alive {
				break
			}
		}
	}
	return done
}

func (r *Run) stepSafe(s *State) (forks []*State, alive bool) {
	defer func() {
		if e := recover(); e != nil {
			if q, ok := e.(inlineReq); ok {
				forks, alive = r.fallbackInline(q)
				return
			}
			if r.intrp == "" {
				r.intrp = r.trace(s)
			}
			panic(e)
		}
	}()
	return r.step(s)
}

func (r *Run) pos(s *State) string {
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		if f.blk != nil && f.ip < len(f.blk.Instrs) {
			p := f.blk.Instrs[f.ip].Pos()
			if p == token.NoPos {
				continue
			}
			ps := r.eng.fset.Position(p)
			return fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
		}
	}
	return "?"
}

func shortFile(f string) string {
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		return f[i+1:]
	}
	return f
}

func (r *Run) step(s *State) (forks []*State, alive bool) {
	f := s.top()
	if f.ip >= len(f.blk.Instrs) {
		panic(engErr("fell off block"))
	}
	in := f.blk.Instrs[f.ip]
	c := r.c
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		// handled at jump
	case *ssa.Alloc:
		id := s.newObj(r.zero(x.Type().Underlying().(*types.Pointer).Elem()))
		if s.top().mode&^0x1000 == FVerify {
			r.ctrObj[id] = true
		}
		s.set(x, PtrV{obj: id})
	case *ssa.BinOp:
		v, alive := r.binop(s, x)
		if !alive {
			return nil, false
		}
		s.set(x, v)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := s.get(x.X).(PtrV)
			if !r.notNil(s, p, "nil-dereference") {
				return nil, false
			}
			// symbolic index over non-scalar elements needs a fork
			if fs := r.forkIndex(s, p, x); fs != nil {
				return fs, false
			}
			s.set(x, s.load(r.elemValue(s, p)))
		case token.SUB:
			a := s.get(x.X).(*Term)
			if _, _, k := basicInfo(x.X.Type()); k == 3 {
				s.set(x, c.BXor(a, c.Const(a.sort.N, uint64(1)<<uint(a.sort.N-1))))
			} else {
				s.set(x, c.Neg(a))
			}
		case token.NOT:
			s.set(x, c.Not(s.get(x.X).(*Term)))
		case token.XOR:
			s.set(x, c.BNot(s.get(x.X).(*Term)))
		case token.ARROW:
			return r.chanRecv(s, x)
		default:
			panic(engErr("unop " + x.Op.String()))
		}
	case *ssa.ChangeInterface:
		s.set(x, s.get(x.X))
	case *ssa.ChangeType:
		s.set(x, s.get(x.X))
	case *ssa.Convert:
		s.set(x, r.convert(s, s.get(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		s.set(x, r.convert(s, s.get(x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		s.set(x, IfaceV{t: x.X.Type(), v: s.get(x.X)})
	case *ssa.MakeClosure:
		fv := FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.bind = append(fv.bind, s.get(b))
		}
		s.set(x, fv)
	case *ssa.MakeMap:
		m := x.Type().Underlying().(*types.Map)
		s.set(x, MapV{s.newObj(&MapObj{kt: m.Key(), vt: m.Elem()})})
	case *ssa.MakeChan:
		s.set(x, ChanV{s.newObj(&ChanObj{})})
	case *ssa.MakeSlice:
		n := r.toInt(s.get(x.Len).(*Term), x.Len.Type())
		k := r.toInt(s.get(x.Cap).(*Term), x.Cap.Type())
		if !r.oblige(s, "safety:makeslice", c.And(c.Sle(c.Int(0), n), c.Ule(n, c.Int(int64(maxLen))), c.Sle(n, k), c.Ule(k, c.Int(int64(maxLen)))), "length of make out of range") {
			return nil, false
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		obj := s.newObj(ArrV{r.zeroSeq(et, k)})
		s.set(x, SliceV{obj: obj, off: c.Int(0), len: n, cap: k})
	case *ssa.Slice:
		v, alive := r.slice(s, x)
		if !alive {
			return nil, false
		}
		s.set(x, v)
	case *ssa.FieldAddr:
		p := s.get(x.X).(PtrV)
		if !r.notNil(s, p, "nil-dereference") {
			return nil, false
		}
		s.set(x, PtrV{p.obj, append(p.path[:len(p.path):len(p.path)], PE{field: x.Field})})
	case *ssa.Field:
		s.set(x, s.get(x.X).(*StructV).f[x.Field])
	case *ssa.IndexAddr:
		i := r.toInt(s.get(x.Index).(*Term), x.Index.Type())
		switch b := s.get(x.X).(type) {
		case SliceV:
			if !r.oblige(s, "safety:index", c.Ult(i, b.len), "slice index out of range") {
				return nil, false
			}
			s.set(x, PtrV{b.obj, append(b.path[:len(b.path):len(b.path)], PE{idx: c.Add(b.off, i)})})
		case PtrV:
			if !r.notNil(s, b, "nil-dereference") {
				return nil, false
			}
			n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			if !r.oblige(s, "safety:index", c.Ult(i, c.Int(n)), "array index out of range") {
				return nil, false
			}
			s.set(x, PtrV{b.obj, append(b.path[:len(b.path):len(b.path)], PE{idx: i})})
		default:
			panic(engErr(fmt.Sprintf("indexaddr %T", b)))
		}
	case *ssa.Index:
		i := r.toInt(s.get(x.Index).(*Term), x.Index.Type())
		var q *Seq
		switch b := s.get(x.X).(type) {
		case StrV:
			q = b.s
		case ArrV:
			q = b.s
		}
		if !r.oblige(s, "safety:index", c.Ult(i, q.n), "index out of range") {
			return nil, false
		}
		s.set(x, c.seqAt(q, i))
	case *ssa.Lookup:
		return r.lookup(s, x)
	case *ssa.MapUpdate:
		m := s.get(x.Map).(MapV)
		if !r.oblige(s, "safety:nilmap", c.Bool(m.obj != 0), "assignment to nil map") {
			return nil, false
		}
		fs, ok := r.mapWrite(s, m, s.get(x.Key), s.get(x.Value), false)
		if !ok {
			return fs, false
		}
	case *ssa.Range:
		switch b := s.get(x.X).(type) {
		case MapV:
			it := IterV{}
			if b.obj != 0 {
				mo := s.objVal(b.obj).(*MapObj)
				if mo.base != nil {
					panic(engErr("range over symbolic map"))
				}
				for _, w := range mo.writes {
					if !w.del {
						it.live = append(it.live, w)
					}
				}
			}
			if len(it.live) > 1 {
				r.note("map iteration explored in insertion order only")
			}
			s.set(x, PtrV{obj: s.newObj(it)})
		case StrV:
			s.set(x, PtrV{obj: s.newObj(IterV{str: b.s})})
		}
	case *ssa.Next:
		return r.next(s, x)
	case *ssa.Extract:
		s.set(x, s.get(x.Tuple).(TupleV)[x.Index])
	case *ssa.Store:
		p := s.get(x.Addr).(PtrV)
		if !r.notNil(s, p, "nil-dereference") {
			return nil, false
		}
		s.store(r.elemValue(s, p), s.get(x.Val))
	case *ssa.TypeAssert:
		return r.typeAssert(s, x)
	case *ssa.Call:
		return r.call(s, x.Common(), x)
	case *ssa.Go:
		return r.goStmt(s, x)
	case *ssa.Defer:
		fv, args := r.resolve(s, x.Common())
		if fv.fn == nil && fv.blt == "" {
			r.oblige(s, "safety:nil-dereference", c.False, "call of nil in defer")
			return nil, false
		}
		f.defers = append(f.defers, deferred{fv, args, x.Common()})
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			// do not advance ip: run remaining defers afterwards
			return r.invoke(s, d.fn, d.args, nil, d.call, true)
		}
	case *ssa.Panic:
		r.oblige(s, "safety:panic", c.False, "explicit panic reached")
		return nil, false
	case *ssa.Send:
		ch := s.get(x.Chan).(ChanV)
		co := s.objVal(ch.obj).(*ChanObj)
		n := &ChanObj{q: append(co.q[:len(co.q):len(co.q)], s.get(x.X)), closed: co.closed}
		s.store(PtrV{obj: ch.obj}, n)
	case *ssa.Select:
		panic(engErr("select statement"))
	case *ssa.If:
		return r.branch(s, x)
	case *ssa.Jump:
		return r.jump(s, f.blk.Succs[0])
	case *ssa.Return:
		return r.ret(s, x)
	default:
		panic(engErr(fmt.Sprintf("instruction %T", in)))
	}
	f.ip++
	return nil, true
}

type ChanObj struct {
	q      []Val
	closed bool
}

func (r *Run) chanRecv(s *State, x *ssa.UnOp) ([]*State, bool) {
	ch := s.get(x.X).(ChanV)
	co := s.objVal(ch.obj).(*ChanObj)
	var v Val
	ok := r.c.True
	if len(co.q) > 0 {
		v = co.q[0]
		s.store(PtrV{obj: ch.obj}, &ChanObj{q: co.q[1:], closed: co.closed})
	} else if co.closed {
		v = r.zero(x.X.Type().Underlying().(*types.Chan).Elem())
		ok = r.c.False
	} else {
		panic(engErr("receive from empty channel"))
	}
	if x.CommaOk {
		s.set(x, TupleV{v, ok})
	} else {
		s.set(x, v)
	}
	s.top().ip++
	return nil, true
}

func (r *Run) notNil(s *State, p PtrV, what string) bool {
	if p.obj != 0 {
		return true
	}
	r.oblige(s, "safety:"+what, r.c.False, "nil pointer dereference")
	return false
}

func (r *Run) toInt(t *Term, ty types.Type) *Term {
	_, signed, _ := basicInfo(ty)
	return r.c.Resize(t, 64, signed)
}

// forkIndex: load through a symbolic index into non-scalar literal elements.
func (r *Run) forkIndex(s *State, p PtrV, x *ssa.UnOp) (fs []*State) {
	if len(p.path) == 0 {
		return nil
	}
	defer func() {
		if e := recover(); e != nil {
			if ee, ok := e.(engErr); ok && strings.Contains(string(ee), "non-scalar") {
				fs = r.forkIndexSlow(s, p, x)
				return
			}
			panic(e)
		}
	}()
	s.load(p)
	return nil
}

func (r *Run) forkIndexSlow(s *State, p PtrV, x *ssa.UnOp) []*State {
	c := r.c
	// find first symbolic index
	v := s.objVal(p.obj)
	for i, e := range p.path {
		if e.idx != nil && !e.idx.isConst() {
			n := v.(ArrV).s.n
			if !n.isConst() || n.val > 64 {
				panic(engErr("symbolic index into large non-scalar array"))
			}
			var out []*State
			for k := int64(0); k < int64(n.val); k++ {
				g := c.Eq(e.idx, c.Int(k))
				if s.decide(g) == -1 {
					continue
				}
				t := s.clone()
				t.assume(g)
				np := PtrV{p.obj, append([]PE{}, p.path...)}
				np.path[i] = PE{idx: c.Int(k)}
				if i+1 < len(p.path) {
					panic(engErr("nested symbolic index"))
				}
				t.set(x, t.load(np))
				t.top().ip++
				out = append(out, t)
			}
			return out
		}
		v = s.project(v, e)
	}
	panic(engErr("forkIndex"))
}

// ---------------------------------------------------------------- control flow

func (r *Run) branch(s *State, x *ssa.If) ([]*State, bool) {
	cond := s.get(x.Cond).(*Term)
	b := s.top().blk
	if cond.isTrue() {
		return r.jump(s, b.Succs[0])
	}
	if cond.isFalse() {
		return r.jump(s, b.Succs[1])
	}
	t := s.clone()
	s.assume(cond)
	t.assume(r.c.Not(cond))
	sf := s.feasible()
	tf := true
	if sf {
		tf = t.feasible()
	}
	var out []*State
	if tf {
		fs, alive := r.jump(t, b.Succs[1])
		out = append(out, fs...)
		if alive {
			out = append(out, t)
		}
	}
	if !sf {
		return out, false
	}
	r.paths++
	if r.paths > r.maxPaths {
		panic(engErr("too many paths"))
	}
	fs, alive := r.jump(s, b.Succs[0])
	return append(out, fs...), alive
}

func (s *State) enterBlock(to *ssa.BasicBlock) {
	f := s.top()
	from := f.blk
	var pi int
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	// parallel phi assignment
	var vals []Val
	n := 0
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, s.get(p.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		s.set(to.Instrs[i].(*ssa.Phi), vals[i])
	}
	f.prev = from
	f.blk = to
	f.ip = n
}

func (r *Run) jump(s *State, to *ssa.BasicBlock) ([]*State, bool) {
	f := s.top()
	from := f.blk
	s.enterBlock(to)
	return r.arrive(s, from)
}

// arrive handles loop bookkeeping after control moved from block "from" to the current block.
func (r *Run) arrive(s *State, from *ssa.BasicBlock) ([]*State, bool) {
	f := s.top()
	to := f.blk
	if l := f.stop; l != nil && l.depth == len(s.frames) {
		if !l.info.blocks[to.Index] {
			// leaving the loop being explored
			f.exitFrom = from
			l.exits = append(l.exits, s)
			return nil, false
		}
		if to == l.info.header {
			l.backs = append(l.backs, s)
			return nil, false
		}
	}
	if li, ok := f.info.headers[to.Index]; ok {
		back := li.blocks[from.Index]
		if !back && r.wantInvariant(s, li) {
			return r.loopInvariant(s, li)
		}
		if f.visits == nil {
			f.visits = map[int]int{}
		}
		if !back {
			f.visits[to.Index] = 0
		} else {
			f.visits[to.Index]++
			if f.visits[to.Index] > r.unroll {
				// is another iteration really possible?
				if s.feasible() {
					if r.bounded {
						r.cutPaths++
						return nil, false
					}
					r.fail(s, "unwinding:"+fnName(f.fn), "loop not covered by an invariant exceeds the unrolling limit", Unknown, nil, false)
				}
				return nil, false
			}
		}
	}
	return nil, true
}

func (r *Run) ret(s *State, x *ssa.Return) ([]*State, bool) {
	f := s.top()
	var v Val
	switch len(x.Results) {
	case 0:
	case 1:
		v = s.get(x.Results[0])
	default:
		var tv TupleV
		for _, e := range x.Results {
			tv = append(tv, s.get(e))
		}
		v = tv
	}
	return r.doReturn(s, f, v)
}

func (r *Run) doReturn(s *State, f *Frame, v Val) ([]*State, bool) {
	if m := f.mode &^ 0x1000; m == FVerify && r.quiet == 0 {
		r.frameCheck(s, f)
	}
	s.frames = s.frames[:len(s.frames)-1]
	s.rets = v
	if f.post != nil && !f.post(s, v) {
		return nil, false
	}
	if len(s.frames) > 0 && !f.dropRet {
		g := s.top()
		if f.dest != nil {
			if v != nil {
				g.env[g.info.idx[f.dest]] = v
			} else {
				g.env[g.info.idx[f.dest]] = TupleV{}
			}
		}
		if f.mode != fEngine {
			if f.noAdvance() {
			} else {
				g.ip++
			}
		}
	}
	return nil, true
}

const fEngine = 100

func (f *Frame) noAdvance() bool { return f.mode&0x1000 != 0 }

func fnName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, "thrift.", "")
	return s
}

// ---------------------------------------------------------------- operations

func (r *Run) binop(s *State, x *ssa.BinOp) (Val, bool) {
	c := r.c
	a, b := s.get(x.X), s.get(x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		t, alive := r.compare(s, a, b, x.X.Type())
		if !alive {
			return nil, false
		}
		if x.Op == token.NEQ {
			t = c.Not(t)
		}
		return t, true
	}
	if sa, ok := a.(StrV); ok {
		sb := b.(StrV)
		switch x.Op {
		case token.ADD:
			return StrV{c.concat(sa.s, sb.s)}, true
		case token.LSS:
			return r.strLess(s, sa.s, sb.s), true
		case token.GTR:
			return r.strLess(s, sb.s, sa.s), true
		case token.LEQ:
			return c.Not(r.strLess(s, sb.s, sa.s)), true
		case token.GEQ:
			return c.Not(r.strLess(s, sa.s, sb.s)), true
		}
	}
	ta, tb := a.(*Term), b.(*Term)
	w, signed, kind := basicInfo(x.X.Type())
	if kind == 1 {
		switch x.Op {
		case token.AND, token.LAND:
			return c.And(ta, tb), true
		case token.OR, token.LOR:
			return c.Or(ta, tb), true
		}
	}
	if kind == 3 {
		return r.fpOp(x.Op, ta, tb, w), true
	}
	switch x.Op {
	case token.ADD:
		return c.Add(ta, tb), true
	case token.SUB:
		return c.Sub(ta, tb), true
	case token.MUL:
		return c.Mul(ta, tb), true
	case token.QUO, token.REM:
		if !r.oblige(s, "safety:div", c.Not(c.Eq(tb, c.Const(w, 0))), "integer divide by zero") {
			return nil, false
		}
		op := OUDiv
		if signed {
			op = OSDiv
			if x.Op == token.REM {
				op = OSRem
			}
		} else if x.Op == token.REM {
			op = OURem
		}
		return c.Bin(op, ta, tb), true
	case token.AND:
		return c.BAnd(ta, tb), true
	case token.OR:
		return c.BOr(ta, tb), true
	case token.XOR:
		return c.BXor(ta, tb), true
	case token.AND_NOT:
		return c.BAnd(ta, c.BNot(tb)), true
	case token.SHL, token.SHR:
		_, ysigned, _ := basicInfo(x.Y.Type())
		if ysigned && !tb.isConst() {
			if !r.oblige(s, "safety:shift", c.Sle(c.Const(tb.sort.N, 0), tb), "negative shift amount") {
				return nil, false
			}
		}
		var y *Term
		if tb.sort.N > w {
			// saturate
			y = c.Ite(c.Ult(tb, c.Const(tb.sort.N, uint64(w))), c.Extract(tb, w-1, 0), c.Const(w, uint64(w)))
			if w < 8 {
				panic(engErr("shift width"))
			}
		} else {
			y = c.Zext(tb, w)
		}
		if x.Op == token.SHL {
			return c.Shl(ta, y), true
		}
		if signed {
			return c.Ashr(ta, y), true
		}
		return c.Lshr(ta, y), true
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		lt := c.Ult
		if signed {
			lt = c.Slt
		}
		switch x.Op {
		case token.LSS:
			return lt(ta, tb), true
		case token.GTR:
			return lt(tb, ta), true
		case token.LEQ:
			return c.Not(lt(tb, ta)), true
		default:
			return c.Not(lt(ta, tb)), true
		}
	}
	panic(engErr("binop " + x.Op.String()))
}

// IEEE comparisons over the bits of the operands.
func (r *Run) fpParts(t *Term, w int) (nan, neg, zero *Term) {
	c := r.c
	mag, inf := uint64(1)<<63-1, uint64(0x7ff)<<52
	if w == 32 {
		mag, inf = 1<<31-1, 0xff<<23
	}
	m := c.BAnd(t, c.Const(w, mag))
	return c.Ult(c.Const(w, inf), m), c.Slt(t, c.Const(w, 0)), c.Eq(m, c.Const(w, 0))
}

func (r *Run) fpLess(a, b *Term, w int) *Term {
	c := r.c
	ka, na := r.fpKey(a, w)
	kb, nb := r.fpKey(b, w)
	return c.And(c.Not(na), c.Not(nb), c.Ult(ka, kb))
}

func (r *Run) fpEq(a, b *Term, w int) *Term {
	c := r.c
	ka, na := r.fpKey(a, w)
	kb, nb := r.fpKey(b, w)
	return c.And(c.Not(na), c.Not(nb), c.Eq(ka, kb))
}

// fpKey maps the numbers to unsigned integers of the same order (both zeros to
// one) and tells what is not a number. The definition is attached to terms
// without bound variables.
func (r *Run) fpKey(a *Term, w int) (key, nan *Term) {
	c := r.c
	n, sa, za := r.fpParts(a, w)
	top := c.Const(w, uint64(1)<<uint(w-1))
	k := c.Ite(za, top, c.Ite(sa, c.Sub(c.Const(w, ^uint64(0)>>uint(64-w)), a), c.Add(a, top)))
	if a.isConst() {
		return k, n
	}
	key, nan = c.App(fmt.Sprintf("fpkey%d", w), BV(w), a), c.App(fmt.Sprintf("fpnan%d", w), BoolS, a)
	if !a.bound {
		if _, ok := c.axioms[key.id]; !ok {
			c.axioms[key.id] = []*Term{c.Eq(key, k)}
			c.axioms[nan.id] = []*Term{c.Eq(nan, n)}
		}
	}
	return
}

func (r *Run) fpOp(op token.Token, a, b *Term, w int) Val {
	c := r.c
	if a.isConst() && b.isConst() && w == 64 {
		x, y := math.Float64frombits(a.val), math.Float64frombits(b.val)
		switch op {
		case token.LSS:
			return c.Bool(x < y)
		case token.GTR:
			return c.Bool(x > y)
		case token.LEQ:
			return c.Bool(x <= y)
		case token.GEQ:
			return c.Bool(x >= y)
		}
	}
	switch op {
	case token.LSS:
		return r.fpLess(a, b, w)
	case token.GTR:
		return r.fpLess(b, a, w)
	case token.LEQ:
		return c.Or(r.fpLess(a, b, w), r.fpEq(a, b, w))
	case token.GEQ:
		return c.Or(r.fpLess(b, a, w), r.fpEq(a, b, w))
	}
	return c.App(fmt.Sprintf("fparith_%s_%d", op, w), BV(w), a, b)
}

func (r *Run) compare(s *State, a, b Val, t types.Type) (*Term, bool) {
	c := r.c
	w, _, k := basicInfo(t)
	if k == 3 {
		return r.fpEq(a.(*Term), b.(*Term), w), true
	}
	if ia, ok := a.(IfaceV); ok {
		if ib, ok := b.(IfaceV); ok && ia.t != nil && ib.t != nil && types.Identical(ia.t, ib.t) {
			if !types.Comparable(ia.t) {
				r.oblige(s, "safety:uncomparable", c.False, "comparing uncomparable type "+ia.t.String())
				return nil, false
			}
			return r.compare(s, ia.v, ib.v, ia.t)
		}
	}
	_, anyA := a.(AnyV)
	_, anyB := b.(AnyV)
	if anyA || anyB {
		if t, ok := r.anyEq(a, b); ok {
			return t, true
		}
	}
	e, ok := s.eqVal(a, b)
	if !ok {
		panic(engErr(fmt.Sprintf("comparison of %T and %T", a, b)))
	}
	return e, true
}

// elemValue: the Value field of a list element is the entry of the list's sequence.
func (r *Run) elemValue(s *State, p PtrV) PtrV {
	if !r.seqObj[p.obj] || len(p.path) != 2 || p.path[0].field != 0 || p.path[1].field != 3 {
		return p
	}
	e := s.objVal(p.obj).(*StructV)
	l, ok := e.f[1].(PtrV)
	if !ok {
		return p
	}
	pos := e.f[2].(*Term)
	if pos.isConst() && int64(pos.val) < 0 { // removed
		return p
	}
	o := s.objVal(l.obj).(*StructV)
	if o.f[2].(*Term) != e.f[3].(*Term) {
		panic(engErr("use of a list element after a change of the list"))
	}
	q := o.f[1].(SliceV)
	return PtrV{q.obj, append(append([]PE{}, q.path...), PE{idx: r.c.Add(q.off, pos)})}
}

// anyEq is == on interface values of which one is opaque: floats compare as numbers.
func (r *Run) anyEq(a, b Val) (*Term, bool) {
	c := r.c
	x, ok1 := c.anyTerm(a)
	y, ok2 := c.anyTerm(b)
	if !ok1 || !ok2 {
		return nil, false
	}
	e := c.Eq(x, y)
	for _, f := range []struct {
		k string
		t types.Type
		w int
	}{{"float64", types.Typ[types.Float64], 64}, {"float32", types.Typ[types.Float32], 32}} {
		both := c.And(r.isAny(f.k, x), r.isAny(f.k, y))
		if both.isFalse() {
			continue
		}
		u, v := r.unAny(f.k, f.t, x).(*Term), r.unAny(f.k, f.t, y).(*Term)
		e = c.Ite(both, r.fpEq(u, v, f.w), e)
	}
	return e, true
}

func (r *Run) strLess(s *State, a, b *Seq) *Term {
	c := r.c
	if x, ok := c.constStr(a); ok {
		if y, ok := c.constStr(b); ok {
			return c.Bool(x < y)
		}
	}
	ta, tb := c.strTerm(a), c.strTerm(b)
	if ta == tb {
		return c.False
	}
	l := c.App("strlt", BoolS, ta, tb)
	g := c.App("strlt", BoolS, tb, ta)
	if ta.bound || tb.bound {
		return l
	}
	e := s.seqEq(a, b)
	// trichotomy
	ax := []*Term{c.Not(c.And(l, g)), c.Implies(e, c.And(c.Not(l), c.Not(g))), c.Implies(c.And(c.Not(l), c.Not(g)), e)}
	key := fmt.Sprintf("%d<%d", ta.id, tb.id)
	if !r.triDone[key] {
		r.triDone[key] = true
	}
	for _, t := range ax {
		s.assume(t)
	}
	return l
}

func (r *Run) convert(s *State, v Val, from, to types.Type) Val {
	c := r.c
	fw, fs, fk := basicInfo(from)
	tw, _, tk := basicInfo(to)
	switch {
	case fk == 2 && tk == 2:
		return c.Resize(v.(*Term), tw, fs)
	case fk == 2 && tk == 3:
		sg := "u"
		if fs {
			sg = "s"
		}
		t := v.(*Term)
		if t.isConst() {
			var f float64
			if fs {
				f = float64(t.sval())
			} else {
				f = float64(t.val)
			}
			if tw == 64 {
				return c.Const(64, math.Float64bits(f))
			}
			return c.Const(32, uint64(math.Float32bits(float32(f))))
		}
		return c.App(fmt.Sprintf("i2f_%s%d_%d", sg, fw, tw), BV(tw), t)
	case fk == 3 && tk == 2:
		_, ts, _ := basicInfo(to)
		sg := "u"
		if ts {
			sg = "s"
		}
		return c.App(fmt.Sprintf("f2i_%d_%s%d", fw, sg, tw), BV(tw), v.(*Term))
	case fk == 3 && tk == 3:
		t := v.(*Term)
		if fw == tw {
			return t
		}
		if t.isConst() {
			if fw == 64 {
				return c.Const(32, uint64(math.Float32bits(float32(math.Float64frombits(t.val)))))
			}
			return c.Const(64, math.Float64bits(float64(math.Float32frombits(uint32(t.val)))))
		}
		return c.App(fmt.Sprintf("f2f_%d_%d", fw, tw), BV(tw), t)
	case fk == 2 && tk == 4:
		t := c.Resize(v.(*Term), 64, fs)
		if t.isConst() {
			return StrV{c.strLit(string(rune(t.sval())))}
		}
		return StrV{c.strTermSeq(c.App("runestr", StrS, t))}
	case fk == 4 && tk == 4:
		return v
	case fk == 4:
		if sl, ok := to.Underlying().(*types.Slice); ok {
			q := v.(StrV).s
			if w, _, _ := basicInfo(sl.Elem()); w == 8 {
				return SliceV{obj: s.newObj(ArrV{q}), off: c.Int(0), len: q.n, cap: q.n}
			}
			panic(engErr("[]rune conversion"))
		}
	case tk == 4:
		if sl, ok := v.(SliceV); ok {
			return StrV{s.sliceSeq(sl)}
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	return v
}

// sliceSeq returns the current content of a slice.
func (s *State) sliceSeq(sl SliceV) *Seq {
	if sl.obj == 0 {
		return s.c.seqOf(nil)
	}
	a := s.load(PtrV{sl.obj, sl.path}).(ArrV)
	return s.sub(a.s, sl.off, sl.len)
}

// sliceWrite overwrites elements [at, at+len(q)) of the slice.
func (s *State) sliceWrite(sl SliceV, at *Term, q *Seq) {
	if q.n.isConst() && q.n.val == 0 {
		return
	}
	p := PtrV{sl.obj, sl.path}
	a := s.load(p).(ArrV)
	start := s.c.Add(sl.off, at)
	l, rest := s.cut(a.s, start)
	_, rr := s.cut(rest, q.n)
	s.store(p, ArrV{s.c.concat(l, q, rr)})
}

func (r *Run) slice(s *State, x *ssa.Slice) (Val, bool) {
	c := r.c
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return r.toInt(s.get(v).(*Term), v.Type())
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = c.Int(0)
	}
	switch b := s.get(x.X).(type) {
	case StrV:
		if hi == nil {
			hi = b.s.n
		}
		if !r.oblige(s, "safety:slice", c.And(c.Ule(hi, b.s.n), c.Ule(lo, hi)), "slice bounds out of range") {
			return nil, false
		}
		return StrV{s.sub(b.s, lo, c.Sub(hi, lo))}, true
	case SliceV:
		if hi == nil {
			hi = b.len
		}
		capv := b.cap
		if mx != nil {
			if !r.oblige(s, "safety:slice", c.And(c.Ule(mx, b.cap), c.Ule(hi, mx)), "slice bounds out of range") {
				return nil, false
			}
			capv = mx
		}
		if !r.oblige(s, "safety:slice", c.And(c.Ule(hi, b.cap), c.Ule(lo, hi)), "slice bounds out of range") {
			return nil, false
		}
		if b.obj == 0 {
			return b, true
		}
		return SliceV{b.obj, b.path, c.Add(b.off, lo), c.Sub(hi, lo), c.Sub(capv, lo)}, true
	case PtrV:
		if !r.notNil(s, b, "nil-dereference") {
			return nil, false
		}
		n := c.Int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		if !r.oblige(s, "safety:slice", c.And(c.Ule(mx, n), c.Ule(hi, mx), c.Ule(lo, hi)), "slice bounds out of range") {
			return nil, false
		}
		return SliceV{b.obj, b.path, lo, c.Sub(hi, lo), c.Sub(mx, lo)}, true
	}
	panic(engErr("slice of unknown value"))
}

// ---------------------------------------------------------------- maps

func (r *Run) lookup(s *State, x *ssa.Lookup) ([]*State, bool) {
	c := r.c
	switch b := s.get(x.X).(type) {
	case StrV:
		i := r.toInt(s.get(x.Index).(*Term), x.Index.Type())
		if !r.oblige(s, "safety:index", c.Ult(i, b.s.n), "string index out of range") {
			return nil, false
		}
		s.set(x, c.seqAt(b.s, i))
		s.top().ip++
		return nil, true
	case MapV:
		mt := x.X.Type().Underlying().(*types.Map)
		key := s.get(x.Index)
		var mo *MapObj
		if b.obj != 0 {
			mo = s.objVal(b.obj).(*MapObj)
		} else {
			mo = &MapObj{kt: mt.Key(), vt: mt.Elem()}
		}
		if v, ok, good := r.lookupMerged(mo, key, mt); good {
			if x.CommaOk {
				s.set(x, TupleV{v, ok})
			} else {
				s.set(x, v)
			}
			s.top().ip++
			return nil, true
		}
		var out []*State
		cur := s
		finish := func(st *State, v Val, ok *Term) {
			if x.CommaOk {
				st.set(x, TupleV{v, ok})
			} else {
				st.set(x, v)
			}
			st.top().ip++
			out = append(out, st)
		}
		for i := len(mo.writes) - 1; i >= 0; i-- {
			w := mo.writes[i]
			e, alive := r.compare(cur, w.key, key, mt.Key())
			if !alive {
				return out, false
			}
			hit := func(st *State) {
				if w.del {
					finish(st, r.zero(mt.Elem()), c.False)
				} else {
					finish(st, w.val, c.True)
				}
			}
			if e.isTrue() {
				hit(cur)
				return out, false
			}
			if e.isFalse() {
				continue
			}
			t := cur.clone()
			t.assume(e)
			if t.feasible() {
				hit(t)
			}
			cur.assume(c.Not(e))
			if !cur.feasible() {
				return out, false
			}
		}
		if mo.base != nil {
			v, ok := r.mapBaseAt(cur, mo, key)
			if mo.base.shape != nil {
				t := cur.clone()
				t.assume(ok)
				if t.feasible() {
					finish(t, v, c.True)
				}
				cur.assume(c.Not(ok))
				if cur.feasible() {
					finish(cur, r.zero(mt.Elem()), c.False)
				}
				return out, false
			}
			finish(cur, v, ok)
		} else {
			finish(cur, r.zero(mt.Elem()), c.False)
		}
		return out, false
	}
	panic(engErr("lookup"))
}

func (r *Run) mapBaseAt(s *State, mo *MapObj, key Val) (Val, *Term) {
	c := r.c
	k := r.keyTerm(s, key)
	if w, _, kind := basicInfo(mo.kt); kind == 3 { // both zeros are one key
		z := c.Const(w, 0)
		k = c.Ite(r.fpEq(k, z, w), z, k)
	}
	ok := c.App(mo.base.name+"_has", BoolS, k)
	if mo.base.shape != nil {
		return r.shapeVal(mo.base.shape, mo.base.name+"_val", k), ok
	}
	v := r.ufVal(mo.base.name+"_val", mo.vt, k)
	if a, isA := v.(AnyV); isA {
		return AnyV{c.Ite(ok, a.t, c.Raw("any_nil", AnyS))}, ok
	}
	if t, isT := v.(*Term); isT {
		z, _ := r.zero(mo.vt).(*Term)
		v = c.Ite(ok, t, z)
	}
	return v, ok
}

func (r *Run) keyTerm(s *State, v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case StrV:
		return r.c.strTerm(x.s)
	case AnyV, IfaceV:
		if t, ok := r.c.anyTerm(x); ok {
			return t
		}
	case PtrV:
		if len(x.path) == 0 {
			return r.c.Int(int64(x.obj))
		}
	}
	panic(engErr(fmt.Sprintf("value of kind %T used as a term", v)))
}

// ufVal builds the result of an uninterpreted function of the given Go type.
func (r *Run) ufVal(name string, t types.Type, args ...*Term) Val {
	c := r.c
	w, _, k := basicInfo(t)
	switch k {
	case 1:
		return c.App(name, BoolS, args...)
	case 2, 3:
		return c.App(name, BV(w), args...)
	case 4:
		return StrV{c.strTermSeq(c.App(name, StrS, args...))}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return AnyV{c.App(name, AnyS, args...)}
	}
	panic(engErr("uninterpreted value of type " + t.String()))
}

func (r *Run) mapWrite(s *State, m MapV, key, val Val, del bool) ([]*State, bool) {
	mo := s.objVal(m.obj).(*MapObj)
	// drop older writes to syntactically equal keys
	var ws []mapWrite
	for _, w := range mo.writes {
		if e, ok := s.eqVal(w.key, key); ok && e.isTrue() {
			continue
		}
		ws = append(ws, w)
	}
	if !(del && mo.base == nil && len(ws) == 0) {
		ws = append(ws, mapWrite{key, val, del})
	}
	s.store(PtrV{obj: m.obj}, &MapObj{writes: ws, base: mo.base, kt: mo.kt, vt: mo.vt})
	return nil, true
}

func (r *Run) next(s *State, x *ssa.Next) ([]*State, bool) {
	c := r.c
	p := s.get(x.Iter).(PtrV)
	it := s.objVal(p.obj).(IterV)
	tt := x.Type().(*types.Tuple)
	if x.IsString {
		if !it.str.n.isConst() {
			panic(engErr("range over string of symbolic length"))
		}
		if it.pos >= int(it.str.n.val) {
			s.set(x, TupleV{c.False, c.Int(0), c.Const(32, 0)})
		} else {
			b := c.seqAt(it.str, c.Int(int64(it.pos))).(*Term)
			if !(b.isConst() && b.val < 128) {
				panic(engErr("range over non-ASCII or symbolic string"))
			}
			s.set(x, TupleV{c.True, c.Int(int64(it.pos)), c.Const(32, b.val)})
			it.pos++
			s.store(p, it)
		}
	} else {
		if it.pos >= len(it.live) {
			k, v := Val(c.False), Val(c.False)
			if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
				k = r.zero(tt.At(1).Type())
			}
			if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
				v = r.zero(tt.At(2).Type())
			}
			s.set(x, TupleV{c.False, k, v})
		} else {
			w := it.live[it.pos]
			s.set(x, TupleV{c.True, w.key, w.val})
			it.pos++
			s.store(p, it)
		}
	}
	s.top().ip++
	return nil, true
}

// ---------------------------------------------------------------- interfaces

func (r *Run) typeAssert(s *State, x *ssa.TypeAssert) ([]*State, bool) {
	c := r.c
	v := s.get(x.X)
	if a, ok := v.(AnyV); ok {
		return r.assertAny(s, x, a)
	}
	iv := v.(IfaceV)
	ok := false
	var res Val
	isI := types.IsInterface(x.AssertedType)
	if iv.t != nil {
		if isI {
			ok = r.implements(iv.t, x.AssertedType.Underlying().(*types.Interface))
		} else {
			ok = types.Identical(iv.t, x.AssertedType)
		}
	}
	if ok {
		if isI {
			res = iv
		} else {
			res = iv.v
		}
	} else {
		if !x.CommaOk {
			r.oblige(s, "safety:type-assertion", c.False, fmt.Sprintf("interface conversion to %s fails", x.AssertedType))
			return nil, false
		}
		res = r.zero(x.AssertedType)
	}
	if x.CommaOk {
		s.set(x, TupleV{res, c.Bool(ok)})
	} else {
		s.set(x, res)
	}
	s.top().ip++
	return nil, true
}

func (r *Run) implements(t types.Type, i *types.Interface) bool {
	return types.Implements(t, i)
}

// assertAny: type assertion on an opaque interface value.
func (r *Run) assertAny(s *State, x *ssa.TypeAssert, a AnyV) ([]*State, bool) {
	c := r.c
	var out []*State
	finish := func(st *State, v Val, ok bool) {
		if !ok && !x.CommaOk {
			r.oblige(st, "safety:type-assertion", c.False, fmt.Sprintf("interface conversion to %s may fail", x.AssertedType))
			return
		}
		if x.CommaOk {
			st.set(x, TupleV{v, c.Bool(ok)})
		} else {
			st.set(x, v)
		}
		st.top().ip++
		out = append(out, st)
	}
	if k, ok := anyCtor(x.AssertedType); ok {
		is := r.isAny(k, a.t)
		t := s.clone()
		t.assume(is)
		if t.feasible() {
			finish(t, r.unAny(k, x.AssertedType, a.t), true)
		}
		s.assume(c.Not(is))
		if s.feasible() {
			finish(s, r.zero(x.AssertedType), false)
		}
		return out, false
	}
	// non-basic: an opaque element is assumed to be of a basic type or nil (see trusted base)
	r.note("opaque interface elements range over nil and the predeclared basic types")
	if types.IsInterface(x.AssertedType) && x.AssertedType.Underlying().(*types.Interface).NumMethods() == 0 {
		nn := c.Not(r.isAny("nil", a.t))
		t := s.clone()
		t.assume(nn)
		if t.feasible() {
			finish(t, a, true)
		}
		s.assume(c.Not(nn))
		if s.feasible() {
			finish(s, r.zero(x.AssertedType), false)
		}
		return out, false
	}
	finish(s, r.zero(x.AssertedType), false)
	return out, false
}

func (r *Run) isAny(k string, t *Term) *Term {
	c := r.c
	if t.op == ORaw && strings.HasPrefix(t.name, "any_") {
		return c.Bool(t.name == "any_"+k)
	}
	return c.Raw("(_ is any_"+k+")", BoolS, t)
}

func (r *Run) unAny(k string, ty types.Type, t *Term) Val {
	c := r.c
	if t.op == ORaw && t.name == "any_"+k {
		if k == "string" {
			return StrV{c.strTermSeq(t.args[0])}
		}
		return t.args[0]
	}
	w, _, kind := basicInfo(ty)
	switch kind {
	case 1:
		return c.Raw("u_"+k, BoolS, t)
	case 4:
		return StrV{c.strTermSeq(c.Raw("u_string", StrS, t))}
	}
	return c.Raw("u_"+k, BV(w), t)
}
