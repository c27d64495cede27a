package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// inlineReq: the contract of a callee cannot be used at this call; its body is used instead.
type inlineReq struct {
	s   *State
	why string
}

func (r *Run) isSpecFn(fn *ssa.Function) bool {
	fi := infoOf(fn)
	if fi.specSet == 0 {
		if r.eng.isSpec(fn) {
			fi.specSet = 1
		} else {
			fi.specSet = 2
		}
	}
	return fi.specSet == 1
}

// contractFrame returns the innermost contract frame if only specification code runs above it.
func (r *Run) contractFrame(s *State) *Frame {
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		if m := f.mode &^ 0x1000; m == FVerify || m == FCaller {
			return f
		}
		if m := f.mode &^ 0x1000; m == FModel {
			return nil
		}
		if !r.isSpecFn(f.fn) {
			return nil
		}
	}
	return nil
}

func (r *Run) specDepth(s *State) bool { return r.contractFrame(s) != nil }

func (r *Run) inModel(s *State) bool {
	for i := len(s.frames) - 1; i >= 0; i-- {
		if s.frames[i].mode&^0x1000 == FModel && !r.eng.logged[s.frames[i].fn] {
			return true
		}
	}
	return false
}

// caller mode anywhere below: generated inputs are not part of the replay script
func (r *Run) inCaller(s *State) bool {
	for i := len(s.frames) - 1; i >= 0; i-- {
		if s.frames[i].mode&^0x1000 == FCaller {
			return true
		}
	}
	return false
}

// resolve evaluates callee and arguments.
func (r *Run) resolve(s *State, com *ssa.CallCommon) (FuncV, []Val) {
	var args []Val
	if com.IsInvoke() {
		recv := s.get(com.Value)
		if av, ok := recv.(AnyV); ok {
			_ = av
			panic(engErr("method call on opaque value"))
		}
		iv := recv.(IfaceV)
		if iv.t == nil {
			return FuncV{}, nil
		}
		fn := r.eng.prog.LookupMethod(iv.t, com.Method.Pkg(), com.Method.Name())
		if fn == nil {
			panic(engErr("no method " + com.Method.Name() + " on " + iv.t.String()))
		}
		args = append(args, iv.v)
		for _, a := range com.Args {
			args = append(args, s.get(a))
		}
		return FuncV{fn: fn}, args
	}
	for _, a := range com.Args {
		args = append(args, s.get(a))
	}
	return s.get(com.Value).(FuncV), args
}

func (r *Run) call(s *State, com *ssa.CallCommon, dest ssa.Value) ([]*State, bool) {
	fv, args := r.resolve(s, com)
	if fv.fn == nil && fv.blt == "" {
		if !r.oblige(s, "safety:nil-dereference", r.c.False, "method call on nil interface or nil function") {
			return nil, false
		}
	}
	return r.invoke(s, fv, args, dest, com, false)
}

func (r *Run) finish(s *State, dest ssa.Value, v Val, noAdv bool) ([]*State, bool) {
	if dest != nil {
		if v == nil {
			v = TupleV{}
		}
		s.set(dest, v)
	}
	if !noAdv {
		s.top().ip++
	}
	return nil, true
}

func (r *Run) goStmt(s *State, x *ssa.Go) ([]*State, bool) {
	fv, args := r.resolve(s, x.Common())
	if fv.fn == nil && fv.blt == "" {
		r.oblige(s, "safety:nil-dereference", r.c.False, "go statement on nil function")
		return nil, false
	}
	r.note("goroutines are run to completion at the go statement (one schedule)")
	s.spawn++
	return r.invoke(s, fv, args, nil, x.Common(), false)
}

func (r *Run) invoke(s *State, fv FuncV, args []Val, dest ssa.Value, com *ssa.CallCommon, noAdv bool) (fs []*State, alive bool) {
	if fv.blt != "" {
		return r.builtin(s, fv.blt, args, dest, com, noAdv)
	}
	fn := fv.fn
	bit := 0
	if noAdv {
		bit = 0x1000
	}
	name := fn.Name()
	if fn.Pkg == r.eng.pkg && fn.Signature.Recv() == nil && len(name) > 1 && name[0] == 'v' && name[1] >= 'A' && name[1] <= 'Z' && r.isSpecFn(fn) {
		if h, ok := r.intrinsic(s, name, args, dest, fn, noAdv); ok {
			return h.fs, h.alive
		}
	}
	if r.eng.opaque[fn] {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, r.keyTerm(s, a))
		}
		v := r.ufResult(fn, ts)
		if t, ok := v.(*Term); ok {
			v = s.rewrite(t)
		}
		return r.finish(s, dest, v, noAdv)
	}
	full := fn.String()
	if m, ok := r.eng.models[full]; ok {
		r.usedM[full] = true
		s.pushFrame(m, args, nil, dest, FModel|bit)
		return nil, true
	}
	top := s.top()
	if ctr := r.eng.byTarget[fn]; ctr != nil || r.isTarget(top, fn) {
		tm := top.mode &^ 0x1000
		if r.isTarget(top, fn) && !top.called {
			top.called = true
			if tm == FVerify {
				top.snap = &State{heap: s.heap, depth: r.nextObj}
				hc := make(map[int]Val, len(s.heap))
				for k, v := range s.heap {
					hc[k] = v
				}
				top.snap.heap = hc
				s.pushFrame(fn, args, fv.bind, dest, FNormal|bit)
				return nil, true
			}
			// caller mode: havoc
			return r.havocCall(s, top, fn, args, dest, noAdv)
		}
		inSpec := r.isSpecFn(top.fn)
		lem := r.ctr != nil && r.ctr.Target == "" && top.fn == r.ctr.Fn
		use := ctr != nil && (!inSpec || lem) && (!r.inline || fn == r.ctr.TFn) && !r.demoted[ctr.Name] && !r.inModel(s) && ctr != nil
		if use && len(ctr.Fn.Params) != len(args) {
			use = false
		}
		if use {
			r.usedC[ctr.Name] = true
			snap := s.clone()
			f := s.pushFrame(ctr.Fn, args, nil, dest, FCaller|bit)
			f.ctr = ctr
			f.snap = snap
			f.inlFn, f.inlBind = fn, fv.bind
			return nil, true
		}
	}
	if fn.Blocks == nil {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			return r.finish(s, dest, nil, noAdv)
		}
		panic(engErr("call of " + full + " which has no model"))
	}
	if fn.Pkg != nil && fn.Pkg != r.eng.pkg && fn.Name() == "init" && fn.Signature.Recv() == nil {
		return r.finish(s, dest, nil, noAdv)
	}
	if r.merging == 0 && r.mergeable(fn) {
		if v, ok := r.evalMerged(s, fn, args); ok {
			if !r.isSpecFn(fn) && fn.Pkg == r.eng.pkg {
				r.inlined[fnName(fn)] = true
			}
			return r.finish(s, dest, v, noAdv)
		}
	}
	if r.bounded {
		n := 0
		for _, f := range s.frames {
			if f.fn == fn {
				n++
			}
		}
		if n > r.unroll {
			r.cutPaths++
			return nil, false
		}
	}
	if len(s.frames) > 200 {
		panic(engErr("call stack too deep (unbounded recursion without a contract?) in " + full))
	}
	if !r.isSpecFn(fn) && fn.Pkg == r.eng.pkg {
		r.inlined[fnName(fn)] = true
	}
	s.pushFrame(fn, args, fv.bind, dest, FNormal|bit)
	return nil, true
}

func (r *Run) isTarget(f *Frame, fn *ssa.Function) bool {
	m := f.mode &^ 0x1000
	return f.ctr != nil && (m == FVerify || m == FCaller) && f.ctr.TFn == fn
}

func (r *Run) ufResult(fn *ssa.Function, ts []*Term) Val {
	res := fn.Signature.Results()
	if res.Len() == 1 {
		return r.ufVal("spec_"+fn.Name(), res.At(0).Type(), ts...)
	}
	var tv TupleV
	for i := 0; i < res.Len(); i++ {
		tv = append(tv, r.ufVal(fmt.Sprintf("spec_%s_%d", fn.Name(), i), res.At(i).Type(), ts...))
	}
	return tv
}

// recursive: the contract being used is that of a function that is already being executed.
func (r *Run) recursive(s *State) bool {
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		if f.mode&^0x1000 == FCaller {
			for _, g := range s.frames[:i] {
				if g.fn == f.inlFn {
					return true
				}
			}
			return false
		}
	}
	return false
}

// fallbackInline replaces the use of a contract by the body of the callee.
func (r *Run) fallbackInline(q inlineReq) ([]*State, bool) {
	s := q.s
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		if f.mode&^0x1000 == FCaller {
			n := f.snap.clone()
			// keep what the contract code learned about the path
			n.pc = s.pc
			n.defd = s.defd
			r.note("body of " + fnName(f.inlFn) + " used instead of its contract where the contract does not apply")
			if len(n.frames) > 200 {
				panic(engErr("unbounded recursion through " + f.inlFn.String()))
			}
			n.pushFrame(f.inlFn, f.args, f.inlBind, f.dest, FNormal|f.mode&0x1000)
			return []*State{n}, false
		}
	}
	panic(engErr("inlining outside a contract: " + q.why))
}

// havocCall gives the call of a contract's target in caller mode an arbitrary outcome.
func (r *Run) havocCall(s *State, f *Frame, fn *ssa.Function, args []Val, dest ssa.Value, noAdv bool) ([]*State, bool) {
	if s.abst == "" {
		s.abst = "callee contract " + f.ctr.Name
	}
	for _, p := range f.mods {
		r.havocAt(s, p)
	}
	res := fn.Signature.Results()
	states := []*State{s}
	vals := [][]Val{nil}
	for i := 0; i < res.Len(); i++ {
		var ns []*State
		var nv [][]Val
		for k, st := range states {
			sts, vs := r.freshResult(st, res.At(i).Type(), fn.Name())
			for j := range sts {
				ns = append(ns, sts[j])
				nv = append(nv, append(vals[k][:len(vals[k]):len(vals[k])], vs[j]))
			}
		}
		states, vals = ns, nv
	}
	for k, st := range states {
		var v Val
		switch res.Len() {
		case 0:
		case 1:
			v = vals[k][0]
		default:
			v = TupleV(vals[k])
		}
		r.finish(st, dest, v, noAdv)
	}
	return states, false
}

// freshResult: an arbitrary value of a result type; interfaces with methods fork into nil and an opaque error.
func (r *Run) freshResult(s *State, t types.Type, name string) ([]*State, []Val) {
	if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
		var et *types.TypeName
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			et, _ = r.eng.tpkg.Scope().Lookup("vcErr").(*types.TypeName)
		} else if et, _ = r.eng.tpkg.Scope().Lookup("vcTErr").(*types.TypeName); et == nil || !types.Implements(types.NewPointer(et.Type()), it) {
			panic(engErr("no opaque value for result type " + t.String()))
		}
		n := s.clone()
		st := r.zero(et.Type()).(*StructV)
		v := &StructV{append([]Val{}, st.f...)}
		stt := et.Type().Underlying().(*types.Struct)
		for i := range v.f {
			v.f[i] = r.freshVal(n, stt.Field(i).Type(), name+"_err", false)
		}
		id := n.newObj(v)
		return []*State{s, n}, []Val{IfaceV{}, IfaceV{t: types.NewPointer(et.Type()), v: PtrV{obj: id}}}
	}
	return []*State{s}, []Val{r.freshVal(s, t, name+"_res", false)}
}

func (r *Run) havocAt(s *State, p PtrV) {
	s.store(p, r.havocVal(s, s.load(p), "h"))
}

func (r *Run) havocVal(s *State, v Val, name string) Val {
	c := r.c
	switch x := v.(type) {
	case *Term:
		return c.Fresh(name, x.sort)
	case StrV:
		return StrV{c.strTermSeq(c.Fresh(name, StrS))}
	case AnyV:
		return AnyV{c.Fresh(name, AnyS)}
	case *StructV:
		n := &StructV{}
		for _, f := range x.f {
			n.f = append(n.f, r.havocVal(s, f, name))
		}
		return n
	case ArrV:
		return ArrV{r.havocSeq(x.s, name)}
	}
	return v
}

func (r *Run) havocSeq(q *Seq, name string) *Seq {
	c := r.c
	if q.n.isConst() && q.n.val == 0 {
		return q
	}
	switch e := c.seqAt(q, c.Int(0)).(type) {
	case *Term:
		src := c.newSource(Source{arr: c.Fresh("arr_"+name, ArrOf(e.sort)), name: name})
		return c.srcSeq(src, c.Int(0), q.n)
	case StrV:
		src := c.newSource(Source{arr: c.Fresh("arr_"+name, ArrOf(StrS)), name: name})
		return c.srcSeq(src, c.Int(0), q.n)
	case AnyV, IfaceV:
		src := c.newSource(Source{arr: c.Fresh("arr_"+name, ArrOf(AnyS)), name: name})
		return c.srcSeq(src, c.Int(0), q.n)
	}
	return q
}

// ---------------------------------------------------------------- frame condition

func (r *Run) frameCheck(s *State, f *Frame) {
	if f.snap == nil || f.ctr == nil || f.ctr.Target == "" || f.ctr.has("noframe") || f.ctr.has("nocall") {
		return
	}
	ids := make([]int, 0)
	for id := range s.heap {
		if id <= f.snap.depth && !r.ctrObj[id] && !r.specObj[id] {
			ids = append(ids, id)
		}
	}
	for _, id := range ids {
		old, ok := f.snap.heap[id]
		if !ok {
			old, ok = r.base[id]
			if !ok {
				continue
			}
		}
		var conj []*Term
		if !r.frameDiff(s, old, s.heap[id], id, nil, f.mods, f.sets, &conj) {
			r.demoteNow("frame: an object changes in a way the contract does not describe")
			continue
		}
		g := r.c.And(conj...)
		if g.isTrue() {
			continue
		}
		neg := s.negGoal(g)
		if res := r.c.sol.Prove(s.pc, neg, r.ms); res != Unsat {
			r.demoteNow("frame: a location outside vModifies may change")
			continue
		}
		r.oblAdd("frame", "z3-new")
	}
}

func (r *Run) demoteNow(why string) {
	if r.quiet == 0 {
		if r.eng.verbose && r.demote[r.ctr.Name] == "" {
			fmt.Println("  DEMOTE", r.ctr.Name, why)
		}
		r.demote[r.ctr.Name] = why
	}
}

func pathCovered(c *Ctx, id int, path []PE, ps []PtrV) bool {
	for _, p := range ps {
		if p.obj != id || len(p.path) > len(path) {
			continue
		}
		ok := true
		for i, e := range p.path {
			if e.idx != nil || path[i].idx != nil {
				if e.idx == nil || path[i].idx == nil || e.idx != path[i].idx {
					ok = false
				}
			} else if e.field != path[i].field {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (r *Run) frameDiff(s *State, old, nw Val, id int, path []PE, mods, sets []PtrV, conj *[]*Term) bool {
	if pathCovered(r.c, id, path, sets) {
		return true
	}
	switch x := old.(type) {
	case *StructV:
		y, ok := nw.(*StructV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.f {
			if !r.frameDiff(s, x.f[i], y.f[i], id, append(path[:len(path):len(path)], PE{field: i}), mods, sets, conj) {
				return false
			}
		}
		return true
	case *Term, StrV, AnyV:
		if pathCovered(r.c, id, path, mods) {
			return true
		}
	case ArrV:
		y, ok := nw.(ArrV)
		if !ok {
			return false
		}
		if x.s == y.s {
			return true
		}
		if pathCovered(r.c, id, path, mods) {
			*conj = append(*conj, r.c.Eq(x.s.n, y.s.n))
			return true
		}
	case *MapObj:
		return nw == old
	case *ChanObj:
		return nw == old
	case SliceV:
		y, ok := nw.(SliceV)
		if !ok {
			return false
		}
		if x.obj != y.obj {
			return false
		}
		*conj = append(*conj, r.c.Eq(x.off, y.off), r.c.Eq(x.len, y.len), r.c.Eq(x.cap, y.cap))
		return true
	case IterV:
		return true
	}
	t, ok := s.eqVal(old, nw)
	if !ok {
		return false
	}
	*conj = append(*conj, t)
	return true
}

// ---------------------------------------------------------------- intrinsics

type hres struct {
	fs    []*State
	alive bool
}

func unIface(v Val) Val {
	if i, ok := v.(IfaceV); ok {
		return i.v
	}
	return v
}

func (r *Run) argStr(v Val) string {
	if s, ok := v.(StrV); ok {
		if l, ok := r.c.constStr(s.s); ok {
			return l
		}
	}
	return "?"
}

func (r *Run) variadic(s *State, v Val) []Val {
	sl := v.(SliceV)
	q := s.sliceSeq(sl)
	var out []Val
	if !q.n.isConst() {
		panic(engErr("variadic argument of symbolic length"))
	}
	for i := int64(0); i < int64(q.n.val); i++ {
		out = append(out, r.c.seqAt(q, r.c.Int(i)))
	}
	return out
}

func (r *Run) intrinsic(s *State, name string, args []Val, dest ssa.Value, fn *ssa.Function, noAdv bool) (hres, bool) {
	c := r.c
	fin := func(v Val) (hres, bool) {
		fs, a := r.finish(s, dest, v, noAdv)
		return hres{fs, a}, true
	}
	dead := hres{nil, false}
	cf := r.contractFrame(s)
	mode := 0 // 0 environment code
	if cf != nil {
		mode = cf.mode &^ 0x1000
	}
	fresh := func() (hres, bool) {
		log := !r.inModel(s) && !r.inCaller(s)
		n := "v"
		if len(args) > 0 {
			n = r.argStr(args[0])
		}
		return fin(r.freshVal(s, fn.Signature.Results().At(0).Type(), n, log))
	}
	assumeT := func(t *Term) (hres, bool) {
		if t.isTrue() {
			return fin(nil)
		}
		if t.isFalse() {
			return dead, true
		}
		s.assume(t)
		if !s.feasible() {
			return dead, true
		}
		return fin(nil)
	}
	switch name {
	case "vInt", "vInt8", "vInt16", "vInt32", "vInt64", "vUint", "vByte", "vUint16", "vUint32", "vUint64", "vBool", "vFloat64", "vFloat32", "vString", "vBytes", "vAny", "vAnys", "vInts", "vInt16s", "vStrings":
		return fresh()
	case "vChoice":
		n := args[0].(*Term)
		v := c.Fresh("choice", BV(64))
		if !r.inModel(s) && !r.inCaller(s) {
			s.script = append(s.script, ScriptEnt{Kind: "choice", V: v})
		}
		s.assume(c.Ult(v, n))
		return fin(v)
	case "vAssume":
		return assumeT(args[0].(*Term))
	case "vRequires":
		t := args[0].(*Term)
		switch mode {
		case FVerify:
			return assumeT(t)
		case FCaller:
			if !t.isTrue() && s.decide(t) != 1 {
				if r.recursive(s) {
					// the body cannot be used instead
					if r.quiet > 0 {
						return assumeT(t) // the final pass over the enclosing loop proves it
					}
					if !r.oblige(s, "env:recursive-call-precondition", t, "precondition of a recursive call") {
						return dead, true
					}
					return fin(nil)
				}
				panic(inlineReq{s, "precondition"})
			}
			return fin(nil)
		}
		if !r.oblige(s, "env:requires", t, "precondition of the environment") {
			return dead, true
		}
		return fin(nil)
	case "vEnsures", "vAssert":
		t := args[1].(*Term)
		if mode == FCaller {
			return assumeT(t)
		}
		if !r.oblige(s, r.argStr(args[0]), t, "postcondition does not hold") {
			return dead, true
		}
		return fin(nil)
	case "vModifies":
		if cf == nil {
			panic(engErr("vModifies outside a contract"))
		}
		for _, a := range r.variadic(s, args[0]) {
			a = unIface(a)
			switch p := a.(type) {
			case PtrV:
				if p.obj != 0 {
					cf.mods = append(cf.mods[:len(cf.mods):len(cf.mods)], p)
				}
			case SliceV:
				if p.obj != 0 {
					cf.mods = append(cf.mods[:len(cf.mods):len(cf.mods)], PtrV{p.obj, p.path})
				}
			default:
				panic(engErr(fmt.Sprintf("vModifies(%T)", a)))
			}
		}
		return fin(nil)
	case "vSet", "vInvSet":
		var nm string
		i := 0
		if name == "vSet" {
			nm = r.argStr(args[0])
			i = 1
		}
		p, ok := unIface(args[i]).(PtrV)
		if !ok {
			panic(engErr("vSet of a non-pointer"))
		}
		val := unIfaceTo(args[i+1], s.load(p))
		if name == "vInvSet" {
			if r.invMode == 1 { // assume
				if r.invAllowed[s.top().blk.Instrs[s.top().ip].Pos()] {
					s.store(p, val)
				}
				return fin(nil)
			}
			t, ok := s.eqVal(s.load(p), val)
			if !ok {
				t = c.False
			}
			return r.invConj(s, t, fin)
		}
		if mode == FCaller {
			s.store(p, val)
			return fin(nil)
		}
		if cf != nil {
			cf.sets = append(cf.sets[:len(cf.sets):len(cf.sets)], p)
		}
		t, ok := s.eqVal(s.load(p), val)
		if !ok {
			panic(engErr("vSet: values cannot be compared"))
		}
		if !r.oblige(s, nm, t, "value differs from the specified one") {
			return dead, true
		}
		return fin(nil)
	case "vInv":
		return r.invConj(s, args[0].(*Term), fin)
	case "vOuterList", "vOuterElem": // the object around an embedded library object
		p := args[0].(PtrV)
		if p.obj == 0 {
			r.oblige(s, "safety:nil-dereference", c.False, "use of a nil list or list element")
			return dead, true
		}
		k := len(p.path) - 1
		if k != 0 || p.path[k].field != 0 || p.path[k].idx != nil || !r.seqObj[p.obj] {
			panic(engErr("a container/list object that the contract of the library does not cover"))
		}
		return fin(PtrV{obj: p.obj})
	case "vMarkElem":
		if r.seqObj == nil {
			r.seqObj = map[int]bool{}
		}
		r.seqObj[args[0].(PtrV).obj] = true
		return fin(nil)
	case "vMarkList":
		if r.seqObj == nil {
			r.seqObj = map[int]bool{}
		}
		r.seqObj[args[0].(PtrV).obj] = true
		return fin(nil)
	case "vAnysOf": // values of the dynamic type of the sample
		x, ok := args[1].(IfaceV)
		if !ok || x.t == nil {
			panic(engErr("vAnysOf: the type is not known"))
		}
		sl := r.freshVal(s, types.NewSlice(x.t), r.argStr(args[0]), !r.inModel(s) && !r.inCaller(s)).(SliceV)
		base := s.objVal(sl.obj).(ArrV).s
		src := c.newSource(Source{fn: func(i *Term) Val { return IfaceV{x.t, c.seqAt(base, i)} }, name: "any(" + c.seqKey(base) + ")"})
		sl.obj = s.newObj(ArrV{c.srcSeq(src, c.Int(0), sl.len)})
		return fin(sl)
	case "vZipFields": // pointers to the structs with these columns
		pt := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		var cols []*Seq
		for _, a := range args {
			x := a.(SliceV)
			cols = append(cols, s.objVal(x.obj).(ArrV).s)
		}
		n := args[0].(SliceV).len
		arr := c.newSource(Source{name: "fields", fn: func(i *Term) Val {
			sv := &StructV{}
			for _, q := range cols {
				sv.f = append(sv.f, c.seqAt(q, i))
			}
			return sv
		}})
		st := r.eng.tpkg.Scope().Lookup("tField").Type()
		obj := s.newObj(ArrV{c.srcSeq(arr, c.Int(0), n)})
		src := c.newSource(Source{name: "fieldptrs", fn: func(i *Term) Val {
			return IfaceV{types.NewPointer(st), PtrV{obj, []PE{{idx: i}}}}
		}})
		_ = pt
		return fin(SliceV{obj: s.newObj(ArrV{c.srcSeq(src, c.Int(0), n)}), off: c.Int(0), len: n, cap: n})
	case "vIndexOf": // the position of the struct in its array
		p, ok := args[0].(IfaceV).v.(PtrV)
		if !ok || len(p.path) != 1 || p.path[0].idx == nil {
			return fin(c.Int(-1))
		}
		return fin(p.path[0].idx)
	case "vStrOrder": // the order of strings is total and transitive
		a := c.Fresh("str", StrS)
		s.assume(c.And(c.Not(c.App("strlt", BoolS, a, a)),
			c.Raw("(forall ((x Str) (y Str) (z Str)) (! (=> (and (|strlt| x y) (|strlt| y z)) (|strlt| x z)) :pattern ((|strlt| x y) (|strlt| y z))))", BoolS),
			c.Raw("(forall ((x Str) (y Str)) (! (not (and (|strlt| x y) (|strlt| y x))) :pattern ((|strlt| x y))))", BoolS),
			c.Raw("(forall ((x Str) (y Str)) (! (or (= x y) (|strlt| x y) (|strlt| y x)) :pattern ((|strlt| x y))))", BoolS)))
		return fin(nil)
	case "vSame": // the identical value
		x, ok1 := c.anyTerm(args[0])
		y, ok2 := c.anyTerm(args[1])
		if !ok1 || !ok2 {
			panic(engErr("vSame: values cannot be compared"))
		}
		return fin(c.Eq(x, y))
	case "vMap": // arbitrary content of a map variable
		p := unIface(args[0]).(PtrV)
		ty := args[0].(IfaceV).t.Underlying().(*types.Pointer).Elem()
		s.store(p, r.freshMap(s, ty.Underlying().(*types.Map), "map"))
		if s.abst == "" && !r.inModel(s) {
			s.abst = "map content"
		}
		return fin(nil)
	case "vHavoc":
		p := unIface(args[0]).(PtrV)
		r.havocAt(s, p)
		if s.abst == "" && !r.inModel(s) {
			s.abst = "havoc"
		}
		return fin(nil)
	case "vUnsupported":
		panic(engErr("not supported: " + r.argStr(args[0])))
	case "vCover":
		r.covers[r.argStr(args[0])]++
		return fin(nil)
	case "vNative", "vFuzz":
		return fin(c.False)
	case "vCalling":
		return fin(c.Bool(mode == FCaller))
	case "vBounded":
		return fin(c.Bool(r.bounded))
	case "vAssumeLemma":
		r.usedL[r.argStr(args[0])] = true
		return assumeT(args[1].(*Term))
	case "vReturnEarly":
		return dead, true
	case "vForall", "vExists":
		lo, hi := args[0].(*Term), args[1].(*Term)
		f := args[2].(FuncV)
		bv := c.BoundVar(BV(64))
		t := r.evalPure(s, f, []Val{bv})
		rng := c.And(c.Sle(lo, bv), c.Slt(bv, hi))
		if name == "vForall" {
			return fin(r.forallTerm(bv, c.Implies(rng, t)))
		}
		return fin(c.Not(r.forallTerm(bv, c.Not(c.And(rng, t)))))
	case "vReveal":
		f := unIface(args[0]).(FuncV)
		var as []Val
		for _, a := range r.variadic(s, args[1]) {
			as = append(as, unIface(a))
		}
		bit := 0
		if noAdv {
			bit = 0x1000
		}
		var ts []*Term
		for _, a := range as {
			ts = append(ts, r.keyTerm(s, a))
		}
		if len(f.bind) == 0 && r.merging == 0 && r.mergeable(f.fn) {
			if v, ok := r.evalMerged(s, f.fn, as); ok {
				if t, ok := v.(*Term); ok {
					e, _ := s.eqVal(r.ufResult(f.fn, ts), t)
					s.assume(e)
					return fin(nil)
				}
			}
		}
		fr := s.pushFrame(f.fn, as, f.bind, nil, FSpec|bit)
		fr.post = func(st *State, v Val) bool {
			want := r.ufResult(f.fn, ts)
			var t *Term
			if tv, ok := v.(TupleV); ok {
				var cs []*Term
				for i, x := range want.(TupleV) {
					e, _ := st.eqVal(x, tv[i])
					cs = append(cs, e)
				}
				t = c.And(cs...)
			} else {
				t, _ = st.eqVal(want, v)
			}
			if t.isFalse() {
				return false
			}
			st.assume(t)
			return st.feasible()
		}
		return hres{nil, true}, true
	}
	if strings.HasPrefix(name, "vCast") {
		return fin(args[0])
	}
	return hres{}, false
}

// forallTerm turns a goal quantifier into a term; bound variables are handled by the solver.
func (r *Run) forallTerm(bv, body *Term) *Term { return r.c.Forall(bv, body) }

// evalPure runs a closure without forks and returns its boolean result as a term (paths are merged).
func (r *Run) evalPure(s *State, f FuncV, args []Val) *Term {
	c := r.c
	st := s.clone()
	base := st.pc
	d := len(st.frames)
	st.pushFrame(f.fn, args, f.bind, nil, fEngine)
	r.quiet++
	r.pure++
	done := r.explore([]*State{st}, d)
	r.pure--
	r.quiet--
	out := c.False
	for _, x := range done {
		g := c.True
		for q := x.pc; q != base && q != nil; q = q.parent {
			g = c.And(q.t, g)
		}
		out = c.Or(out, c.And(g, x.rets.(*Term)))
	}
	return out
}

func unIfaceTo(v Val, cur Val) Val {
	switch cur.(type) {
	case IfaceV, AnyV:
		return v
	}
	return unIface(v)
}

// ---------------------------------------------------------------- builtins

func (r *Run) builtin(s *State, name string, args []Val, dest ssa.Value, com *ssa.CallCommon, noAdv bool) ([]*State, bool) {
	c := r.c
	switch name {
	case "len", "cap":
		var v *Term
		switch x := args[0].(type) {
		case StrV:
			v = x.s.n
		case SliceV:
			v = x.len
			if name == "cap" {
				v = x.cap
			}
		case ArrV:
			v = x.s.n
		case MapV:
			v = r.mapLen(s, x)
		case PtrV:
			v = c.Int(com.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		case ChanV:
			v = c.Int(int64(len(s.objVal(x.obj).(*ChanObj).q)))
		default:
			panic(engErr("len"))
		}
		return r.finish(s, dest, v, noAdv)
	case "append":
		a := args[0].(SliceV)
		var q *Seq
		switch x := args[1].(type) {
		case StrV:
			q = x.s
		case SliceV:
			q = s.sliceSeq(x)
		}
		n := q.n
		if n.isConst() && n.val == 0 {
			return r.finish(s, dest, a, noAdv)
		}
		newLen := c.Add(a.len, n)
		// room in place?
		fits := c.Ule(newLen, a.cap)
		grow := func(st *State) SliceV {
			cur := st.sliceSeq(a)
			nq := c.concat(cur, q)
			return SliceV{obj: st.newObj(ArrV{nq}), off: c.Int(0), len: newLen, cap: newLen}
		}
		if a.obj == 0 {
			return r.finish(s, dest, grow(s), noAdv)
		}
		switch s.decide(fits) {
		case 1:
			s.sliceWrite(SliceV{a.obj, a.path, a.off, newLen, a.cap}, a.len, q)
			return r.finish(s, dest, SliceV{a.obj, a.path, a.off, newLen, a.cap}, noAdv)
		case -1:
			return r.finish(s, dest, grow(s), noAdv)
		}
		t := s.clone()
		t.assume(c.Not(fits))
		r.finish(t, dest, grow(t), noAdv)
		s.assume(fits)
		s.sliceWrite(SliceV{a.obj, a.path, a.off, newLen, a.cap}, a.len, q)
		r.finish(s, dest, SliceV{a.obj, a.path, a.off, newLen, a.cap}, noAdv)
		return []*State{t}, true
	case "copy":
		d := args[0].(SliceV)
		var q *Seq
		switch x := args[1].(type) {
		case StrV:
			q = x.s
		case SliceV:
			q = s.sliceSeq(x)
		}
		le := c.Ule(q.n, d.len)
		do := func(st *State, n *Term) {
			if !(n.isConst() && n.val == 0) && d.obj != 0 {
				st.sliceWrite(d, c.Int(0), st.sub(q, c.Int(0), n))
			}
			r.finish(st, dest, n, noAdv)
		}
		switch s.decide(le) {
		case 1:
			do(s, q.n)
			return nil, true
		case -1:
			do(s, d.len)
			return nil, true
		}
		t := s.clone()
		t.assume(c.Not(le))
		do(t, d.len)
		s.assume(le)
		do(s, q.n)
		return []*State{t}, true
	case "delete":
		m := args[0].(MapV)
		if m.obj == 0 {
			return r.finish(s, dest, nil, noAdv)
		}
		r.mapWrite(s, m, args[1], nil, true)
		return r.finish(s, dest, nil, noAdv)
	case "close":
		ch := args[0].(ChanV)
		co := s.objVal(ch.obj).(*ChanObj)
		s.store(PtrV{obj: ch.obj}, &ChanObj{q: co.q, closed: true})
		return r.finish(s, dest, nil, noAdv)
	case "panic":
		r.oblige(s, "safety:panic", c.False, "explicit panic reached")
		return nil, false
	case "recover":
		return r.finish(s, dest, IfaceV{}, noAdv)
	case "print", "println":
		return r.finish(s, dest, nil, noAdv)
	case "ssa:wrapnilchk":
		p := args[0].(PtrV)
		if !r.notNil(s, p, "nil-dereference") {
			return nil, false
		}
		return r.finish(s, dest, p, noAdv)
	case "min", "max":
		v := args[0].(*Term)
		_, signed, _ := basicInfo(com.Args[0].Type())
		for _, a := range args[1:] {
			t := a.(*Term)
			var lt *Term
			if signed {
				lt = c.Slt(t, v)
			} else {
				lt = c.Ult(t, v)
			}
			if name == "max" {
				lt = c.Not(lt)
			}
			v = c.Ite(lt, t, v)
		}
		return r.finish(s, dest, v, noAdv)
	case "clear":
		if m, ok := args[0].(MapV); ok && m.obj != 0 {
			mo := s.objVal(m.obj).(*MapObj)
			s.store(PtrV{obj: m.obj}, &MapObj{kt: mo.kt, vt: mo.vt})
			return r.finish(s, dest, nil, noAdv)
		}
	}
	_ = token.ADD
	panic(engErr("builtin " + name))
}

// freshMap is a map with arbitrary content.
func (r *Run) freshMap(s *State, mt *types.Map, name string) Val {
	b := r.c.Fresh("m_"+name, BoolS)
	return MapV{s.newObj(&MapObj{kt: mt.Key(), vt: mt.Elem(), base: &mapBase{name: b.name}})}
}

func (r *Run) mapLen(s *State, m MapV) *Term {
	c := r.c
	if m.obj == 0 {
		return c.Int(0)
	}
	mo := s.objVal(m.obj).(*MapObj)
	// count distinct live keys: a write counts if it is not a delete and no later write has an equal key
	n := c.Int(0)
	for i, w := range mo.writes {
		over := c.False
		for j := i + 1; j < len(mo.writes); j++ {
			e, _ := r.compare(s, w.key, mo.writes[j].key, mo.kt)
			over = c.Or(over, e)
		}
		live := c.Not(over)
		if mo.base != nil {
			// contribution relative to the base
			_, has := r.mapBaseAt(s, mo, w.key)
			var d *Term
			if w.del {
				d = c.Ite(has, c.Int(-1), c.Int(0))
			} else {
				d = c.Ite(has, c.Int(0), c.Int(1))
			}
			n = c.Add(n, c.Ite(live, d, c.Int(0)))
		} else if !w.del {
			n = c.Add(n, c.Ite(live, c.Int(1), c.Int(0)))
		}
	}
	if mo.base != nil {
		l := c.App(mo.base.name+"_len", BV(64))
		if _, ok := c.axioms[l.id]; !ok {
			c.axioms[l.id] = []*Term{c.mk(&Term{op: OUlt, sort: BoolS, args: []*Term{l, c.Int(int64(maxLen))}})}
		}
		n = c.Add(n, l)
	}
	return n
}
