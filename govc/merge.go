package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Functions over scalars without effects, loops and run-time errors are
// evaluated on all paths at once; the outcomes are joined into one value.

func (r *Run) mergeable(fn *ssa.Function) bool {
	fi := infoOf(fn)
	if fi.merge == 0 {
		fi.merge = 2
		if r.mergeOK(fn, 0) {
			fi.merge = 1
		}
	}
	return fi.merge == 1
}

func (r *Run) mergeOK(fn *ssa.Function, depth int) bool {
	if fn.Blocks == nil || len(fn.FreeVars) > 0 || depth > 4 || len(infoOf(fn).headers) > 0 || len(fn.Params) == 0 {
		return false
	}
	sg := fn.Signature
	if sg.Results().Len() == 0 {
		return false
	}
	scalar := func(k int) bool { return k >= 1 && k <= 3 }
	for i := 0; i < sg.Results().Len(); i++ {
		if _, _, k := basicInfo(sg.Results().At(i).Type()); !scalar(k) {
			return false
		}
	}
	for _, p := range fn.Params {
		if _, _, k := basicInfo(p.Type()); !scalar(k) {
			return false
		}
	}
	branch := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.If:
				branch = true
			case *ssa.Jump, *ssa.Return, *ssa.Phi, *ssa.ChangeType, *ssa.Extract, *ssa.DebugRef:
			case *ssa.Convert:
				if _, _, k := basicInfo(x.Type()); !scalar(k) {
					return false
				}
				if _, _, k := basicInfo(x.X.Type()); !scalar(k) {
					return false
				}
			case *ssa.BinOp:
				if x.Op == token.QUO || x.Op == token.REM {
					return false
				}
				if (x.Op == token.SHL || x.Op == token.SHR) && !unsignedOrConst(x.Y) {
					return false
				}
				if _, _, k := basicInfo(x.X.Type()); !scalar(k) {
					return false
				}
			case *ssa.UnOp:
				switch x.Op {
				case token.MUL:
					if _, ok := x.X.(*ssa.Global); !ok {
						return false
					}
				case token.ARROW:
					return false
				}
			case *ssa.Lookup:
				if _, _, k := basicInfo(x.Index.Type()); !scalar(k) || x.X.Type().Underlying().String()[0] != 'm' {
					return false
				}
				branch = true
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g != nil && r.eng.opaque[g] && g.Signature.Results().Len() == 1 {
					if _, _, k := basicInfo(g.Signature.Results().At(0).Type()); scalar(k) {
						continue
					}
				}
				if g == nil || g == fn || !r.mergeOK(g, depth+1) {
					return false
				}
				branch = true
			default:
				return false
			}
		}
	}
	return branch || depth > 0
}

func unsignedOrConst(v ssa.Value) bool {
	if _, ok := v.(*ssa.Const); ok {
		return true
	}
	_, signed, _ := basicInfo(v.Type())
	return !signed
}

// evalMerged evaluates fn on all paths; ok=false if it cannot.
func (r *Run) evalMerged(s *State, fn *ssa.Function, args []Val) (Val, bool) {
	allConst := true
	for _, a := range args {
		t, ok := a.(*Term)
		if !ok {
			return nil, false
		}
		if !t.isConst() {
			allConst = false
		}
	}
	if allConst {
		return nil, false
	}
	c := r.c
	st := s.clone()
	base := st.pc
	d := len(st.frames)
	st.pushFrame(fn, args, nil, nil, fEngine)
	r.quiet++
	r.merging++
	done := r.explore([]*State{st}, d)
	r.merging--
	r.quiet--
	if len(done) == 0 {
		return nil, false
	}
	guard := func(x *State) *Term {
		g := c.True
		for q := x.pc; q != base && q != nil; q = q.parent {
			g = c.And(q.t, g)
		}
		return g
	}
	v := done[0].rets
	for _, x := range done[1:] {
		g := guard(x)
		if a, ok := v.(TupleV); ok {
			b := x.rets.(TupleV)
			n := make(TupleV, len(a))
			for i := range a {
				n[i] = c.Ite(g, b[i].(*Term), a[i].(*Term))
			}
			v = n
			continue
		}
		v = c.Ite(g, x.rets.(*Term), v.(*Term))
	}
	return v, true
}

// lookupMerged: a lookup of a scalar in a map of scalars with known keys is one value.
func (r *Run) lookupMerged(mo *MapObj, key Val, mt *types.Map) (Val, *Term, bool) {
	c := r.c
	k, ok := key.(*Term)
	if !ok || k.isConst() || mo.base != nil {
		return nil, nil, false
	}
	if _, _, kk := basicInfo(mt.Key()); kk != 1 && kk != 2 {
		return nil, nil, false
	}
	z, ok := r.zero(mt.Elem()).(*Term)
	if !ok {
		return nil, nil, false
	}
	v, has := z, c.False
	for _, w := range mo.writes {
		wk, ok := w.key.(*Term)
		if !ok {
			return nil, nil, false
		}
		nv, nh := z, c.False
		if !w.del {
			nh = c.True
			if nv, ok = w.val.(*Term); !ok {
				return nil, nil, false
			}
		}
		e := c.Eq(wk, k)
		v, has = c.Ite(e, nv, v), c.Ite(e, nh, has)
	}
	return v, has, true
}
