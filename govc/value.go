package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is one of: *Term, StrV, SliceV, PtrV, *StructV, ArrV, IfaceV, FuncV, MapV, ChanV, TupleV, AnyV, IterV
type Val interface{}

type StrV struct{ s *Seq }

type SliceV struct {
	obj  int // 0: nil slice
	path []PE
	off  *Term
	len  *Term
	cap  *Term
}

type PE struct {
	field int
	idx   *Term // non-nil: array element
}

type PtrV struct {
	obj  int
	path []PE
}

type StructV struct{ f []Val }

type ArrV struct{ s *Seq }

type IfaceV struct {
	t types.Type // nil: nil interface
	v Val
}

type FuncV struct {
	fn   *ssa.Function
	bind []Val
	blt  string
	recv Val
}

type MapV struct{ obj int }
type ChanV struct{ obj int }
type TupleV []Val
type AnyV struct{ t *Term }

// MapObj is the immutable content of a map object.
type MapObj struct {
	writes []mapWrite // oldest first
	base   *mapBase   // nil: empty map
	kt, vt types.Type
}
type mapWrite struct {
	key Val
	val Val
	del bool
}
type mapBase struct {
	name  string
	keyS  Sort
	shape Val // values that are not scalars: this value with arbitrary scalars in it
}

type IterV struct {
	m    *MapObj
	str  *Seq
	pos  int
	live []mapWrite
	id   int
}

// ---------------------------------------------------------------- sequences

type Source struct {
	id   int
	arr  *Term // SMT array base
	str  *Term // Str term
	zero Val   // every element is this value
	view *Seq  // opaque view of another sequence
	st   *Seq  // store: st with element idx replaced by v
	idx  *Term
	v    Val
	fn   func(i *Term) Val
	name string
}

type Seg struct {
	lit []Val
	src *Source
	off *Term
	n   *Term
}

type Seq struct {
	segs []Seg
	n    *Term
	term *Term // interned Str term (cache)
}

func (c *Ctx) seqOf(segs []Seg) *Seq {
	n := c.Int(0)
	var out []Seg
	for _, g := range segs {
		if g.lit != nil || g.src == nil {
			if len(g.lit) == 0 {
				continue
			}
			if g.n == nil {
				g.n = c.Int(int64(len(g.lit)))
			}
			if k := len(out); k > 0 && out[k-1].src == nil {
				nl := append(append([]Val{}, out[k-1].lit...), g.lit...)
				out[k-1] = Seg{lit: nl, n: c.Int(int64(len(nl)))}
				n = c.Add(n, g.n)
				continue
			}
		} else {
			if g.n.isConst() && g.n.val == 0 {
				continue
			}
			if k := len(out); k > 0 && out[k-1].src == g.src {
				p := out[k-1]
				if g.src.zero != nil || c.Add(p.off, p.n) == g.off {
					out[k-1] = Seg{src: p.src, off: p.off, n: c.Add(p.n, g.n)}
					n = c.Add(n, g.n)
					continue
				}
			}
		}
		out = append(out, g)
		n = c.Add(n, g.n)
	}
	return &Seq{segs: out, n: n}
}

func (c *Ctx) litSeq(vs []Val) *Seq {
	return c.seqOf([]Seg{{lit: vs}})
}
func (c *Ctx) strLit(s string) *Seq {
	vs := make([]Val, len(s))
	for i := 0; i < len(s); i++ {
		vs[i] = c.Const(8, uint64(s[i]))
	}
	return c.litSeq(vs)
}
func (c *Ctx) newSource(s Source) *Source {
	c.srcID++
	s.id = c.srcID
	return &s
}
func (c *Ctx) srcSeq(s *Source, off, n *Term) *Seq {
	return c.seqOf([]Seg{{src: s, off: off, n: n}})
}
func (c *Ctx) concat(ss ...*Seq) *Seq {
	var segs []Seg
	for _, s := range ss {
		segs = append(segs, s.segs...)
	}
	return c.seqOf(segs)
}

func (c *Ctx) strTermSeq(t *Term) *Seq {
	if lit, ok := c.litOf(t); ok {
		return c.strLit(lit)
	}
	m := c.strSources()
	s := m[t.id]
	if s == nil {
		s = c.newSource(Source{str: t})
		m[t.id] = s
	}
	q := c.srcSeq(s, c.Int(0), c.strLen(t))
	return q
}

func (c *Ctx) strSources() map[int]*Source {
	if c.srcByStr == nil {
		c.srcByStr = map[int]*Source{}
	}
	return c.srcByStr
}

func (c *Ctx) strLen(t *Term) *Term {
	l := c.App("strlen", BV(64), t)
	if _, ok := c.axioms[l.id]; !ok {
		c.axioms[l.id] = []*Term{c.mk(&Term{op: OUlt, sort: BoolS, args: []*Term{l, c.Int(int64(maxLen))}})}
	}
	return l
}

func (c *Ctx) litOf(t *Term) (string, bool) {
	if t.op == OVar && strings.HasPrefix(t.name, "lit!") {
		s, ok := c.litByName[t.name]
		return s, ok
	}
	return "", false
}

// strTermOf is the string term a sequence already stands for, or nil.
func (c *Ctx) strTermOf(q *Seq) *Term {
	if q.term != nil {
		return q.term
	}
	if len(q.segs) == 1 && q.segs[0].src != nil && q.segs[0].src.str != nil {
		g := q.segs[0]
		if g.off.isConst() && g.off.val == 0 && g.n == c.strLen(g.src.str) {
			return g.src.str
		}
	}
	return nil
}

// strTerm gives a Str-sorted term equal to the sequence.
func (c *Ctx) strTerm(q *Seq) *Term {
	if q.term != nil {
		return q.term
	}
	if len(q.segs) == 1 && q.segs[0].src != nil && q.segs[0].src.str != nil {
		g := q.segs[0]
		if g.off.isConst() && g.off.val == 0 && g.n == c.strLen(g.src.str) {
			return g.src.str
		}
	}
	if s, ok := c.constStr(q); ok {
		if c.litByName == nil {
			c.litByName = map[string]string{}
		}
		if t, ok := c.strLits[s]; ok {
			return t
		}
		name := fmt.Sprintf("lit!%d!%s", len(c.strLits), sanitize(trunc(s, 20)))
		t := c.Var(name, StrS)
		c.strLits[s] = t
		c.litByName[name] = s
		l := c.App("strlen", BV(64), t)
		ax := []*Term{c.Eq(l, c.Int(int64(len(s))))}
		for i := 0; i < len(s); i++ {
			ax = append(ax, c.Eq(c.App("strat", BV(8), t, c.Int(int64(i))), c.Const(8, uint64(s[i]))))
		}
		// pairwise distinctness with other literals
		for o, ot := range c.strLits {
			if ot != t {
				_ = o
				ax = append(ax, c.Not(c.mkEqRaw(t, ot)))
			}
		}
		c.axioms[t.id] = ax
		return t
	}
	k := c.seqKey(q)
	if t, ok := c.seqInt[k]; ok {
		q.term = t
		return t
	}
	t := c.Fresh("str", StrS)
	c.seqInt[k] = t
	l := c.strLen(t)
	ax := []*Term{c.Eq(l, q.n)}
	// pointwise definition
	if q.n.isConst() && q.n.val <= 64 {
		for i := int64(0); i < int64(q.n.val); i++ {
			if v, ok := c.seqAt(q, c.Int(i)).(*Term); ok {
				ax = append(ax, c.Eq(c.App("strat", BV(8), t, c.Int(i)), v))
			}
		}
	} else {
		bv := c.BoundVar(BV(64))
		if v, ok := c.seqAt(q, bv).(*Term); ok {
			h := c.Forall(bv, c.Implies(c.Ult(bv, q.n), c.Eq(c.App("strat", BV(8), t, bv), v)))
			if c.heavy == nil {
				c.heavy = map[int]bool{}
			}
			c.heavy[h.id] = true
			ax = append(ax, h)
		}
	}
	c.keyed[t.id] = q
	c.axioms[t.id] = ax
	q.term = t
	return t
}

// congruence: texts put together alike from equal parts are equal
func (c *Ctx) congruence(a, b int) *Term {
	if a == b {
		return nil
	}
	if e := c.partsEqual(c.keyed[a], c.keyed[b]); e != nil && !e.isFalse() {
		return c.Implies(e, c.mkEqRaw(c.byID(a), c.byID(b)))
	}
	return nil
}

// partsEqual: a condition under which two sequences of the same shape are equal; nil if the shapes differ.
func (c *Ctx) partsEqual(a, b *Seq) *Term {
	if len(a.segs) != len(b.segs) {
		return nil
	}
	var cs []*Term
	for i, x := range a.segs {
		y := b.segs[i]
		if (x.src == nil) != (y.src == nil) {
			return nil
		}
		if x.src == nil {
			if len(x.lit) != len(y.lit) {
				return nil
			}
			for k := range x.lit {
				u, ok1 := x.lit[k].(*Term)
				v, ok2 := y.lit[k].(*Term)
				if !ok1 || !ok2 || u.sort != v.sort {
					return nil
				}
				cs = append(cs, c.Eq(u, v))
			}
			continue
		}
		if x.src != y.src {
			if x.src.str == nil || y.src.str == nil {
				return nil
			}
			cs = append(cs, c.Eq(x.src.str, y.src.str))
		}
		cs = append(cs, c.Eq(x.off, y.off), c.Eq(x.n, y.n))
	}
	return c.And(cs...)
}

func (c *Ctx) mkEqRaw(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: BoolS, args: []*Term{a, b}})
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (c *Ctx) constStr(q *Seq) (string, bool) {
	var b []byte
	for _, g := range q.segs {
		if g.src != nil {
			return "", false
		}
		for _, v := range g.lit {
			t, ok := v.(*Term)
			if !ok || !t.isConst() || t.sort.N != 8 {
				return "", false
			}
			b = append(b, byte(t.val))
		}
	}
	return string(b), true
}

func valKey(v Val) string {
	switch x := v.(type) {
	case *Term:
		return fmt.Sprintf("t%d", x.id)
	case PtrV:
		s := fmt.Sprintf("p%d", x.obj)
		for _, p := range x.path {
			if p.idx != nil {
				s += fmt.Sprintf("[%d]", p.idx.id)
			} else {
				s += fmt.Sprintf(".%d", p.field)
			}
		}
		return s
	case IfaceV:
		if x.t == nil {
			return "inil"
		}
		return "i" + x.t.String() + ":" + valKey(x.v)
	case AnyV:
		return fmt.Sprintf("a%d", x.t.id)
	case MapV:
		return fmt.Sprintf("m%d", x.obj)
	case ChanV:
		return fmt.Sprintf("c%d", x.obj)
	case *StructV:
		s := "{"
		for _, f := range x.f {
			s += valKey(f) + ";"
		}
		return s + "}"
	case SliceV:
		if x.obj == 0 {
			return "snil"
		}
		return fmt.Sprintf("s%d:%d:%d", x.obj, x.off.id, x.len.id)
	}
	return fmt.Sprintf("%p", v)
}

func (c *Ctx) seqKey(q *Seq) string {
	var b strings.Builder
	for _, g := range q.segs {
		if g.src == nil {
			b.WriteString("L")
			for _, v := range g.lit {
				b.WriteString(valKey(v) + ",")
			}
		} else {
			fmt.Fprintf(&b, "S%d:%d:%d", g.src.id, g.off.id, g.n.id)
		}
		b.WriteString("|")
	}
	return b.String()
}

// sourceAt returns element i of a source.
func (c *Ctx) sourceAt(s *Source, i *Term) Val {
	switch {
	case s.arr != nil:
		e := c.Select(s.arr, i)
		if s.arr.sort.EK == KStr {
			return StrV{c.strTermSeq(e)}
		}
		if s.arr.sort.EK == KAny {
			return AnyV{e}
		}
		return e
	case s.str != nil:
		return c.App("strat", BV(8), s.str, i)
	case s.zero != nil:
		return s.zero
	case s.view != nil:
		return c.seqAt(s.view, i)
	case s.st != nil:
		d := c.Sub(i, s.idx)
		if d.isConst() {
			if d.val == 0 {
				return s.v
			}
			return c.seqAt(s.st, i)
		}
		return c.iteVal(c.Eq(i, s.idx), s.v, c.seqAt(s.st, i))
	case s.fn != nil:
		return s.fn(i)
	}
	panic(engErr("sourceAt"))
}

type engErr string

func (e engErr) Error() string { return string(e) }

func (c *Ctx) iteVal(g *Term, a, b Val) Val {
	if g.isTrue() {
		return a
	}
	if g.isFalse() {
		return b
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return c.Ite(g, x, y)
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			if c.seqKey(x.s) == c.seqKey(y.s) {
				return a
			}
			return StrV{c.strTermSeq(c.Ite(g, c.strTerm(x.s), c.strTerm(y.s)))}
		}
	case AnyV, IfaceV:
		if x, ok := a.(IfaceV); ok {
			if y, ok := b.(IfaceV); ok && x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
				if _, ok := anyCtor(x.t); ok {
					return IfaceV{x.t, c.iteVal(g, x.v, y.v)}
				}
				if p, ok := x.v.(PtrV); ok {
					if q, ok := y.v.(PtrV); ok && sameShape(p, q) {
						return IfaceV{x.t, c.iteVal(g, p, q)}
					}
				}
			}
		}
		at, ok1 := c.anyTerm(a)
		bt, ok2 := c.anyTerm(b)
		if ok1 && ok2 {
			return AnyV{c.Ite(g, at, bt)}
		}
	}
	if valKey(a) == valKey(b) {
		return a
	}
	if x, ok := a.(PtrV); ok {
		if y, ok := b.(PtrV); ok && sameShape(x, y) {
			z := PtrV{obj: x.obj}
			for i, e := range x.path {
				if e.idx != nil {
					e.idx = c.Ite(g, e.idx, y.path[i].idx)
				}
				z.path = append(z.path, e)
			}
			return z
		}
	}
	panic(engErr("ite over non-scalar values"))
}

// sameShape: the values differ in scalars only.
func sameShape(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x.sort == y.sort
	case StrV:
		_, ok := b.(StrV)
		return ok
	case AnyV:
		_, ok := b.(AnyV)
		return ok
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && x.t != nil && y.t != nil && types.Identical(x.t, y.t) && sameShape(x.v, y.v)
	case PtrV:
		y, ok := b.(PtrV)
		if !ok || x.obj != y.obj || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if (x.path[i].idx == nil) != (y.path[i].idx == nil) || x.path[i].idx == nil && x.path[i].field != y.path[i].field {
				return false
			}
		}
		return true
	}
	return valKey(a) == valKey(b)
}

// shapeVal: the shape with each scalar replaced by a function of the key.
func (r *Run) shapeVal(v Val, name string, k *Term) Val {
	c := r.c
	n := 0
	var f func(v Val) Val
	f = func(v Val) Val {
		n++
		nm := fmt.Sprintf("%s_%d", name, n)
		switch x := v.(type) {
		case *Term:
			return c.App(nm, x.sort, k)
		case StrV:
			return StrV{c.strTermSeq(c.App(nm, StrS, k))}
		case AnyV:
			return AnyV{c.App(nm, AnyS, k)}
		case IfaceV:
			if x.t == nil {
				return x
			}
			return IfaceV{x.t, f(x.v)}
		case PtrV:
			y := PtrV{obj: x.obj}
			for i, e := range x.path {
				if e.idx != nil {
					e.idx = c.App(fmt.Sprintf("%s_%d", nm, i), BV(64), k)
				}
				y.path = append(y.path, e)
			}
			return y
		}
		return v
	}
	return f(v)
}

// seqAt returns element i; i is assumed to be in range.
func (c *Ctx) seqAt(q *Seq, i *Term) Val {
	acc := c.Int(0)
	var conds []*Term
	var vals []Val
	for k, g := range q.segs {
		d := c.Sub(i, acc) // index inside this segment
		last := k == len(q.segs)-1
		if g.src == nil {
			if d.isConst() {
				if d.val < uint64(len(g.lit)) && len(conds) == 0 {
					return g.lit[d.val]
				}
				if d.val >= uint64(len(g.lit)) && d.sval() >= 0 {
					acc = c.Add(acc, g.n)
					continue
				}
			}
			if last || !d.isConst() || d.val < uint64(len(g.lit)) {
				// choose inside literal
				var v Val = g.lit[len(g.lit)-1]
				for j := len(g.lit) - 2; j >= 0; j-- {
					v = c.iteVal(c.Eq(d, c.Int(int64(j))), g.lit[j], v)
				}
				conds = append(conds, c.Ult(d, g.n))
				vals = append(vals, v)
			}
		} else {
			in := c.Ult(d, g.n)
			if in.isFalse() {
				acc = c.Add(acc, g.n)
				continue
			}
			v := c.sourceAt(g.src, c.Add(g.off, d))
			conds = append(conds, in)
			vals = append(vals, v)
			if in.isTrue() {
				break
			}
		}
		acc = c.Add(acc, g.n)
	}
	if len(vals) == 0 {
		return c.Const(8, 0)
	}
	v := vals[len(vals)-1]
	for k := len(vals) - 2; k >= 0; k-- {
		v = c.iteVal(conds[k], vals[k], v)
	}
	return v
}

// ---------------------------------------------------------------- interface{} terms

func anyCtor(t types.Type) (string, bool) {
	b, ok := t.(*types.Basic)
	if !ok {
		return "", false
	}
	switch b.Kind() {
	case types.Bool:
		return "bool", true
	case types.Int:
		return "int", true
	case types.Int8:
		return "int8", true
	case types.Int16:
		return "int16", true
	case types.Int32:
		return "int32", true
	case types.Int64:
		return "int64", true
	case types.Uint:
		return "uint", true
	case types.Uint8:
		return "uint8", true
	case types.Uint16:
		return "uint16", true
	case types.Uint32:
		return "uint32", true
	case types.Uint64:
		return "uint64", true
	case types.Float32:
		return "float32", true
	case types.Float64:
		return "float64", true
	case types.String:
		return "string", true
	}
	return "", false
}

func (c *Ctx) anyTerm(v Val) (*Term, bool) {
	switch x := v.(type) {
	case AnyV:
		return x.t, true
	case IfaceV:
		if x.t == nil {
			return c.Raw("any_nil", AnyS), true
		}
		if k, ok := anyCtor(x.t); ok {
			if k == "string" {
				return c.Raw("any_string", AnyS, c.strTerm(x.v.(StrV).s)), true
			}
			if t, ok := x.v.(*Term); ok {
				return c.Raw("any_"+k, AnyS, t), true
			}
		}
		// objects: identified by object id (concrete)
		if p, ok := x.v.(PtrV); ok {
			for _, e := range p.path {
				if e.idx != nil && !e.idx.isConst() {
					return nil, false
				}
			}
		}
		key := x.t.String() + "#" + valKey(x.v)
		if c.objIDs == nil {
			c.objIDs = map[string]int{}
			c.objVals = map[int]IfaceV{}
		}
		id, ok := c.objIDs[key]
		if !ok {
			id = len(c.objIDs) + 1
			c.objIDs[key] = id
			c.objVals[id] = x
		}
		return c.Raw("any_obj", AnyS, c.Int(int64(id))), true
	}
	return nil, false
}
