package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- sorts

type SortKind uint8

const (
	KBool SortKind = iota
	KBV
	KArr // index BV64, element ek/en
	KStr
	KAny
	KRef
)

type Sort struct {
	K  SortKind
	N  int
	EK SortKind
	EN int
}

var (
	BoolS = Sort{K: KBool}
	StrS  = Sort{K: KStr}
	AnyS  = Sort{K: KAny}
	RefS  = Sort{K: KBV, N: 32}
)

func BV(n int) Sort { return Sort{K: KBV, N: n} }
func ArrOf(e Sort) Sort {
	return Sort{K: KArr, EK: e.K, EN: e.N}
}
func (s Sort) Elem() Sort { return Sort{K: s.EK, N: s.EN} }
func (s Sort) String() string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.N)
	case KStr:
		return "Str"
	case KAny:
		return "Any"
	case KArr:
		return fmt.Sprintf("(Array (_ BitVec 64) %s)", s.Elem())
	}
	return "?"
}

// ---------------------------------------------------------------- terms

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OLin
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract
	OZext
	OSext
	OSelect
	OApp    // uninterpreted function, declared on demand
	ORaw    // interpreted SMT function name applied to args (fp comparisons, datatype ops)
	OForall // name = bound var list; args[0] = body
)

type Term struct {
	op    Op
	sort  Sort
	args  []*Term
	coef  []uint64
	val   uint64
	hi    int
	lo    int
	name  string
	id    int
	bound bool // contains bound variables
}

type Ctx struct {
	tab   map[string]*Term
	next  int
	fresh int
	True  *Term
	False *Term
	sol   *Solver
	// string literal constants
	strLits map[string]*Term
	// facts to assert globally when a term is used (axioms)
	axioms    map[int][]*Term
	eqDefs    map[int]*eqDef
	keyed     map[int]*Seq // texts put together from parts
	heavy     map[int]bool // axioms left out of the first attempt
	seqInt    map[string]*Term
	quants    map[int]bool
	srcID     int
	nSmtQ     int
	srcByStr  map[int]*Source
	litByName map[string]string
	quantC    map[int]bool
	objIDs    map[string]int
	objVals   map[int]IfaceV
	all       []*Term
}

func NewCtx() *Ctx {
	c := &Ctx{quantC: map[int]bool{}, keyed: map[int]*Seq{}, tab: map[string]*Term{}, strLits: map[string]*Term{}, axioms: map[int][]*Term{}, eqDefs: map[int]*eqDef{}, seqInt: map[string]*Term{}}
	c.True = c.mk(&Term{op: OConst, sort: BoolS, val: 1})
	c.False = c.mk(&Term{op: OConst, sort: BoolS, val: 0})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + t.op))
	b.WriteString(strconv.Itoa(int(t.sort.K)))
	b.WriteByte('.')
	b.WriteString(strconv.Itoa(t.sort.N))
	if t.sort.K == KArr {
		fmt.Fprintf(&b, ".%d.%d", t.sort.EK, t.sort.EN)
	}
	b.WriteByte('/')
	b.WriteString(strconv.FormatUint(t.val, 16))
	if t.op == OExtract {
		fmt.Fprintf(&b, ":%d:%d", t.hi, t.lo)
	}
	b.WriteByte('/')
	b.WriteString(t.name)
	for i, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		if t.coef != nil {
			b.WriteByte('*')
			b.WriteString(strconv.FormatUint(t.coef[i], 16))
		}
		if a.bound {
			t.bound = true
		}
	}
	k := b.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	if t.op == OForall {
		t.bound = false
	}
	c.next++
	t.id = c.next
	c.tab[k] = t
	c.all = append(c.all, t)
	return t
}

func mask(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(n)) - 1
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort.K == KBool && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort.K == KBool && t.val == 0 }
func (t *Term) sval() int64 {
	n := t.sort.N
	if n < 64 && t.val>>(uint(n)-1)&1 == 1 {
		return int64(t.val | ^mask(n))
	}
	return int64(t.val)
}

func (c *Ctx) Const(n int, v uint64) *Term {
	return c.mk(&Term{op: OConst, sort: BV(n), val: v & mask(n)})
}
func (c *Ctx) Int(v int64) *Term { return c.Const(64, uint64(v)) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Var(name string, s Sort) *Term {
	return c.mk(&Term{op: OVar, sort: s, name: name})
}
func (c *Ctx) Fresh(hint string, s Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", sanitize(hint), c.fresh), s)
}
func (c *Ctx) BoundVar(s Sort) *Term {
	c.fresh++
	t := c.Var(fmt.Sprintf("bv!%d", c.fresh), s)
	t.bound = true
	return t
}
func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	if b.Len() == 0 {
		return "v"
	}
	return b.String()
}

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(&Term{op: ONot, sort: BoolS, args: []*Term{a}})
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.isTrue() {
			continue
		}
		if a.isFalse() {
			return c.False
		}
		if a.op == OAnd {
			for _, x := range a.args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		if !seen[a.id] {
			seen[a.id] = true
			out = append(out, a)
		}
	}
	for _, a := range out {
		if a.op == ONot && seen[a.args[0].id] {
			return c.False
		}
	}
	if len(out) == 0 {
		return c.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: OAnd, sort: BoolS, args: out})
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.isFalse() {
			continue
		}
		if a.isTrue() {
			return c.True
		}
		if a.op == OOr {
			for _, x := range a.args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		if !seen[a.id] {
			seen[a.id] = true
			out = append(out, a)
		}
	}
	for _, a := range out {
		if a.op == ONot && seen[a.args[0].id] {
			return c.True
		}
	}
	if len(out) == 0 {
		return c.False
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: OOr, sort: BoolS, args: out})
}
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.isTrue() || a == b {
		return a
	}
	if g.isFalse() {
		return b
	}
	if a.sort.K == KBool {
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if g.op == ONot {
		return c.Ite(g.args[0], b, a)
	}
	return c.mk(&Term{op: OIte, sort: a.sort, args: []*Term{g, a, b}})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %v %v", a.sort, b.sort))
	}
	if a.sort.K == KBV {
		d := c.Sub(a, b)
		if d.isConst() {
			return c.Bool(d.val == 0)
		}
		if d.op != OLin || len(d.args) == 1 {
			// fallthrough, keep readable form
		}
		// range-based disjointness with constants
		if b.isConst() && maxU(a) < b.val || a.isConst() && maxU(b) < a.val {
			return c.False
		}
		if a.op == OIte && b.isConst() && a.args[1].isConst() && a.args[2].isConst() {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
		if b.op == OIte && a.isConst() {
			return c.Eq(b, a)
		}
		if a.op == OZext && b.isConst() {
			return c.Eq(a.args[0], c.Const(a.args[0].sort.N, b.val))
		}
		if a.op == OZext && b.op == OZext && a.args[0].sort == b.args[0].sort {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.op == OSext && b.op == OSext && a.args[0].sort == b.args[0].sort {
			return c.Eq(a.args[0], b.args[0])
		}
	}
	if a.sort.K == KBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.sort.K == KAny && a.op == ORaw && b.op == ORaw {
		if a.name != b.name {
			return c.False
		}
		if len(a.args) == 1 {
			return c.Eq(a.args[0], b.args[0])
		}
	}
	if a.sort.K == KStr && strings.HasPrefix(a.name, "lit!") && strings.HasPrefix(b.name, "lit!") {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: BoolS, args: []*Term{a, b}})
}

// ---- linear arithmetic over bitvectors

type linAcc struct {
	n  int
	k  uint64
	m  map[*Term]uint64
	ks []*Term
}

func (l *linAcc) add(t *Term, f uint64) {
	switch t.op {
	case OConst:
		l.k += t.val * f
	case OLin:
		l.k += t.val * f
		for i, a := range t.args {
			l.add1(a, t.coef[i]*f)
		}
	default:
		l.add1(t, f)
	}
}
func (l *linAcc) add1(t *Term, f uint64) {
	if _, ok := l.m[t]; !ok {
		l.ks = append(l.ks, t)
	}
	l.m[t] += f
}
func (c *Ctx) linDone(l *linAcc) *Term {
	sort.Slice(l.ks, func(i, j int) bool { return l.ks[i].id < l.ks[j].id })
	var args []*Term
	var coef []uint64
	for _, t := range l.ks {
		f := l.m[t] & mask(l.n)
		if f != 0 {
			args = append(args, t)
			coef = append(coef, f)
		}
	}
	k := l.k & mask(l.n)
	if len(args) == 0 {
		return c.Const(l.n, k)
	}
	if len(args) == 1 && coef[0] == 1 && k == 0 {
		return args[0]
	}
	return c.mk(&Term{op: OLin, sort: BV(l.n), args: args, coef: coef, val: k})
}
func (c *Ctx) Add(a, b *Term) *Term {
	l := &linAcc{n: a.sort.N, m: map[*Term]uint64{}}
	l.add(a, 1)
	l.add(b, 1)
	return c.linDone(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(a.sort.N, 0)
	}
	l := &linAcc{n: a.sort.N, m: map[*Term]uint64{}}
	l.add(a, 1)
	l.add(b, ^uint64(0))
	return c.linDone(l)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.Const(a.sort.N, 0), a) }
func (c *Ctx) AddK(a *Term, k int64) *Term {
	return c.Add(a, c.Const(a.sort.N, uint64(k)))
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		l := &linAcc{n: a.sort.N, m: map[*Term]uint64{}}
		l.add(b, a.val)
		return c.linDone(l)
	}
	return c.mk(&Term{op: OMul, sort: a.sort, args: []*Term{a, b}})
}

func minU(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OZext:
		return minU(t.args[0])
	}
	return 0
}

func maxU(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OZext:
		return maxU(t.args[0])
	case OBAnd:
		a, b := maxU(t.args[0]), maxU(t.args[1])
		if a < b {
			return a
		}
		return b
	case OIte:
		a, b := maxU(t.args[1]), maxU(t.args[2])
		if a > b {
			return a
		}
		return b
	case OLshr:
		if t.args[1].isConst() && t.args[1].val < 64 {
			return maxU(t.args[0]) >> t.args[1].val
		}
		return maxU(t.args[0])
	case OBOr, OBXor:
		a, b := maxU(t.args[0]), maxU(t.args[1])
		m := a | b
		return uint64(1)<<uint(bits.Len64(m)) - 1
	case OApp:
		if t.name == "strlen" {
			return maxLen
		}
	case OVar:
		if strings.HasPrefix(t.name, "len_") {
			return maxLen
		}
	case OLin:
		// sum of bounded terms with small positive coefficients
		s := t.val
		if s > 1<<62 {
			return mask(t.sort.N)
		}
		for i, a := range t.args {
			m := maxU(a)
			if t.coef[i] > 1<<12 || m > 1<<48 {
				return mask(t.sort.N)
			}
			s += m * t.coef[i]
			if s > 1<<62 {
				return mask(t.sort.N)
			}
		}
		if s <= mask(t.sort.N) {
			return s
		}
	}
	return mask(t.sort.N)
}

const maxLen = uint64(1)<<47 - 1

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val < b.val)
	}
	if maxU(a) < minU(b) {
		return c.True
	}
	if minU(a) >= maxU(b) {
		return c.False
	}
	return c.mk(&Term{op: OUlt, sort: BoolS, args: []*Term{a, b}})
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.sval() < b.sval())
	}
	h := mask(a.sort.N) >> 1
	if maxU(a) <= h && maxU(b) <= h {
		return c.Ult(a, b)
	}
	return c.mk(&Term{op: OSlt, sort: BoolS, args: []*Term{a, b}})
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.sort.N, a.val&b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.sort.N) {
			return a
		}
		if m := maxU(a); m < 1<<62 && b.val&(uint64(1)<<uint(bits.Len64(m))-1) == uint64(1)<<uint(bits.Len64(m))-1 {
			return a
		}
	}
	if a == b {
		return a
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OBAnd, sort: a.sort, args: []*Term{a, b}})
}
func (c *Ctx) BOr(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.sort.N, a.val|b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.val == 0 {
		return a
	}
	if a == b {
		return a
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OBOr, sort: a.sort, args: []*Term{a, b}})
}
func (c *Ctx) BXor(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Const(a.sort.N, a.val^b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.val == 0 {
		return a
	}
	if a == b {
		return c.Const(a.sort.N, 0)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OBXor, sort: a.sort, args: []*Term{a, b}})
}
func (c *Ctx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.Const(a.sort.N, ^a.val)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return c.mk(&Term{op: OBNot, sort: a.sort, args: []*Term{a}})
}
func (c *Ctx) Shl(a, b *Term) *Term {
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.sort.N) {
			return c.Const(a.sort.N, 0)
		}
		if a.isConst() {
			return c.Const(a.sort.N, a.val<<b.val)
		}
	}
	return c.mk(&Term{op: OShl, sort: a.sort, args: []*Term{a, b}})
}
func (c *Ctx) Lshr(a, b *Term) *Term {
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.sort.N) {
			return c.Const(a.sort.N, 0)
		}
		if a.isConst() {
			return c.Const(a.sort.N, a.val>>b.val)
		}
	}
	return c.mk(&Term{op: OLshr, sort: a.sort, args: []*Term{a, b}})
}
func (c *Ctx) Ashr(a, b *Term) *Term {
	if b.isConst() {
		if b.val == 0 {
			return a
		}
		if a.isConst() {
			s := b.val
			if s > 63 {
				s = 63
			}
			return c.Const(a.sort.N, uint64(a.sval()>>s))
		}
		if maxU(a) <= mask(a.sort.N)>>1 {
			return c.Lshr(a, b)
		}
	}
	return c.mk(&Term{op: OAshr, sort: a.sort, args: []*Term{a, b}})
}
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	n := a.sort.N
	if b.isConst() && b.val == 1 && (op == OUDiv || op == OSDiv) {
		return a
	}
	if a.isConst() && b.isConst() && b.val != 0 {
		switch op {
		case OUDiv:
			return c.Const(n, a.val/b.val)
		case OURem:
			return c.Const(n, a.val%b.val)
		case OSDiv:
			if b.sval() != -1 {
				return c.Const(n, uint64(a.sval()/b.sval()))
			}
		case OSRem:
			if b.sval() != -1 {
				return c.Const(n, uint64(a.sval()%b.sval()))
			}
		}
	}
	return c.mk(&Term{op: op, sort: a.sort, args: []*Term{a, b}})
}
func (c *Ctx) Zext(a *Term, n int) *Term {
	if n == a.sort.N {
		return a
	}
	if a.isConst() {
		return c.Const(n, a.val)
	}
	if a.op == OZext {
		return c.Zext(a.args[0], n)
	}
	return c.mk(&Term{op: OZext, sort: BV(n), args: []*Term{a}, val: uint64(n - a.sort.N)})
}
func (c *Ctx) Sext(a *Term, n int) *Term {
	if n == a.sort.N {
		return a
	}
	if a.isConst() {
		return c.Const(n, uint64(a.sval()))
	}
	if a.op == OZext || maxU(a) <= mask(a.sort.N)>>1 {
		return c.Zext(a, n)
	}
	if a.op == OSext {
		return c.Sext(a.args[0], n)
	}
	return c.mk(&Term{op: OSext, sort: BV(n), args: []*Term{a}, val: uint64(n - a.sort.N)})
}
func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == a.sort.N {
		return a
	}
	if a.isConst() {
		return c.Const(w, a.val>>uint(lo))
	}
	switch a.op {
	case OZext, OSext:
		in := a.args[0]
		if hi < in.sort.N {
			return c.Extract(in, hi, lo)
		}
		if a.op == OZext && lo >= in.sort.N {
			return c.Const(w, 0)
		}
		if a.op == OZext && lo == 0 {
			return c.Zext(in, w)
		}
		if a.op == OSext && lo == 0 {
			return c.Sext(in, w)
		}
	case OExtract:
		return c.Extract(a.args[0], hi+a.lo, lo+a.lo)
	case OBAnd, OBOr, OBXor:
		if a.args[1].isConst() {
			x := c.Extract(a.args[0], hi, lo)
			y := c.Extract(a.args[1], hi, lo)
			switch a.op {
			case OBAnd:
				return c.BAnd(x, y)
			case OBOr:
				return c.BOr(x, y)
			default:
				return c.BXor(x, y)
			}
		}
	case OLshr, OAshr:
		if a.args[1].isConst() {
			s := int(a.args[1].val)
			if hi+s < a.sort.N {
				return c.Extract(a.args[0], hi+s, lo+s)
			}
		}
	case OShl:
		if a.args[1].isConst() {
			s := int(a.args[1].val)
			if lo >= s {
				return c.Extract(a.args[0], hi-s, lo-s)
			}
			if hi < s {
				return c.Const(w, 0)
			}
		}
	case OLin:
		if lo == 0 {
			// low bits of a sum depend on low bits only
			l := &linAcc{n: w, m: map[*Term]uint64{}}
			l.k = a.val
			for i, x := range a.args {
				l.add(c.Extract(x, hi, 0), a.coef[i])
			}
			return c.linDone(l)
		}
	case OIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
		}
	}
	return c.mk(&Term{op: OExtract, sort: BV(w), args: []*Term{a}, hi: hi, lo: lo})
}
func (c *Ctx) Select(arr, i *Term) *Term {
	return c.mk(&Term{op: OSelect, sort: arr.sort.Elem(), args: []*Term{arr, i}})
}
func (c *Ctx) App(name string, s Sort, args ...*Term) *Term {
	return c.mk(&Term{op: OApp, sort: s, name: sanitize(name), args: args})
}
func (c *Ctx) Raw(name string, s Sort, args ...*Term) *Term {
	return c.mk(&Term{op: ORaw, sort: s, name: name, args: args})
}
func (c *Ctx) Forall(v *Term, body *Term) *Term {
	if body.isConst() {
		return body
	}
	t := c.mk(&Term{op: OForall, sort: BoolS, name: v.name + " " + v.sort.String(), args: []*Term{body}})
	return t
}

// resize to width n
func (c *Ctx) Resize(a *Term, n int, signed bool) *Term {
	if a.sort.N == n {
		return a
	}
	if a.sort.N > n {
		return c.Extract(a, n-1, 0)
	}
	if signed {
		return c.Sext(a, n)
	}
	return c.Zext(a, n)
}

// ---------------------------------------------------------------- printing

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl",
	OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat", OSelect: "select",
}

// body prints the term using ref() for its arguments.
func (t *Term) body(ref func(*Term) string) string {
	var b strings.Builder
	switch t.op {
	case OConst:
		if t.sort.K == KBool {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort.N)
	case OVar:
		return "|" + t.name + "|"
	case OLin:
		b.WriteString("(bvadd")
		cnt := 0
		if t.val != 0 {
			fmt.Fprintf(&b, " (_ bv%d %d)", t.val, t.sort.N)
			cnt++
		}
		for i, a := range t.args {
			cnt++
			if t.coef[i] == 1 {
				b.WriteString(" " + ref(a))
			} else if t.coef[i] == mask(t.sort.N) {
				b.WriteString(" (bvneg " + ref(a) + ")")
			} else {
				fmt.Fprintf(&b, " (bvmul (_ bv%d %d) %s)", t.coef[i], t.sort.N, ref(a))
			}
		}
		if cnt == 1 {
			return strings.TrimSuffix(strings.TrimPrefix(b.String(), "(bvadd "), "")
		}
		b.WriteString(")")
		return b.String()
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, ref(t.args[0]))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.val, ref(t.args[0]))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.val, ref(t.args[0]))
	case OApp:
		if len(t.args) == 0 {
			return "|" + t.name + "|"
		}
		b.WriteString("(|" + t.name + "|")
		for _, a := range t.args {
			b.WriteString(" " + ref(a))
		}
		b.WriteString(")")
		return b.String()
	case ORaw:
		if len(t.args) == 0 {
			return t.name
		}
		b.WriteString("(" + t.name)
		for _, a := range t.args {
			b.WriteString(" " + ref(a))
		}
		b.WriteString(")")
		return b.String()
	case OForall:
		i := strings.IndexByte(t.name, ' ')
		return fmt.Sprintf("(forall ((|%s| %s)) %s)", t.name[:i], t.name[i+1:], t.args[0].full())
	}
	b.WriteString("(" + opNames[t.op])
	for _, a := range t.args {
		b.WriteString(" " + ref(a))
	}
	b.WriteString(")")
	return b.String()
}

func (t *Term) full() string { return t.body(func(a *Term) string { return a.full() }) }

func (t *Term) String() string {
	s := t.full()
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func (c *Ctx) byID(id int) *Term { return c.all[id-1] }
