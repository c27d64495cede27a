package thrift

import "container/list"

// Sets (C20): the values of a set are a strictly descending sequence. All
// operations keep that, so no value is there twice.

var vcSetTypes = [...]TType{BOOL, BYTE, I16, I32, I64, DOUBLE, STRING, UTF8, UTF16}

//vc:gen
func vGenTSet() *tSet {
	p := NewTSet(vcSetTypes[vChoice(len(vcSetTypes))], vInt("size")).(*tSet)
	if vFuzz() {
		for n := vChoice(6); n > 0; n-- {
			vcInsertSorted(p, vcScalar(p.elemType))
		}
		return p
	}
	t := p.elemType
	vStrOrder()
	s := vAnysOf("elems", vcScalar(t))
	vAssume(vForall(0, len(s), func(k int) bool { return vcIs(t, s[k]) }))
	vAssume(vcDescending(t, s))
	vSeqSet(p.l, s)
	return p
}

// vSetOp: a set and a value of its element type.
type vSetOp struct {
	p *tSet
	x interface{}
}

//vc:gen
func vGenSetOp() vSetOp {
	p := vGenTSet()
	return vSetOp{p, vcScalar(p.elemType)}
}

// vcInsertSorted adds x to the set without the code under test.
func vcInsertSorted(p *tSet, x interface{}) {
	for e := p.l.Front(); e != nil; e = e.Next() {
		if vcLess(p.elemType, e.Value, x) {
			p.l.InsertBefore(x, e)
			return
		}
		if !vcLess(p.elemType, x, e.Value) {
			return
		}
	}
	p.l.PushBack(x)
}

func vcDescending(t TType, s []interface{}) bool {
	return vForall(0, len(s), func(k int) bool {
		return vForall(0, k, func(l int) bool { return vcLess(t, s[k], s[l]) })
	})
}

// vcLess: the order of values of the type t.
func vcLess(t TType, x, y interface{}) bool {
	switch t {
	case BOOL:
		a, _ := x.(bool)
		b, _ := y.(bool)
		return !a && b
	case BYTE:
		a, _ := x.(byte)
		b, _ := y.(byte)
		return a < b
	case I16:
		a, _ := x.(int16)
		b, _ := y.(int16)
		return a < b
	case I32:
		a, _ := x.(int32)
		b, _ := y.(int32)
		return a < b
	case I64:
		a, _ := x.(int64)
		b, _ := y.(int64)
		return a < b
	case DOUBLE:
		a, _ := x.(float64)
		b, _ := y.(float64)
		return a < b
	}
	a, _ := x.(string)
	b, _ := y.(string)
	return a < b
}

func vcIn(s []interface{}, x interface{}) bool {
	return vExists(0, len(s), func(k int) bool { return s[k] == x })
}

//vc:contract NewTSet props=C20 nocall
func vcNewTSet(t TType, n int) (r TSet) {
	r = NewTSet(t, n)
	vEnsures("C20:new-set-is-empty", r.Len() == 0 && r.Front() == nil && r.ElemType() == t)
	return
}

//vc:contract (*tSet).Len props=C20 nocall
func vcSetLen(p *tSet) (n int) {
	n = p.Len()
	vEnsures("C20:length", n == len(vSeqOf(p.l)))
	return
}

//vc:contract (*tSet).Contains props=C20 nocall inv
func vcSetContains(c vSetOp) (r bool) {
	p, data := c.p, c.x
	r = p.Contains(data)
	s := vSeqOf(p.l)
	if r {
		vEnsures("C20:contains-only-its-elements", vcIn(s, data))
	} else {
		vEnsures("C20:contains-its-elements", !vcIn(s, data))
	}
	return
}

//vc:loop vcSetContains vcSetRemove
func vcSetFindLoop(c vSetOp, elem *list.Element) {
	p, data := c.p, c.x
	s := vSeqOf(p.l)
	i := vPos(p.l, elem)
	vInv(i <= len(s))
	vInv(vForall(0, i, func(k int) bool { return s[k] != data }))
}

//vc:loop vcSetAddSmall vcSetAddInt32 vcSetAddInt64 vcSetAddDouble vcSetAddString
func vcSetAddLoop(c vSetOp, elem *list.Element) {
	p, data := c.p, c.x
	s := vSeqOf(p.l)
	i := vPos(p.l, elem)
	vInv(i <= len(s))
	t := p.elemType
	vInv(vForall(0, i, func(k int) bool { return vcLess(t, data, s[k]) }))
}

//vc:contract (*tSet).Add props=C20 nocall inv
func vcSetAddSmall(c vSetOp) {
	vRequires(c.p.elemType <= I16 && c.p.elemType != DOUBLE)
	old := vcCopy(vSeqOf(c.p.l))
	had := vcIn(old, c.x)
	c.p.Add(c.x)
	vcAdded(c, old, had)
}

//vc:contract (*tSet).Add props=C20 nocall inv
func vcSetAddInt32(c vSetOp) {
	vRequires(c.p.elemType == I32)
	old := vcCopy(vSeqOf(c.p.l))
	had := vcIn(old, c.x)
	c.p.Add(c.x)
	vcAdded(c, old, had)
}

//vc:contract (*tSet).Add props=C20 nocall inv
func vcSetAddInt64(c vSetOp) {
	vRequires(c.p.elemType == I64)
	old := vcCopy(vSeqOf(c.p.l))
	had := vcIn(old, c.x)
	c.p.Add(c.x)
	vcAdded(c, old, had)
}

//vc:contract (*tSet).Add props=C20 nocall inv
func vcSetAddDouble(c vSetOp) {
	vRequires(c.p.elemType == DOUBLE)
	old := vcCopy(vSeqOf(c.p.l))
	had := vcIn(old, c.x)
	c.p.Add(c.x)
	vcAdded(c, old, had)
}

//vc:contract (*tSet).Add props=C20 nocall inv
func vcSetAddString(c vSetOp) {
	vRequires(c.p.elemType >= STRING)
	old := vcCopy(vSeqOf(c.p.l))
	had := vcIn(old, c.x)
	c.p.Add(c.x)
	vcAdded(c, old, had)
}

func vcAdded(c vSetOp, old []interface{}, had bool) {
	t, n := c.p.elemType, len(old)
	s := vSeqOf(c.p.l)
	vEnsures("C20:added", vcIn(s, c.x))
	if had {
		vEnsures("C20:no-duplicate", len(s) == n && vForall(0, n, func(k int) bool { return vSame(s[k], old[k]) }))
	} else {
		vEnsures("C20:length-grows-by-one", len(s) == n+1)
		vEnsures("C20:other-elements-stay", vForall(0, n, func(k int) bool { return vSame(s[k], old[k]) || k < len(s)-1 && vSame(s[k+1], old[k]) }))
	}
	vEnsures("C20:elements-of-the-type", vForall(0, len(s), func(k int) bool { return vcIs(t, s[k]) }))
	vEnsures("C20:descending", vcDescending(t, s))
}

//vc:contract (*tSet).Remove props=C20 nocall inv
func vcSetRemove(c vSetOp) {
	p, data := c.p, c.x
	t := p.elemType
	old := vcCopy(vSeqOf(p.l))
	n := len(old)
	had := vcIn(old, data)
	p.Remove(data)
	s := vSeqOf(p.l)
	vEnsures("C20:removed", !vcIn(s, data))
	if had {
		vEnsures("C20:length-shrinks-by-one", len(s) == n-1)
		vEnsures("C20:other-elements-stay", vForall(0, n, func(k int) bool {
			return old[k] == data || k < n-1 && vSame(s[k], old[k]) || k > 0 && vSame(s[k-1], old[k])
		}))
	} else {
		vEnsures("C20:other-elements-stay", len(s) == n && vForall(0, n, func(k int) bool { return vSame(s[k], old[k]) }))
	}
	vEnsures("C20:elements-of-the-type", vForall(0, len(s), func(k int) bool { return vcIs(t, s[k]) }))
	vEnsures("C20:descending", vcDescending(t, s))
}

//vc:contract (*tSet).Values props=C20 nocall inv
func vcSetValues(p *tSet) (r []interface{}) {
	r = p.Values()
	s := vSeqOf(p.l)
	vEnsures("C20:values-are-the-elements", len(r) == len(s) && vForall(0, len(s), func(k int) bool { return vSame(r[k], s[k]) }))
	return
}

//vc:loop vcSetValues
func vcSetValuesLoop(p *tSet, values []interface{}, i int, v *list.Element) {
	s := vSeqOf(p.l)
	vInv(i == vPos(p.l, v) && i >= 0 && i <= len(s))
	vInv(vForall(0, i, func(k int) bool { return vSame(values[k], s[k]) }))
}

//vc:loop vcSetValues
func vcSetValuesAppendLoop(p *tSet, values []interface{}, v *list.Element) {
	s := vSeqOf(p.l)
	i := vPos(p.l, v)
	vInv(len(values) == i && i <= len(s) && vForall(0, i, func(k int) bool { return vSame(values[k], s[k]) }))
}
