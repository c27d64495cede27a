package thrift

// Lists (C19): the contents of a list are a sequence of arbitrary length and
// arbitrary elements; every operation is specified by the sequence it leaves.

//vc:gen
func vGenTList() *tList {
	p := &tList{elemType: vcElemTypes[vChoice(len(vcElemTypes))], l: vAnys("elems")}
	if vFuzz() {
		for i := range p.l {
			p.l[i] = vcElemOf(p.elemType)
		}
	}
	return p
}

var vcElemTypes = [...]TType{STOP, VOID, BOOL, BYTE, I16, I32, I64, DOUBLE, STRING, UTF8, UTF16, BINARY, LIST}

// vcElemOf: an arbitrary value for a list of the element type t.
func vcElemOf(t TType) interface{} {
	switch t {
	case STOP, VOID: // the first value decides
		return vcScalar([...]TType{BOOL, BYTE, I16, I32, I64, DOUBLE, STRING}[vChoice(7)])
	case LIST:
		return NewTListDefault()
	}
	return vcScalar(t)
}

func vcCopy(l []interface{}) []interface{} { return append([]interface{}{}, l...) }

//vc:contract NewTList props=C19 nocall
func vcNewTList(t TType, s int) (r TList) {
	r = NewTList(t, s)
	vEnsures("C19:new-list-is-empty", r.Len() == 0 && r.ElemType() == t)
	return
}

//vc:contract NewTListDefault props=C19 nocall
func vcNewTListDefault() (r TList) {
	r = NewTListDefault()
	vEnsures("C19:new-list-is-empty", r.Len() == 0)
	return
}

//vc:contract (*tList).Len props=C19 nocall
func vcListLen(p *tList) (n int) {
	n = p.Len()
	vEnsures("C19:length", n == len(p.l))
	return
}

//vc:contract (*tList).At props=C19 nocall
func vcListAt(p *tList, i int) (x interface{}) {
	vRequires(0 <= i && i < len(p.l))
	x = p.At(i)
	vEnsures("C19:element-at-index", vSame(x, p.l[i]))
	return
}

//vc:contract (*tList).Push props=C19 nocall
func vcListPush(p *tList, data interface{}) {
	data = vcElemOf(p.elemType)
	old, n := vcCopy(p.l), len(p.l)
	et := p.elemType
	p.Push(data)
	vEnsures("C19:push-appends", len(p.l) == n+1 && vSame(p.l[n], data))
	vEnsures("C19:other-elements-unchanged", vForall(0, n, func(k int) bool { return vSame(p.l[k], old[k]) }))
	vEnsures("C19:element-type-kept", et.IsEmptyType() || p.elemType == et)
}

//vc:contract (*tList).Pop props=C19 nocall
func vcListPop(p *tList) (x interface{}) {
	vRequires(len(p.l) > 0)
	old, n := vcCopy(p.l), len(p.l)
	x = p.Pop()
	vEnsures("C19:pop-returns-the-last", vSame(x, old[n-1]))
	vEnsures("C19:pop-removes-the-last", len(p.l) == n-1)
	vEnsures("C19:other-elements-unchanged", vForall(0, n-1, func(k int) bool { return vSame(p.l[k], old[k]) }))
	return
}

//vc:contract (*tList).Set props=C19 nocall
func vcListSet(p *tList, i int, data interface{}) {
	vRequires(0 <= i && i <= len(p.l))
	data = vcElemOf(p.elemType)
	old, n := vcCopy(p.l), len(p.l)
	p.Set(i, data)
	if i == n { // one past the end
		vEnsures("C19:set-at-the-end-appends", len(p.l) == n+1)
	} else {
		vEnsures("C19:set-keeps-the-length", len(p.l) == n)
	}
	vEnsures("C19:set-replaces-the-element", vSame(p.l[i], data))
	vEnsures("C19:other-elements-unchanged", vForall(0, n, func(k int) bool { return k == i || vSame(p.l[k], old[k]) }))
}

//vc:contract (*tList).Swap props=C19 nocall
func vcListSwap(p *tList, i, j int) {
	vRequires(0 <= i && i < len(p.l) && 0 <= j && j < len(p.l))
	old, n := vcCopy(p.l), len(p.l)
	p.Swap(i, j)
	vEnsures("C19:swap-keeps-the-length", len(p.l) == n)
	vEnsures("C19:swap-exchanges", vSame(p.l[i], old[j]) && vSame(p.l[j], old[i]))
	vEnsures("C19:other-elements-unchanged", vForall(0, n, func(k int) bool { return k == i || k == j || vSame(p.l[k], old[k]) }))
}

//vc:contract (*tList).Insert props=C19 nocall
func vcListInsert(p *tList, i int, data interface{}) {
	vRequires(0 <= i && i <= len(p.l))
	data = vcElemOf(p.elemType)
	old, n := vcCopy(p.l), len(p.l)
	p.Insert(i, data)
	vEnsures("C19:insert-lengthens", len(p.l) == n+1)
	vEnsures("C19:insert-at-the-index", vSame(p.l[i], data))
	vEnsures("C19:earlier-elements-unchanged", vForall(0, i, func(k int) bool { return vSame(p.l[k], old[k]) }))
	vEnsures("C19:later-elements-shift", vForall(i, n, func(k int) bool { return vSame(p.l[k+1], old[k]) }))
}

//vc:contract (*tList).Delete props=C19 nocall
func vcListDelete(p *tList, i int) {
	vRequires(0 <= i && i < len(p.l))
	old, n := vcCopy(p.l), len(p.l)
	p.Delete(i)
	vEnsures("C19:delete-shortens", len(p.l) == n-1)
	vEnsures("C19:earlier-elements-unchanged", vForall(0, i, func(k int) bool { return vSame(p.l[k], old[k]) }))
	vEnsures("C19:later-elements-move-down", vForall(i+1, n, func(k int) bool { return vSame(p.l[k-1], old[k]) }))
}

//vc:contract (*tList).Contains props=C19 nocall inv
func vcListContains(p *tList, data interface{}) (r bool) {
	vRequires(p.elemType.IsBaseType() && p.elemType != BINARY)
	vRequires(data == nil || vcIs(p.elemType, data))
	r = p.Contains(data)
	n := len(p.l)
	if r {
		vEnsures("C19:contains-only-its-elements", vExists(0, n, func(k int) bool { return p.l[k] == data }))
	} else {
		vEnsures("C19:contains-its-elements", vForall(0, n, func(k int) bool { return p.l[k] != data }))
	}
	return
}

//vc:loop vcListContains
func vcListContainsLoop(p *tList, data interface{}, i int) {
	vInv(i >= 0)
	vInv(vForall(0, i, func(k int) bool { return p.l[k] != data }))
}
