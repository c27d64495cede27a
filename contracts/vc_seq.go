package thrift

import "container/list"

// container/list: a list is the sequence of its values, an element is a
// position in it. These are the assumed contracts of the library.

type vList struct {
	list.List
	seq []interface{}
	ver int // counts the changes
}

type vElem struct {
	list.Element
	l   *vList
	pos int
	ver int // the list as of which pos is right
}

func vOuterList(l *list.List) *vList    { panic("verifier only") }
func vOuterElem(e *list.Element) *vElem { panic("verifier only") }
func vMarkElem(e *vElem)                {}
func vMarkList(l *vList)                {}

func vHandle(l *vList, i int) *list.Element {
	e := &vElem{l: l, pos: i, ver: l.ver}
	vMarkElem(e)
	return &e.Element
}

//vc:havoc *container/list.Element
func vArbElem(l *vList) *list.Element {
	if vBool("end-of-list") {
		return nil
	}
	i := vInt("position")
	vAssume(0 <= i && i < len(l.seq))
	return vHandle(l, i)
}

func vAt(e *list.Element) *vElem {
	x := vOuterElem(e)
	if x.pos < 0 {
		vUnsupported("use of a removed list element")
	}
	if x.ver != x.l.ver {
		vUnsupported("use of a list element after a change of the list")
	}
	return x
}

func vInsert(l *vList, i int, v interface{}) *list.Element {
	s := append([]interface{}{}, l.seq[:i]...)
	s = append(s, v)
	l.seq = append(s, l.seq[i:]...)
	l.ver++
	return vHandle(l, i)
}

//vc:model container/list.New
func vmListNew() *list.List {
	l := &vList{}
	vMarkList(l)
	return &l.List
}

//vc:model (*container/list.List).Init
func vmListInit(l *list.List) *list.List {
	o := vOuterList(l)
	o.seq = nil
	o.ver++
	return l
}

//vc:model (*container/list.List).Len
func vmListLen(l *list.List) int { return len(vOuterList(l).seq) }

//vc:model (*container/list.List).Front
func vmListFront(l *list.List) *list.Element {
	o := vOuterList(l)
	if len(o.seq) == 0 {
		return nil
	}
	return vHandle(o, 0)
}

//vc:model (*container/list.List).Back
func vmListBack(l *list.List) *list.Element {
	o := vOuterList(l)
	if len(o.seq) == 0 {
		return nil
	}
	return vHandle(o, len(o.seq)-1)
}

//vc:model (*container/list.Element).Next
func vmElemNext(e *list.Element) *list.Element {
	x := vAt(e)
	if x.pos+1 >= len(x.l.seq) {
		return nil
	}
	return vHandle(x.l, x.pos+1)
}

//vc:model (*container/list.Element).Prev
func vmElemPrev(e *list.Element) *list.Element {
	x := vAt(e)
	if x.pos == 0 {
		return nil
	}
	return vHandle(x.l, x.pos-1)
}

//vc:model (*container/list.List).PushFront
func vmListPushFront(l *list.List, v interface{}) *list.Element {
	return vInsert(vOuterList(l), 0, v)
}

//vc:model (*container/list.List).PushBack
func vmListPushBack(l *list.List, v interface{}) *list.Element {
	o := vOuterList(l)
	return vInsert(o, len(o.seq), v)
}

//vc:model (*container/list.List).InsertBefore
func vmListInsertBefore(l *list.List, v interface{}, mark *list.Element) *list.Element {
	o, x := vOuterList(l), vAt(mark)
	if x.l != o {
		return nil
	}
	e := vInsert(o, x.pos, v)
	x.pos++
	x.ver = o.ver
	return e
}

//vc:model (*container/list.List).InsertAfter
func vmListInsertAfter(l *list.List, v interface{}, mark *list.Element) *list.Element {
	o, x := vOuterList(l), vAt(mark)
	if x.l != o {
		return nil
	}
	e := vInsert(o, x.pos+1, v)
	x.ver = o.ver
	return e
}

//vc:model (*container/list.List).Remove
func vmListRemove(l *list.List, e *list.Element) interface{} {
	o, x := vOuterList(l), vAt(e)
	v := o.seq[x.pos]
	if x.l != o {
		return v
	}
	o.seq = append(append([]interface{}{}, o.seq[:x.pos]...), o.seq[x.pos+1:]...)
	o.ver++
	x.pos = -1
	x.Value = v
	return v
}

// vSeqOf: the values of a list in order.
func vSeqOf(l *list.List) []interface{} {
	if vNative() {
		var r []interface{}
		for e := l.Front(); e != nil; e = e.Next() {
			r = append(r, e.Value)
		}
		return r
	}
	return vOuterList(l).seq
}

// vSeqSet makes r the values of the list.
func vSeqSet(l *list.List, r []interface{}) {
	if vNative() {
		for _, v := range r {
			l.PushBack(v)
		}
		return
	}
	vOuterList(l).seq = r
}

// vPos: the position of an element; the length of the list for no element.
func vPos(l *list.List, e *list.Element) int {
	if e == nil {
		return len(vOuterList(l).seq)
	}
	return vAt(e).pos
}
