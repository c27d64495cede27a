package thrift

// ---------------------------------------------------------------- C07: skip

func vcNext(h int, kind int) int { return vcStep(h, kind, 0, 0, "") }

// vcAfter is the state of the protocol after exactly one value of type t has
// been read at state h, or -1 if it is nested deeper than depth.
//
//vc:opaque
func vcAfter(t TType, h int, depth int) int {
	if depth <= 0 {
		return -1
	}
	switch t {
	case BOOL:
		return vcNext(h, vcKRBool)
	case BYTE:
		return vcNext(h, vcKRByte)
	case I16:
		return vcNext(h, vcKRI16)
	case I32:
		return vcNext(h, vcKRI32)
	case I64:
		return vcNext(h, vcKRI64)
	case DOUBLE:
		return vcNext(h, vcKRDouble)
	case STRING:
		return vcNext(h, vcKRString)
	case STRUCT:
		return vcFields(vcNext(h, vcKRStructBegin), depth)
	case MAP:
		b := vcNext(h, vcKRMapBegin)
		e := vcPairs(vcKType(b), vcVType(b), b, vcSize(b), depth-1)
		if e == -1 {
			return -1
		}
		return vcNext(e, vcKRMapEnd)
	case LIST:
		b := vcNext(h, vcKRListBegin)
		e := vcElems(vcVType(b), b, vcSize(b), depth-1)
		if e == -1 {
			return -1
		}
		return vcNext(e, vcKRListEnd)
	case SET:
		b := vcNext(h, vcKRSetBegin)
		e := vcElems(vcVType(b), b, vcSize(b), depth-1)
		if e == -1 {
			return -1
		}
		return vcNext(e, vcKRSetEnd)
	}
	return h
}

// vcFields: the fields up to the stop field and the end of the struct.
//
//vc:opaque
func vcFields(h int, depth int) int {
	b := vcNext(h, vcKRFieldBegin)
	if vcFType(b) == STOP {
		return vcNext(b, vcKRStructEnd)
	}
	v := vcAfter(vcFType(b), b, depth-1)
	if v == -1 {
		return -1
	}
	return vcFields(vcNext(v, vcKRFieldEnd), depth)
}

// vcElems: n values of type t.
//
//vc:opaque
func vcElems(t TType, h int, n int, depth int) int {
	if n <= 0 {
		return h
	}
	v := vcAfter(t, h, depth)
	if v == -1 {
		return -1
	}
	return vcElems(t, v, n-1, depth)
}

// vcPairs: n keys of type k, each followed by a value of type t.
//
//vc:opaque
func vcPairs(k TType, t TType, h int, n int, depth int) int {
	if n <= 0 {
		return h
	}
	a := vcAfter(k, h, depth)
	if a == -1 {
		return -1
	}
	b := vcAfter(t, a, depth)
	if b == -1 {
		return -1
	}
	return vcPairs(k, t, b, n-1, depth)
}

//vc:contract Skip props=C07 inv
func vcSkip(self TProtocol, fieldType TType, maxDepth int) (err TProtocolException) {
	p, ok := self.(*vcProto)
	vRequires(ok)
	vRequires(!p.stopped && !p.after && !p.failed && p.h >= 0)
	h, base := p.h, p.base
	p.base = h
	vModifies(&p.h, &p.failed, &p.stopped, &p.after)
	err = Skip(self, fieldType, maxDepth)
	p.base = base
	vReveal(vcAfter, fieldType, h, maxDepth)
	vcSkipped(p, h, fieldType, maxDepth, err)
	return
}

func vcSkipped(p *vcProto, h int, fieldType TType, maxDepth int, err TProtocolException) {
	if err == nil {
		vEnsures("C07:failure-not-swallowed", !p.failed)
		vEnsures("C07:nested-too-deep-is-refused", vcAfter(fieldType, h, maxDepth) != -1)
		vSet("C07:exactly-one-value-read", &p.h, vcAfter(fieldType, h, maxDepth))
		vEnsures("C07:state", p.h >= 0)
		vSet("C07:failure-not-swallowed", &p.failed, false)
		vSet("C07:failure-not-swallowed", &p.stopped, false)
	} else {
		vEnsures("C07:no-error-without-cause", p.failed || vcAfter(fieldType, h, maxDepth) == -1)
		p.stopped = true
		if maxDepth <= 0 {
			vEnsures("C07:too-deep-is-not-followed", p.h == h && !p.failed)
		}
	}
	vSet("C07:stops-at-the-first-error", &p.after, false)
}

//vc:loop vcSkip
func vcSkipStructLoop(self TProtocol, maxDepth int) {
	p := self.(*vcProto)
	b := vcNext(p.base, vcKRStructBegin)
	vReveal(vcFields, p.h, maxDepth)
	vInv(!p.failed && !p.stopped && !p.after && p.h >= 0)
	vInv(vcFields(b, maxDepth) == vcFields(p.h, maxDepth))
}

//vc:loop vcSkip
func vcSkipElemLoop(self TProtocol, maxDepth int, i int) {
	p := self.(*vcProto)
	b := vcNext(p.base, vcKRListBegin)
	t, n := vcVType(b), vcSize(b)
	vReveal(vcElems, t, p.h, n-i, maxDepth-1)
	vReveal(vcElems, t, p.h, i, maxDepth-1)
	vInv(i <= n || i == 0)
	vInv(vcElems(t, b, n, maxDepth-1) == vcElems(t, p.h, n-i, maxDepth-1))
	vInv(vcElems(t, b, n, maxDepth-1) == vcElems(t, p.h, i, maxDepth-1))
	b = vcNext(p.base, vcKRSetBegin)
	t, n = vcVType(b), vcSize(b)
	vReveal(vcElems, t, p.h, n-i, maxDepth-1)
	vReveal(vcElems, t, p.h, i, maxDepth-1)
	vInv(i <= n || i == 0)
	vInv(vcElems(t, b, n, maxDepth-1) == vcElems(t, p.h, n-i, maxDepth-1))
	vInv(vcElems(t, b, n, maxDepth-1) == vcElems(t, p.h, i, maxDepth-1))
	b = vcNext(p.base, vcKRMapBegin)
	k := vcKType(b)
	t, n = vcVType(b), vcSize(b)
	vReveal(vcPairs, k, t, p.h, n-i, maxDepth-1)
	vReveal(vcPairs, k, t, p.h, i, maxDepth-1)
	vInv(i <= n || i == 0)
	vInv(vcPairs(k, t, b, n, maxDepth-1) == vcPairs(k, t, p.h, n-i, maxDepth-1))
	vInv(vcPairs(k, t, b, n, maxDepth-1) == vcPairs(k, t, p.h, i, maxDepth-1))
}

// Loops that end with an error carried along.
//
//vc:loop vcSkip
func vcSkipStructErrLoop(self TProtocol, maxDepth int, err TProtocolException) {
	p := self.(*vcProto)
	b := vcNext(p.base, vcKRStructBegin)
	vReveal(vcFields, p.h, maxDepth)
	if err == nil {
		vInv(!p.failed && !p.stopped && !p.after && p.h >= 0)
		vInv(vcFields(b, maxDepth) == vcFields(p.h, maxDepth))
	} else {
		vInv(!p.after && p.stopped)
		vInv(p.failed || vcFields(b, maxDepth) == -1)
	}
}

//vc:loop vcSkip
func vcSkipElemErrLoop(self TProtocol, maxDepth int, i int, err TProtocolException) {
	p := self.(*vcProto)
	b := vcNext(p.base, vcKRListBegin)
	t, n := vcVType(b), vcSize(b)
	vReveal(vcElems, t, p.h, n-i, maxDepth-1)
	if err == nil {
		vInv(!p.failed && !p.stopped && !p.after && p.h >= 0)
		vInv(i <= n || i == 0)
		vInv(vcElems(t, b, n, maxDepth-1) == vcElems(t, p.h, n-i, maxDepth-1))
	} else {
		vInv(!p.after && p.stopped)
		vInv(p.failed || vcElems(t, b, n, maxDepth-1) == -1)
	}
	b = vcNext(p.base, vcKRSetBegin)
	t, n = vcVType(b), vcSize(b)
	vReveal(vcElems, t, p.h, n-i, maxDepth-1)
	if err == nil {
		vInv(i <= n || i == 0)
		vInv(vcElems(t, b, n, maxDepth-1) == vcElems(t, p.h, n-i, maxDepth-1))
	} else {
		vInv(p.failed || vcElems(t, b, n, maxDepth-1) == -1)
	}
	b = vcNext(p.base, vcKRMapBegin)
	k := vcKType(b)
	t, n = vcVType(b), vcSize(b)
	vReveal(vcPairs, k, t, p.h, n-i, maxDepth-1)
	if err == nil {
		vInv(i <= n || i == 0)
		vInv(vcPairs(k, t, b, n, maxDepth-1) == vcPairs(k, t, p.h, n-i, maxDepth-1))
	} else {
		vInv(p.failed || vcPairs(k, t, b, n, maxDepth-1) == -1)
	}
}

//vc:contract SkipDefaultDepth props=C07
func vcSkipDefaultDepth(prot TProtocol, typeId TType) (err TProtocolException) {
	p, ok := prot.(*vcProto)
	vRequires(ok)
	vRequires(!p.stopped && !p.after && !p.failed && p.h >= 0)
	h := p.h
	vModifies(&p.h, &p.failed, &p.stopped, &p.after)
	err = SkipDefaultDepth(prot, typeId)
	vcSkipped(p, h, typeId, MaxSkipDepth, err)
	return
}

//vc:contract SetMaxSkipDepth props=C07
func vcSetMaxSkipDepth(depth int) {
	vModifies(&MaxSkipDepth)
	SetMaxSkipDepth(depth)
	vSet("C07:depth-setting", &MaxSkipDepth, depth)
}

// Skipping a scalar on the two wire formats: the bytes of one value are consumed.

func vcSkipEnd(t *vcTransport, old *vcTransport, err TProtocolException, end int) {
	if err == nil {
		vEnsures("C07:failure-not-swallowed", !t.failed)
		vEnsures("C07:bytes-consumed", t.pos == end)
	} else {
		vEnsures("C07:error-only-after-failure", t.failed)
	}
}

//vc:contract (*TBinaryProtocol).Skip props=C07,C28 nocall
func vcBinSkip(p *TBinaryProtocol, fieldType TType) (err TProtocolException) {
	t := vcBinT(p)
	vAssume(MaxSkipDepth > 0)
	n := 0
	switch fieldType {
	case BOOL, BYTE:
		n = 1
	case I16:
		n = 2
	case I32:
		n = 4
	case I64, DOUBLE:
		n = 8
	case STRING:
		n = 4
	case STOP:
	default:
		vAssume(false)
	}
	old := vcCopyT(t)
	err = p.Skip(fieldType)
	if fieldType == STRING && err == nil {
		vEnsures("C07:input-long-enough", old.pos+4 <= len(old.in))
		k := int32(uint32(old.in[old.pos])<<24 | uint32(old.in[old.pos+1])<<16 | uint32(old.in[old.pos+2])<<8 | uint32(old.in[old.pos+3]))
		vEnsures("C07:length-not-negative", k >= 0)
		n += int(k)
	}
	if err == nil {
		vcSkipEnd(t, old, err, old.pos+n)
	} else {
		vEnsures("C07:no-error-without-cause", t.failed || fieldType == STRING)
	}
	return
}

//vc:contract (*TCompactProtocol).Skip props=C07,C28 nocall
func vcCptSkip(p *TCompactProtocol, fieldType TType) (err TProtocolException) {
	t := vcCptT(p)
	vAssume(MaxSkipDepth > 0)
	old := vcCopyT(t)
	pending := p.boolValueIsNotNull
	end := old.pos
	switch fieldType {
	case BOOL:
		if !pending {
			end = old.pos + 1
		}
	case BYTE:
		end = old.pos + 1
	case I16, I32, I64:
		end = vcVarEnd(old.in, old.pos)
	case DOUBLE:
		end = old.pos + 8
	case STRING:
		end = vcVarEnd(old.in, old.pos) + int(int32(vcVarVal(old.in, old.pos, 0, 0)))
	case STOP:
	default:
		vAssume(false)
	}
	err = p.Skip(fieldType)
	if vBounded() {
		vcUnfold(old.in, old.pos, 10)
	}
	if err == nil {
		vcSkipEnd(t, old, err, end)
		if fieldType == BOOL {
			vEnsures("C07:folded-value-consumed", !p.boolValueIsNotNull)
		}
	} else {
		vEnsures("C07:no-error-without-cause", t.failed || fieldType == STRING)
	}
	return
}
