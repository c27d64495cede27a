package thrift

// ---------------------------------------------------------------- C25: application exceptions

//vc:gen
func vGenAppExc() *tApplicationException {
	return &tApplicationException{TException: NewTException(vString("message")), type_: vInt32("type")}
}

//vc:contract NewTApplicationException props=C25 nocall
func vcNewAppExc(type_ int32, message string) (e TApplicationException) {
	e = NewTApplicationException(type_, message)
	vEnsures("C25:accessors", e != nil && e.TypeId() == type_ && e.Error() == message)
	return
}

//vc:contract NewTApplicationExceptionMessage props=C25 nocall
func vcNewAppExcMessage(message string) (e TApplicationException) {
	e = NewTApplicationExceptionMessage(message)
	vEnsures("C25:accessors", e != nil && e.Error() == message)
	return
}

//vc:contract NewTApplicationExceptionType props=C25 nocall
func vcNewAppExcType(type_ int32) (e TApplicationException) {
	e = NewTApplicationExceptionType(type_)
	vEnsures("C25:accessors", e != nil && e.TypeId() == type_)
	return
}

// vcAppWritten: the state after the calls that write an exception.
func vcAppWritten(h int, message string, type_ int32) int {
	h = vcStep(h, vcKWStructBegin, 0, 0, "")
	if message != "" {
		h = vcStep(h, vcKWFieldBegin, int64(STRING), 1, "message")
		h = vcStep(h, vcKWString, 0, 0, message)
		h = vcStep(h, vcKWFieldEnd, 0, 0, "")
	}
	h = vcStep(h, vcKWFieldBegin, int64(I32), 2, "type")
	h = vcStep(h, vcKWI32, int64(type_), 0, "")
	h = vcStep(h, vcKWFieldEnd, 0, 0, "")
	h = vcStep(h, vcKWFieldStop, 0, 0, "")
	return vcStep(h, vcKWStructEnd, 0, 0, "")
}

//vc:contract (*tApplicationException).Write props=C25 nocall
func vcAppWrite(p *tApplicationException, oprot TProtocol) (err error) {
	o, ok := oprot.(*vcProto)
	vRequires(ok)
	vRequires(!o.stopped && !o.after && !o.failed && o.h >= 0)
	h, m, t := o.h, p.Error(), p.type_
	vModifies(&o.h, &o.failed, &o.stopped, &o.after)
	err = p.Write(oprot)
	if err == nil {
		vEnsures("C25:failure-not-swallowed", !o.failed)
		vEnsures("C25:struct-written", o.h == vcAppWritten(h, m, t))
	} else {
		vEnsures("C25:no-error-without-cause", o.failed)
	}
	vEnsures("C25:stops-at-the-first-error", !o.after)
	vEnsures("C25:exception-unchanged", p.Error() == m && p.type_ == t)
	return
}

// The fields of an exception from state h on, up to the stop field, when
// message and type_ have been read so far.

//vc:opaque
func vcAppMessage(h int, message string) string {
	b := vcNext(h, vcKRFieldBegin)
	if vcFType(b) == STOP {
		return message
	}
	if vcFId(b) == 1 && vcFType(b) == STRING {
		v := vcNext(b, vcKRString)
		return vcAppMessage(vcNext(v, vcKRFieldEnd), vcStr(v))
	}
	return vcAppMessage(vcAppSkipField(b), message)
}

//vc:opaque
func vcAppType(h int, type_ int32) int32 {
	b := vcNext(h, vcKRFieldBegin)
	if vcFType(b) == STOP {
		return type_
	}
	if vcFId(b) == 2 && vcFType(b) == I32 {
		v := vcNext(b, vcKRI32)
		return vcAppType(vcNext(v, vcKRFieldEnd), vcI32(v))
	}
	return vcAppType(vcAppSkipField(b), type_)
}

// vcAppSkipField: the state after the field whose header has been read, or -1.
func vcAppSkipField(b int) int {
	if vcFId(b) == 1 && vcFType(b) == STRING {
		return vcNext(vcNext(b, vcKRString), vcKRFieldEnd)
	}
	if vcFId(b) == 2 && vcFType(b) == I32 {
		return vcNext(vcNext(b, vcKRI32), vcKRFieldEnd)
	}
	v := vcAfter(vcFType(b), b, MaxSkipDepth)
	if v == -1 {
		return -1
	}
	return vcNext(v, vcKRFieldEnd)
}

//vc:opaque
func vcAppEnd(h int) int {
	b := vcNext(h, vcKRFieldBegin)
	if vcFType(b) == STOP {
		return vcNext(b, vcKRStructEnd)
	}
	if n := vcAppSkipField(b); n != -1 {
		return vcAppEnd(n)
	}
	return -1
}

//vc:contract (*tApplicationException).Read props=C25 nocall inv
func vcAppRead(p *tApplicationException, iprot TProtocol) (e TApplicationException, err error) {
	i, ok := iprot.(*vcProto)
	vRequires(ok)
	vRequires(!i.stopped && !i.after && !i.failed && i.h >= 0)
	h := i.h
	i.base = vcNext(h, vcKRStructBegin)
	vModifies(&i.h, &i.failed, &i.stopped, &i.after)
	e, err = p.Read(iprot)
	if err == nil {
		s := vcNext(h, vcKRStructBegin)
		vEnsures("C25:failure-not-swallowed", !i.failed)
		vEnsures("C25:whole-struct-read", i.h == vcAppEnd(s))
		vEnsures("C25:message-read", e != nil && e.Error() == vcAppMessage(s, ""))
		vEnsures("C25:type-read", e.TypeId() == vcAppType(s, UNKNOWN_APPLICATION_EXCEPTION))
	} else {
		vEnsures("C25:no-error-without-cause", i.stopped)
	}
	vEnsures("C25:stops-at-the-first-error", !i.after)
	return
}

//vc:loop vcAppRead
func vcAppReadLoop(iprot TProtocol, message string, type_ int32) {
	i := iprot.(*vcProto)
	vReveal(vcAppMessage, i.h, message)
	vReveal(vcAppType, i.h, type_)
	vReveal(vcAppEnd, i.h)
	vInv(!i.failed && !i.stopped && !i.after && i.h >= 0)
	vInv(vcAppMessage(i.base, "") == vcAppMessage(i.h, message))
	vInv(vcAppType(i.base, UNKNOWN_APPLICATION_EXCEPTION) == vcAppType(i.h, type_))
	vInv(vcAppEnd(i.base) == vcAppEnd(i.h))
}

// Loops that end with a flag or an error carried along.
//
//vc:loop vcAppRead
func vcAppReadDoneLoop(iprot TProtocol, message string, type_ int32, done bool) {
	i := iprot.(*vcProto)
	if !done {
		vReveal(vcAppMessage, i.h, message)
		vReveal(vcAppType, i.h, type_)
		vReveal(vcAppEnd, i.h)
		vInv(!i.failed && !i.stopped && !i.after && i.h >= 0)
		vInv(vcAppMessage(i.base, "") == vcAppMessage(i.h, message))
		vInv(vcAppType(i.base, UNKNOWN_APPLICATION_EXCEPTION) == vcAppType(i.h, type_))
		vInv(vcAppEnd(i.base) == vcAppEnd(i.h))
	} else {
		vInv(!i.failed && !i.stopped && !i.after && i.h >= 0)
		vInv(vcAppMessage(i.base, "") == message)
		vInv(vcAppType(i.base, UNKNOWN_APPLICATION_EXCEPTION) == type_)
		vInv(vcAppEnd(i.base) == vcNext(i.h, vcKRStructEnd))
	}
}

//vc:loop vcAppRead
func vcAppReadErrLoop(iprot TProtocol, message string, type_ int32, err error) {
	i := iprot.(*vcProto)
	if err == nil {
		vReveal(vcAppMessage, i.h, message)
		vReveal(vcAppType, i.h, type_)
		vReveal(vcAppEnd, i.h)
		vInv(!i.failed && !i.stopped && !i.after && i.h >= 0)
		vInv(vcAppMessage(i.base, "") == vcAppMessage(i.h, message))
		vInv(vcAppType(i.base, UNKNOWN_APPLICATION_EXCEPTION) == vcAppType(i.h, type_))
		vInv(vcAppEnd(i.base) == vcAppEnd(i.h))
	} else {
		vInv(i.stopped && !i.after)
	}
}

// Reading what was written: on a protocol that delivers the fields which Write
// emitted, in either order and with one unknown field before, between or after
// them, the message and type come back.
//
//vc:lemma props=C25
func vcAppRoundTrip(h0 int, message string, type_ int32) {
	vAssume(MaxSkipDepth > 0)
	order := [][]int{{1, 2, 3}, {2, 1, 3}, {3, 1, 2}, {1, 3, 2}, {2, 3, 1}, {1, 2}, {2, 1}, {2, 3}, {3, 2}, {2}}[vChoice(10)]
	h, m, t := h0, "", int32(UNKNOWN_APPLICATION_EXCEPTION)
	hasMessage := false
	for _, f := range order {
		b := vcNext(h, vcKRFieldBegin)
		vReveal(vcAppMessage, h, m)
		vReveal(vcAppType, h, t)
		vReveal(vcAppEnd, h)
		v := b
		switch f {
		case 1:
			v = vcNext(b, vcKRString)
			vAssume(vcFType(b) == STRING && vcFId(b) == 1 && vcStr(v) == message)
			m = message
			hasMessage = true
		case 2:
			v = vcNext(b, vcKRI32)
			vAssume(vcFType(b) == I32 && vcFId(b) == 2 && vcI32(v) == type_)
			t = type_
		case 3:
			v = vcNext(b, vcKRI64)
			vAssume(vcFType(b) == I64)
			vReveal(vcAfter, TType(I64), b, MaxSkipDepth)
		}
		vAssume(v >= 0)
		h = vcNext(v, vcKRFieldEnd)
		vAssume(h >= 0)
	}
	vAssume(hasMessage || message == "")
	b := vcNext(h, vcKRFieldBegin)
	vAssume(vcFType(b) == STOP)
	vReveal(vcAppMessage, h, m)
	vReveal(vcAppType, h, t)
	vReveal(vcAppEnd, h)
	e := vcNext(b, vcKRStructEnd)
	vEnsures("C25:message-survives", vcAppMessage(h0, "") == message)
	vEnsures("C25:type-survives", vcAppType(h0, UNKNOWN_APPLICATION_EXCEPTION) == type_)
	vEnsures("C25:struct-is-complete", vcAppEnd(h0) == e)
}
