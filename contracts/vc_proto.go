package thrift

import "math"

// vcProto is an arbitrary protocol seen by its callers: every call moves it
// from state h to vcStep(h, call), what a read returns is an arbitrary function
// of the state reached, and any call may fail.
type vcProto struct {
	h       int
	base    int  // state when the operation under contract was entered
	failed  bool // a call has failed
	stopped bool // a call, or an operation made of calls, has reported an error
	after   bool // a call was made after that
	tr      TTransport
}

const (
	vcKNone = iota
	vcKRMsgBegin
	vcKRMsgEnd
	vcKRStructBegin
	vcKRStructEnd
	vcKRFieldBegin
	vcKRFieldEnd
	vcKRFieldStop
	vcKRMapBegin
	vcKRMapEnd
	vcKRListBegin
	vcKRListEnd
	vcKRSetBegin
	vcKRSetEnd
	vcKRBool
	vcKRByte
	vcKRI16
	vcKRI32
	vcKRI64
	vcKRDouble
	vcKRString
	vcKRBinary
	vcKRSkip
	vcKWMsgBegin
	vcKWMsgEnd
	vcKWStructBegin
	vcKWStructEnd
	vcKWFieldBegin
	vcKWFieldEnd
	vcKWFieldStop
	vcKWMapBegin
	vcKWMapEnd
	vcKWListBegin
	vcKWListEnd
	vcKWSetBegin
	vcKWSetEnd
	vcKWBool
	vcKWByte
	vcKWI16
	vcKWI32
	vcKWI64
	vcKWDouble
	vcKWString
	vcKWBinary
	vcKWSkip
	vcKFlush
)

// vcStep: the state after a call with the given arguments.
//
//vc:opaque
func vcStep(h int, kind int, a int64, b int64, s string) int {
	x := uint64(h)*31 + uint64(kind)*7 + uint64(a)*13 + uint64(b)*29
	for i := 0; i < len(s); i++ {
		x = x*131 + uint64(s[i])
	}
	return int((x * 0x9E3779B97F4A7C15) >> 24)
}

var vcTypes = [...]TType{STOP, STOP, STOP, STOP, BOOL, BYTE, I16, I32, I64, DOUBLE, STRING, STRUCT, MAP, SET, LIST, VOID}

//vc:opaque
func vcFType(h int) TType { return vcTypes[h%16] }

//vc:opaque
func vcKType(h int) TType { return vcTypes[h/16%16] }

//vc:opaque
func vcVType(h int) TType { return vcTypes[h/256%16] }

//vc:opaque
func vcSize(h int) int { return h / 4096 % 4 }

//vc:opaque
func vcFId(h int) int16 { return int16(h / 64 % 5) }

//vc:opaque
func vcI32(h int) int32 { return int32(h / 7 % 11) }

//vc:opaque
func vcI64(h int) int64 { return int64(h / 7) }

//vc:opaque
func vcStr(h int) string { return []string{"", "a", "bc"}[h/5%3] }

func vcAnyPE() TProtocolException {
	return &vcTErr{vString("errmsg"), vInt("errid")}
}

// call makes one call on the protocol.
func (p *vcProto) call(kind int, a int64, b int64, s string) TProtocolException {
	if p.stopped {
		p.after = true
	}
	if vBool("callfails") {
		p.failed = true
		p.stopped = true
		return vcAnyPE()
	}
	p.h = vcStep(p.h, kind, a, b, s)
	vAssume(p.h >= 0)
	return nil
}

//vc:gen
func vGenProto() *vcProto {
	p := &vcProto{h: vInt("h"), tr: TTransport(vGenTransport())}
	vAssume(p.h >= 0)
	p.base = p.h
	return p
}

//vc:gen
func vGenTProtocol() TProtocol { return vGenProto() }

func (p *vcProto) WriteMessageBegin(name string, typeId TMessageType, seqid int32) TProtocolException {
	return p.call(vcKWMsgBegin, int64(typeId), int64(seqid), name)
}
func (p *vcProto) WriteFieldBegin(name string, typeId TType, id int16) TProtocolException {
	return p.call(vcKWFieldBegin, int64(typeId), int64(id), name)
}
func (p *vcProto) WriteStructBegin(name string) TProtocolException {
	return p.call(vcKWStructBegin, 0, 0, "")
}
func (p *vcProto) WriteMapBegin(keyType TType, valueType TType, size int) TProtocolException {
	return p.call(vcKWMapBegin, int64(keyType)<<8|int64(valueType), int64(size), "")
}
func (p *vcProto) WriteListBegin(elemType TType, size int) TProtocolException {
	return p.call(vcKWListBegin, int64(elemType), int64(size), "")
}
func (p *vcProto) WriteSetBegin(elemType TType, size int) TProtocolException {
	return p.call(vcKWSetBegin, int64(elemType), int64(size), "")
}
func (p *vcProto) WriteBool(value bool) TProtocolException {
	if value {
		return p.call(vcKWBool, 1, 0, "")
	}
	return p.call(vcKWBool, 0, 0, "")
}
func (p *vcProto) WriteByte(value byte) TProtocolException {
	return p.call(vcKWByte, int64(value), 0, "")
}
func (p *vcProto) WriteI16(value int16) TProtocolException {
	return p.call(vcKWI16, int64(value), 0, "")
}
func (p *vcProto) WriteI32(value int32) TProtocolException {
	return p.call(vcKWI32, int64(value), 0, "")
}
func (p *vcProto) WriteI64(value int64) TProtocolException {
	return p.call(vcKWI64, int64(value), 0, "")
}
func (p *vcProto) WriteDouble(value float64) TProtocolException {
	return p.call(vcKWDouble, int64(math.Float64bits(value)), 0, "")
}
func (p *vcProto) WriteString(value string) TProtocolException {
	return p.call(vcKWString, 0, 0, value)
}
func (p *vcProto) WriteBinary(value []byte) TProtocolException {
	return p.call(vcKWBinary, 0, 0, string(value))
}
func (p *vcProto) WriteMessageEnd() TProtocolException { return p.call(vcKWMsgEnd, 0, 0, "") }
func (p *vcProto) WriteStructEnd() TProtocolException  { return p.call(vcKWStructEnd, 0, 0, "") }
func (p *vcProto) WriteFieldEnd() TProtocolException   { return p.call(vcKWFieldEnd, 0, 0, "") }
func (p *vcProto) WriteFieldStop() TProtocolException  { return p.call(vcKWFieldStop, 0, 0, "") }
func (p *vcProto) WriteMapEnd() TProtocolException     { return p.call(vcKWMapEnd, 0, 0, "") }
func (p *vcProto) WriteListEnd() TProtocolException    { return p.call(vcKWListEnd, 0, 0, "") }
func (p *vcProto) WriteSetEnd() TProtocolException     { return p.call(vcKWSetEnd, 0, 0, "") }
func (p *vcProto) ReadMessageEnd() TProtocolException  { return p.call(vcKRMsgEnd, 0, 0, "") }
func (p *vcProto) ReadStructEnd() TProtocolException   { return p.call(vcKRStructEnd, 0, 0, "") }
func (p *vcProto) ReadFieldEnd() TProtocolException    { return p.call(vcKRFieldEnd, 0, 0, "") }
func (p *vcProto) ReadMapEnd() TProtocolException      { return p.call(vcKRMapEnd, 0, 0, "") }
func (p *vcProto) ReadListEnd() TProtocolException     { return p.call(vcKRListEnd, 0, 0, "") }
func (p *vcProto) ReadSetEnd() TProtocolException      { return p.call(vcKRSetEnd, 0, 0, "") }
func (p *vcProto) Flush() TProtocolException           { return p.call(vcKFlush, 0, 0, "") }
func (p *vcProto) Transport() TTransport               { return p.tr }
func (p *vcProto) Skip(fieldType TType) TProtocolException {
	return p.call(vcKRSkip, int64(fieldType), 0, "")
}
func (p *vcProto) ReadMessageBegin() (name string, typeId TMessageType, seqid int32, err TProtocolException) {
	if err = p.call(vcKRMsgBegin, 0, 0, ""); err == nil {
		return vcStr(p.h), TMessageType(vcFType(p.h)), vcI32(p.h), nil
	}
	return vString("r"), TMessageType(vInt32("r")), vInt32("r"), err
}
func (p *vcProto) ReadStructBegin() (name string, err TProtocolException) {
	err = p.call(vcKRStructBegin, 0, 0, "")
	return vString("r"), err
}
func (p *vcProto) ReadFieldBegin() (name string, typeId TType, id int16, err TProtocolException) {
	if err = p.call(vcKRFieldBegin, 0, 0, ""); err == nil {
		return vString("r"), vcFType(p.h), vcFId(p.h), nil
	}
	return vString("r"), TType(vByte("r")), vInt16("r"), err
}
func (p *vcProto) ReadMapBegin() (keyType TType, valueType TType, size int, err TProtocolException) {
	if err = p.call(vcKRMapBegin, 0, 0, ""); err == nil {
		return vcKType(p.h), vcVType(p.h), vcSize(p.h), nil
	}
	return TType(vByte("r")), TType(vByte("r")), vInt("r"), err
}
func (p *vcProto) ReadListBegin() (elemType TType, size int, err TProtocolException) {
	if err = p.call(vcKRListBegin, 0, 0, ""); err == nil {
		return vcVType(p.h), vcSize(p.h), nil
	}
	return TType(vByte("r")), vInt("r"), err
}
func (p *vcProto) ReadSetBegin() (elemType TType, size int, err TProtocolException) {
	if err = p.call(vcKRSetBegin, 0, 0, ""); err == nil {
		return vcVType(p.h), vcSize(p.h), nil
	}
	return TType(vByte("r")), vInt("r"), err
}
func (p *vcProto) ReadBool() (value bool, err TProtocolException) {
	err = p.call(vcKRBool, 0, 0, "")
	return vBool("r"), err
}
func (p *vcProto) ReadByte() (value byte, err TProtocolException) {
	err = p.call(vcKRByte, 0, 0, "")
	return vByte("r"), err
}
func (p *vcProto) ReadI16() (value int16, err TProtocolException) {
	err = p.call(vcKRI16, 0, 0, "")
	return vInt16("r"), err
}
func (p *vcProto) ReadI32() (value int32, err TProtocolException) {
	if err = p.call(vcKRI32, 0, 0, ""); err == nil {
		return vcI32(p.h), nil
	}
	return vInt32("r"), err
}
func (p *vcProto) ReadI64() (value int64, err TProtocolException) {
	if err = p.call(vcKRI64, 0, 0, ""); err == nil {
		return vcI64(p.h), nil
	}
	return vInt64("r"), err
}
func (p *vcProto) ReadDouble() (value float64, err TProtocolException) {
	err = p.call(vcKRDouble, 0, 0, "")
	return vFloat64("r"), err
}
func (p *vcProto) ReadString() (value string, err TProtocolException) {
	if err = p.call(vcKRString, 0, 0, ""); err == nil {
		return vcStr(p.h), nil
	}
	return vString("r"), err
}
func (p *vcProto) ReadBinary() (value []byte, err TProtocolException) {
	err = p.call(vcKRBinary, 0, 0, "")
	return vBytes("r"), err
}
