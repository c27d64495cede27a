package thrift

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"io"
	"math"
	"strconv"
)

// ---------------------------------------------------------------- C09: JSON writers

// ---- models of the text making library functions

// vcQuote is the JSON string that stands for s.
//
//vc:opaque
func vcQuote(s string) string { b, _ := json.Marshal(s); return string(b) }

// vcPlain: s has no character that needs an escape in a JSON string.
//
//vc:opaque
func vcPlain(s string) bool { return vcQuote(s) == "\""+s+"\"" }

// vcString: the text of s as a JSON string.
func vcString(s string) string {
	if vcPlain(s) {
		return "\"" + s + "\""
	}
	return vcQuote(s)
}

//vc:model encoding/json.Marshal
func vcModelMarshal(v interface{}) ([]byte, error) {
	s, ok := v.(string)
	if !ok {
		vUnsupported("json.Marshal of something that is not a string")
	}
	vAssume(vcPlain("true") && vcPlain("false") && vcPlain("null"))
	vAssume(vcPlain("NaN") && vcPlain("Infinity") && vcPlain("-Infinity"))
	q := vcString(s)
	vAssume(len(q) >= 2 && len(q) < 1<<46)
	return []byte(q), nil
}

//vc:opaque
func vcDecimal(v int64, base int) string { return strconv.FormatInt(v, base) }

//vc:model strconv.FormatInt
func vcModelFormatInt(v int64, base int) string {
	s := vcDecimal(v, base)
	vAssume(vcPlain(s) && len(s) > 0 && len(s) < 1<<12)
	return s
}

//vc:opaque
func vcFloatText(bits uint64, fmt byte, prec, bitSize int) string {
	return strconv.FormatFloat(math.Float64frombits(bits), fmt, prec, bitSize)
}

//vc:model strconv.FormatFloat
func vcModelFormatFloat(f float64, fmt byte, prec, bitSize int) string {
	s := vcFloatText(math.Float64bits(f), fmt, prec, bitSize)
	vAssume(vcPlain(s) && len(s) > 0 && len(s) < 1<<12)
	return s
}

//vc:opaque
func vcBase64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

// vcEncoder: a base64 stream encoder; it may hand its text on in two pieces.
type vcEncoder struct {
	w    io.Writer
	data string
	done string
	err  error
}

func (e *vcEncoder) Write(p []byte) (int, error) {
	if e.err != nil {
		return 0, e.err
	}
	e.data += string(p)
	n := vInt("n")
	vAssume(n >= len(e.done) && n <= len(vcBase64(e.data)) && vcBase64(e.data)[:len(e.done)] == e.done)
	if n > len(e.done) {
		if _, e.err = e.w.Write([]byte(vcBase64(e.data)[len(e.done):n])); e.err != nil {
			return 0, e.err
		}
		e.done = vcBase64(e.data)[:n]
	}
	return len(p), nil
}

func (e *vcEncoder) Close() error {
	if e.err == nil && len(e.done) < len(vcBase64(e.data)) {
		_, e.err = e.w.Write([]byte(vcBase64(e.data)[len(e.done):]))
		e.done = vcBase64(e.data)
	}
	return e.err
}

//vc:model encoding/base64.NewEncoder
func vcModelNewEncoder(enc *base64.Encoding, w io.Writer) io.WriteCloser { return &vcEncoder{w: w} }

// ---- the JSON grammar as an automaton over the stack of open brackets

func vcJSep(c int) string {
	switch _ParseContext(c) {
	case _CONTEXT_IN_LIST, _CONTEXT_IN_OBJECT_NEXT_KEY:
		return ","
	case _CONTEXT_IN_OBJECT_NEXT_VALUE:
		return ":"
	}
	return ""
}

func vcJNext(c int) int {
	switch _ParseContext(c) {
	case _CONTEXT_IN_LIST_FIRST:
		return int(_CONTEXT_IN_LIST)
	case _CONTEXT_IN_OBJECT_FIRST, _CONTEXT_IN_OBJECT_NEXT_KEY:
		return int(_CONTEXT_IN_OBJECT_NEXT_VALUE)
	case _CONTEXT_IN_OBJECT_NEXT_VALUE:
		return int(_CONTEXT_IN_OBJECT_NEXT_KEY)
	}
	return c
}

func vcJKey(c int) bool {
	return c == int(_CONTEXT_IN_OBJECT_FIRST) || c == int(_CONTEXT_IN_OBJECT_NEXT_KEY)
}

func vcJList(c int) bool {
	return c == int(_CONTEXT_IN_LIST_FIRST) || c == int(_CONTEXT_IN_LIST)
}

// vcJ follows what a writer should do: want is the text it should emit, the
// stack of contexts is that of the start up to base, and hi above it.
type vcJ struct {
	p     *TSimpleJSONProtocol
	t     *vcTransport
	out   string
	stack []int
	base  int
	hi    []int
	want  string
}

// vcJStart: an arbitrary stack of open brackets at which a value may follow.
func vcJStart(p *TSimpleJSONProtocol) *vcJ {
	t := vcTrans(p.Transport())
	j := &vcJ{p: p, t: t, out: t.out, stack: append([]int{}, p.dumpContext...)}
	vRequires(len(j.stack) >= 1)
	j.base = len(j.stack) - 1
	top := j.stack[j.base]
	vRequires(top >= int(_CONTEXT_IN_TOPLEVEL) && top <= int(_CONTEXT_IN_OBJECT_NEXT_VALUE))
	j.hi = []int{top}
	return j
}

func (j *vcJ) top() int { return j.hi[len(j.hi)-1] }

func (j *vcJ) emit(token string) {
	n := len(j.hi) - 1
	j.want += vcJSep(j.hi[n]) + token
	j.hi[n] = vcJNext(j.hi[n])
}

// text: a value that is not a string by itself; as a key it has to be quoted
func (j *vcJ) text(token string) {
	if vcJKey(j.top()) {
		j.emit("\"" + token + "\"")
	} else {
		j.emit(token)
	}
}

func (j *vcJ) number(v int64)  { j.text(vcDecimal(v, 10)) }
func (j *vcJ) quoted(s string) { j.emit(vcString(s)) }

func (j *vcJ) boolean(b bool) {
	if b {
		j.text("true")
	} else {
		j.text("false")
	}
}

func (j *vcJ) double(v float64) {
	switch {
	case v != v:
		j.emit("\"NaN\"")
	case v > math.MaxFloat64:
		j.emit("\"Infinity\"")
	case v < -math.MaxFloat64:
		j.emit("\"-Infinity\"")
	default:
		j.text(vcFloatText(math.Float64bits(v), 'g', -1, 64))
	}
}

func (j *vcJ) binary(v []byte) { j.emit("\"" + vcBase64(string(v)) + "\"") }

func (j *vcJ) open(bracket string, inside _ParseContext) {
	vRequires(!vcJKey(j.top()))
	j.want += vcJSep(j.top()) + bracket
	j.hi = append(j.hi, int(inside))
}

func (j *vcJ) openList()   { j.open("[", _CONTEXT_IN_LIST_FIRST) }
func (j *vcJ) openObject() { j.open("{", _CONTEXT_IN_OBJECT_FIRST) }

// close: the bracket opened last is closed; a value precedes in its surroundings.
func (j *vcJ) close(bracket string) {
	vRequires(j.base >= 1)
	j.base--
	below := j.stack[j.base]
	vRequires(below >= int(_CONTEXT_IN_TOPLEVEL) && below <= int(_CONTEXT_IN_OBJECT_NEXT_VALUE) && !vcJKey(below))
	j.want += bracket
	j.hi = []int{vcJNext(below)}
}

func (j *vcJ) closeList() {
	vRequires(vcJList(j.top()))
	j.close("]")
}

func (j *vcJ) closeObject() {
	vRequires(vcJKey(j.top()))
	j.close("}")
}

// check: the operation has done all that, or reported a failure of the transport.
func (j *vcJ) check(err TProtocolException) {
	if err == nil {
		vEnsures("C09:failure-not-swallowed", !j.t.failed)
		vEnsures("C09:text-written", j.t.out == j.out+j.want)
		now := j.p.dumpContext
		vEnsures("C09:context-depth", len(now) == j.base+len(j.hi))
		for i := range j.hi {
			vEnsures("C09:context", now[j.base+i] == j.hi[i])
		}
		vcStack("C09:enclosing-contexts-kept", now, j.stack, j.base)
	} else {
		vEnsures("C09:error-only-after-failure", j.t.failed)
	}
	vEnsures("C09:no-write-after-failure", !j.t.after)
}

//vc:gen
func vGenTSimpleJSONProtocol() *TSimpleJSONProtocol {
	p := NewTSimpleJSONProtocol(vGenTransport())
	p.dumpContext = vInts("context")
	return p
}

//vc:gen
func vGenTJSONProtocol() *TJSONProtocol {
	return &TJSONProtocol{vGenTSimpleJSONProtocol()}
}

//vc:contract (*TSimpleJSONProtocol).OutputBool props=C09 nocall
func vcSJOutputBool(p *TSimpleJSONProtocol, value bool) (err TProtocolException) {
	j := vcJStart(p)
	j.boolean(value)
	err = p.OutputBool(value)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).OutputNull props=C09 nocall
func vcSJOutputNull(p *TSimpleJSONProtocol) (err TProtocolException) {
	j := vcJStart(p)
	vRequires(!vcJKey(j.top()))
	j.text("null")
	err = p.OutputNull()
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).OutputF64 props=C09 nocall
func vcSJOutputF64(p *TSimpleJSONProtocol, value float64) (err TProtocolException) {
	j := vcJStart(p)
	j.double(value)
	err = p.OutputF64(value)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).OutputI64 props=C09 nocall
func vcSJOutputI64(p *TSimpleJSONProtocol, value int64) (err TProtocolException) {
	j := vcJStart(p)
	j.number(value)
	err = p.OutputI64(value)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).OutputString props=C09 nocall
func vcSJOutputString(p *TSimpleJSONProtocol, s string) (err TProtocolException) {
	j := vcJStart(p)
	j.quoted(s)
	err = p.OutputString(s)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).OutputObjectBegin props=C09 nocall
func vcSJOutputObjectBegin(p *TSimpleJSONProtocol) (err TProtocolException) {
	j := vcJStart(p)
	j.openObject()
	err = p.OutputObjectBegin()
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).OutputObjectEnd props=C09 nocall
func vcSJOutputObjectEnd(p *TSimpleJSONProtocol) (err TProtocolException) {
	j := vcJStart(p)
	j.closeObject()
	err = p.OutputObjectEnd()
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).OutputListBegin props=C09 nocall
func vcSJOutputListBegin(p *TSimpleJSONProtocol) (err TProtocolException) {
	j := vcJStart(p)
	j.openList()
	err = p.OutputListBegin()
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).OutputListEnd props=C09 nocall
func vcSJOutputListEnd(p *TSimpleJSONProtocol) (err TProtocolException) {
	j := vcJStart(p)
	j.closeList()
	err = p.OutputListEnd()
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).OutputElemListBegin props=C09 nocall
func vcSJOutputElemListBegin(p *TSimpleJSONProtocol, elemType TType, size int) (err TProtocolException) {
	j := vcJStart(p)
	j.openList()
	j.number(int64(byte(elemType)))
	j.number(int64(size))
	err = p.OutputElemListBegin(elemType, size)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteMessageBegin props=C09 nocall
func vcSJWriteMessageBegin(p *TSimpleJSONProtocol, name string, typeId TMessageType, seqid int32) (err TProtocolException) {
	j := vcJStart(p)
	j.openList()
	j.quoted(name)
	j.number(int64(byte(typeId)))
	j.number(int64(seqid))
	err = p.WriteMessageBegin(name, typeId, seqid)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteMessageEnd props=C09 nocall
func vcSJWriteMessageEnd(p *TSimpleJSONProtocol) (err TProtocolException) {
	j := vcJStart(p)
	j.closeList()
	err = p.WriteMessageEnd()
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteStructBegin props=C09 nocall
func vcSJWriteStructBegin(p *TSimpleJSONProtocol, name string) (err TProtocolException) {
	j := vcJStart(p)
	j.openObject()
	err = p.WriteStructBegin(name)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteStructEnd props=C09 nocall
func vcSJWriteStructEnd(p *TSimpleJSONProtocol) (err TProtocolException) {
	j := vcJStart(p)
	j.closeObject()
	err = p.WriteStructEnd()
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteFieldBegin props=C09 nocall
func vcSJWriteFieldBegin(p *TSimpleJSONProtocol, name string, typeId TType, id int16) (err TProtocolException) {
	j := vcJStart(p)
	vRequires(vcJKey(j.top()))
	j.quoted(name)
	err = p.WriteFieldBegin(name, typeId, id)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteFieldEnd props=C09 nocall
func vcSJWriteFieldEnd(p *TSimpleJSONProtocol) (err TProtocolException) {
	j := vcJStart(p)
	err = p.WriteFieldEnd()
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteFieldStop props=C09 nocall
func vcSJWriteFieldStop(p *TSimpleJSONProtocol) (err TProtocolException) {
	j := vcJStart(p)
	err = p.WriteFieldStop()
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteMapBegin props=C09 nocall
func vcSJWriteMapBegin(p *TSimpleJSONProtocol, keyType TType, valueType TType, size int) (err TProtocolException) {
	j := vcJStart(p)
	j.openList()
	j.number(int64(byte(keyType)))
	j.number(int64(byte(valueType)))
	j.number(int64(int32(size)))
	err = p.WriteMapBegin(keyType, valueType, size)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteMapEnd props=C09 nocall
func vcSJWriteMapEnd(p *TSimpleJSONProtocol) (err TProtocolException) {
	j := vcJStart(p)
	j.closeList()
	err = p.WriteMapEnd()
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteListBegin props=C09 nocall
func vcSJWriteListBegin(p *TSimpleJSONProtocol, elemType TType, size int) (err TProtocolException) {
	j := vcJStart(p)
	j.openList()
	j.number(int64(byte(elemType)))
	j.number(int64(size))
	err = p.WriteListBegin(elemType, size)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteListEnd props=C09 nocall
func vcSJWriteListEnd(p *TSimpleJSONProtocol) (err TProtocolException) {
	j := vcJStart(p)
	j.closeList()
	err = p.WriteListEnd()
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteSetBegin props=C09 nocall
func vcSJWriteSetBegin(p *TSimpleJSONProtocol, elemType TType, size int) (err TProtocolException) {
	j := vcJStart(p)
	j.openList()
	j.number(int64(byte(elemType)))
	j.number(int64(size))
	err = p.WriteSetBegin(elemType, size)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteSetEnd props=C09 nocall
func vcSJWriteSetEnd(p *TSimpleJSONProtocol) (err TProtocolException) {
	j := vcJStart(p)
	j.closeList()
	err = p.WriteSetEnd()
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteBool props=C09 nocall
func vcSJWriteBool(p *TSimpleJSONProtocol, b bool) (err TProtocolException) {
	j := vcJStart(p)
	j.boolean(b)
	err = p.WriteBool(b)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteByte props=C09 nocall
func vcSJWriteByte(p *TSimpleJSONProtocol, b byte) (err TProtocolException) {
	j := vcJStart(p)
	j.number(int64(b))
	err = p.WriteByte(b)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteI16 props=C09 nocall
func vcSJWriteI16(p *TSimpleJSONProtocol, v int16) (err TProtocolException) {
	j := vcJStart(p)
	j.number(int64(v))
	err = p.WriteI16(v)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteI32 props=C09 nocall
func vcSJWriteI32(p *TSimpleJSONProtocol, v int32) (err TProtocolException) {
	j := vcJStart(p)
	j.number(int64(v))
	err = p.WriteI32(v)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteI64 props=C09 nocall
func vcSJWriteI64(p *TSimpleJSONProtocol, v int64) (err TProtocolException) {
	j := vcJStart(p)
	j.number(v)
	err = p.WriteI64(v)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteDouble props=C09 nocall
func vcSJWriteDouble(p *TSimpleJSONProtocol, v float64) (err TProtocolException) {
	j := vcJStart(p)
	j.double(v)
	err = p.WriteDouble(v)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteString props=C09 nocall
func vcSJWriteString(p *TSimpleJSONProtocol, v string) (err TProtocolException) {
	j := vcJStart(p)
	j.quoted(v)
	err = p.WriteString(v)
	j.check(err)
	return
}

//vc:contract (*TSimpleJSONProtocol).WriteBinary props=C09 nocall
func vcSJWriteBinary(p *TSimpleJSONProtocol, v []byte) (err TProtocolException) {
	j := vcJStart(p)
	j.binary(v)
	err = p.WriteBinary(v)
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteMessageBegin props=C09 nocall
func vcFJWriteMessageBegin(p *TJSONProtocol, name string, typeId TMessageType, seqid int32) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.openList()
	j.number(1)
	j.quoted(name)
	j.number(int64(byte(typeId)))
	j.number(int64(seqid))
	err = p.WriteMessageBegin(name, typeId, seqid)
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteMessageEnd props=C09 nocall
func vcFJWriteMessageEnd(p *TJSONProtocol) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.closeList()
	err = p.WriteMessageEnd()
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteStructBegin props=C09 nocall
func vcFJWriteStructBegin(p *TJSONProtocol, name string) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.openObject()
	err = p.WriteStructBegin(name)
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteStructEnd props=C09 nocall
func vcFJWriteStructEnd(p *TJSONProtocol) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.closeObject()
	err = p.WriteStructEnd()
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteFieldBegin props=C09 nocall
func vcFJWriteFieldBegin(p *TJSONProtocol, name string, typeId TType, id int16) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	vRequires(vcJKey(j.top()))
	vRequires(vcNamed(typeId))
	j.number(int64(id))
	j.openObject()
	j.quoted(vcTypeName(typeId))
	err = p.WriteFieldBegin(name, typeId, id)
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteFieldEnd props=C09 nocall
func vcFJWriteFieldEnd(p *TJSONProtocol) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.closeObject()
	err = p.WriteFieldEnd()
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteFieldStop props=C09 nocall
func vcFJWriteFieldStop(p *TJSONProtocol) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	err = p.WriteFieldStop()
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteMapBegin props=C09 nocall
func vcFJWriteMapBegin(p *TJSONProtocol, keyType TType, valueType TType, size int) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.openList()
	vRequires(vcNamed(keyType) && vcNamed(valueType))
	j.quoted(vcTypeName(keyType))
	j.quoted(vcTypeName(valueType))
	j.number(int64(size))
	err = p.WriteMapBegin(keyType, valueType, size)
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteMapEnd props=C09 nocall
func vcFJWriteMapEnd(p *TJSONProtocol) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.closeList()
	err = p.WriteMapEnd()
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteListBegin props=C09 nocall
func vcFJWriteListBegin(p *TJSONProtocol, elemType TType, size int) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.openList()
	j.number(int64(byte(elemType)))
	j.number(int64(size))
	err = p.WriteListBegin(elemType, size)
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteListEnd props=C09 nocall
func vcFJWriteListEnd(p *TJSONProtocol) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.closeList()
	err = p.WriteListEnd()
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteSetBegin props=C09 nocall
func vcFJWriteSetBegin(p *TJSONProtocol, elemType TType, size int) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.openList()
	j.number(int64(byte(elemType)))
	j.number(int64(size))
	err = p.WriteSetBegin(elemType, size)
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteSetEnd props=C09 nocall
func vcFJWriteSetEnd(p *TJSONProtocol) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.closeList()
	err = p.WriteSetEnd()
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteBool props=C09 nocall
func vcFJWriteBool(p *TJSONProtocol, b bool) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.boolean(b)
	err = p.WriteBool(b)
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteByte props=C09 nocall
func vcFJWriteByte(p *TJSONProtocol, b byte) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.number(int64(b))
	err = p.WriteByte(b)
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteI16 props=C09 nocall
func vcFJWriteI16(p *TJSONProtocol, v int16) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.number(int64(v))
	err = p.WriteI16(v)
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteI32 props=C09 nocall
func vcFJWriteI32(p *TJSONProtocol, v int32) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.number(int64(v))
	err = p.WriteI32(v)
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteI64 props=C09 nocall
func vcFJWriteI64(p *TJSONProtocol, v int64) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.number(v)
	err = p.WriteI64(v)
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteDouble props=C09 nocall
func vcFJWriteDouble(p *TJSONProtocol, v float64) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.double(v)
	err = p.WriteDouble(v)
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteString props=C09 nocall
func vcFJWriteString(p *TJSONProtocol, v string) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.quoted(v)
	err = p.WriteString(v)
	j.check(err)
	return
}

//vc:contract (*TJSONProtocol).WriteBinary props=C09 nocall
func vcFJWriteBinary(p *TJSONProtocol, v []byte) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.binary(v)
	err = p.WriteBinary(v)
	j.check(err)
	return
}

// ---------------------------------------------------------------- C10: JSON type names

// vcOnWire: t is a type that can appear on the wire. Binary travels as string.
//
//vc:opaque
func vcOnWire(t TType) bool {
	switch t {
	case STOP, VOID, BOOL, BYTE, DOUBLE, I16, I32, I64, STRING, STRUCT, MAP, SET, LIST, GENERIC, BINARY:
		return true
	}
	return false
}

// vcNamed: t is such a type, or one that travels as another.
//
//vc:opaque
func vcNamed(t TType) bool {
	vReveal(vcOnWire, t)
	return vcOnWire(t) || t == ENUM || t == UTF16
}

// vcTypeName: the name that the JSON protocol gives to t.
//
//vc:opaque
func vcTypeName(t TType) string { return new(TJSONProtocol).TypeIdToString(t) }

func vcNamedType(s string) TType { return new(TJSONProtocol).StringToTypeId(s) }

// vcWireType: the type as which t travels.
func vcWireType(t TType) TType {
	if t == BINARY {
		return STRING
	}
	return t
}

//vc:contract (*TJSONProtocol).TypeIdToString props=C10,C09
func vcTypeIdToString(p *TJSONProtocol, t TType) (s string) {
	s = p.TypeIdToString(t)
	if !vCalling() {
		vReveal(vcTypeName, t)
		vReveal(vcOnWire, t)
		vReveal(vcNamed, t)
	}
	vEnsures("C09,C10:names-are-fixed", s == vcTypeName(t))
	s = vcTypeName(t)
	vEnsures("C09,C10:just-the-wire-types-have-names", vcNamed(t) == (s != ""))
	vEnsures("C09,C10:names-are-short", len(s) <= 3)
	vAssume(vcPlain(s)) // see vcNamesPlain
	return
}

//vc:lemma props=C09,C10
func vcNamesPlain(t TType) {
	vReveal(vcTypeName, t)
	s := vcTypeName(t)
	for i := 0; i < len(s); i++ {
		vEnsures("C09,C10:names-are-plain", s[i] >= '0' && s[i] <= '9' || s[i] >= 'a' && s[i] <= 'z')
	}
}

//vc:lemma props=C10
func vcNameGivesTypeBack(t TType) {
	vReveal(vcOnWire, t)
	vRequires(vcOnWire(t))
	vReveal(vcTypeName, t)
	vEnsures("C10:name-gives-the-type-back", vcNamedType(vcTypeName(t)) == vcWireType(t))
}

//vc:contract (*TJSONProtocol).StringToTypeId props=C10 nocall
func vcStringToTypeId(p *TJSONProtocol, s string) (t TType) {
	t = p.StringToTypeId(s)
	if t == STOP {
		return // not a name, or that of the stop marker
	}
	vReveal(vcTypeName, t)
	vEnsures("C10:only-known-names", s == vcTypeName(t) || t == ENUM || t == UTF16)
	return
}

//vc:lemma props=C10
func vcTypeNamesDiffer(a TType, b TType) {
	vReveal(vcOnWire, a)
	vReveal(vcOnWire, b)
	vRequires(vcOnWire(a) && vcOnWire(b) && vcWireType(a) != vcWireType(b))
	vReveal(vcTypeName, a)
	vReveal(vcTypeName, b)
	vEnsures("C10:no-name-is-shared", vcTypeName(a) != vcTypeName(b))
}

// Writing: the name that stands for the type is written; a type without a name is refused.

//vc:contract (*TJSONProtocol).WriteFieldBegin props=C10 nocall
func vcFieldTypeWritten(p *TJSONProtocol, name string, typeId TType, id int16) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	vRequires(vcJKey(j.top()))
	err = p.WriteFieldBegin(name, typeId, id)
	if !vcNamed(typeId) {
		vEnsures("C10:unknown-type-refused", err != nil)
		return
	}
	j.number(int64(id))
	j.openObject()
	j.quoted(vcTypeName(typeId))
	if err == nil {
		vEnsures("C10:type-name-written", j.t.out == j.out+j.want)
	} else {
		vEnsures("C10:known-type-accepted", j.t.failed)
	}
	return
}

//vc:contract (*TJSONProtocol).WriteMapBegin props=C10 nocall
func vcMapTypesWritten(p *TJSONProtocol, keyType TType, valueType TType, size int) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	vRequires(!vcJKey(j.top()))
	err = p.WriteMapBegin(keyType, valueType, size)
	if !vcNamed(keyType) || !vcNamed(valueType) {
		vEnsures("C10:unknown-type-refused", err != nil)
		return
	}
	j.openList()
	j.quoted(vcTypeName(keyType))
	j.quoted(vcTypeName(valueType))
	j.number(int64(size))
	if err == nil {
		vEnsures("C10:type-names-written", j.t.out == j.out+j.want)
	} else {
		vEnsures("C10:known-type-accepted", j.t.failed)
	}
	return
}

// Element types are written as numbers; as such they come back unchanged.

//vc:contract (*TJSONProtocol).WriteListBegin props=C10 nocall
func vcElemTypeWritten(p *TJSONProtocol, elemType TType, size int) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.openList()
	j.number(int64(byte(elemType)))
	j.number(int64(size))
	err = p.WriteListBegin(elemType, size)
	vEnsures("C10:element-type-written", err != nil || j.t.out == j.out+j.want)
	return
}

//vc:contract (*TJSONProtocol).WriteSetBegin props=C10 nocall
func vcSetElemTypeWritten(p *TJSONProtocol, elemType TType, size int) (err TProtocolException) {
	j := vcJStart(p.TSimpleJSONProtocol)
	j.openList()
	j.number(int64(byte(elemType)))
	j.number(int64(size))
	err = p.WriteSetBegin(elemType, size)
	vEnsures("C10:element-type-written", err != nil || j.t.out == j.out+j.want)
	return
}

// Reading: what the parsing functions deliver is arbitrary; texts and numbers
// are noted in the order in which they are read.

var (
	vcTexts   []string
	vcNumbers []int64
)

//vc:model (*thrift.TJSONProtocol).ReadString (*thrift.TSimpleJSONProtocol).ReadString
func vcModelJReadString(p *TJSONProtocol) (string, TProtocolException) {
	if vBool("readfails") {
		return vString("partial"), vcAnyPE()
	}
	s := vString("text")
	vcTexts = append(vcTexts, s)
	return s, nil
}

//vc:model (*thrift.TSimpleJSONProtocol).ParseI64
func vcModelJParseI64(p *TSimpleJSONProtocol) (int64, bool, TProtocolException) {
	if vBool("readfails") {
		return vInt64("partial"), false, vcAnyPE()
	}
	v := vInt64("number")
	vcNumbers = append(vcNumbers, v)
	return v, false, nil
}

//vc:model (*thrift.TSimpleJSONProtocol).ParseObjectStart (*thrift.TSimpleJSONProtocol).ParseListBegin
func vcModelJParseBegin(p *TSimpleJSONProtocol) (bool, TProtocolException) {
	if vBool("readfails") {
		return false, vcAnyPE()
	}
	return vBool("isnull"), nil
}

//vc:model (*bufio.Reader).Buffered
func vcModelBuffered(b *bufio.Reader) int {
	n := vInt("buffered")
	vAssume(n >= 0)
	return n
}

//vc:model (*bufio.Reader).Peek
func vcModelPeek(b *bufio.Reader, n int) ([]byte, error) {
	p := vBytes("peeked")
	vAssume(len(p) <= n)
	if len(p) < n {
		return p, vcAnyErr()
	}
	return p, nil
}

func vcJReadStart() {
	vReveal(vcTypeName, TType(STOP))
	vcTexts, vcNumbers = nil, nil
}

//vc:contract (*TJSONProtocol).ReadFieldBegin props=C10 nocall nonative
func vcFieldTypeRead(p *TJSONProtocol) (name string, t TType, id int16, err TProtocolException) {
	vcJReadStart()
	name, t, id, err = p.ReadFieldBegin()
	if err != nil {
		if len(vcTexts) == 1 {
			s := vcTexts[0]
			vReveal(vcTypeName, vcNamedType(s))
			vEnsures("C10:known-name-accepted", s != vcTypeName(vcNamedType(s)))
		}
		return
	}
	if len(vcTexts) == 0 {
		vEnsures("C10:no-type-without-a-name", t == STOP)
		return
	}
	s := vcTexts[0]
	vEnsures("C10:type-of-the-name", t == vcNamedType(s))
	vEnsures("C10:unknown-name-refused", t != STOP || s == vcTypeName(STOP))
	vEnsures("C10:field-id", len(vcNumbers) == 1 && id == int16(vcNumbers[0]))
	return
}

//vc:contract (*TJSONProtocol).ReadMapBegin props=C10 nocall nonative
func vcMapTypesRead(p *TJSONProtocol) (k TType, v TType, size int, err TProtocolException) {
	vcJReadStart()
	k, v, size, err = p.ReadMapBegin()
	if err != nil {
		return
	}
	if len(vcTexts) == 0 {
		return // null instead of a map
	}
	vEnsures("C10:two-names", len(vcTexts) == 2 && len(vcNumbers) == 1)
	a, b := vcTexts[0], vcTexts[1]
	vEnsures("C10:type-of-the-name", k == vcNamedType(a) && v == vcNamedType(b))
	vEnsures("C10:unknown-name-refused", (k != STOP || a == vcTypeName(STOP)) && (v != STOP || b == vcTypeName(STOP)))
	vEnsures("C10:size", size == int(vcNumbers[0]))
	return
}

//vc:contract (*TJSONProtocol).ReadListBegin props=C10 nocall nonative
func vcElemTypeRead(p *TJSONProtocol) (t TType, size int, err TProtocolException) {
	vcJReadStart()
	t, size, err = p.ReadListBegin()
	if err == nil && len(vcNumbers) > 0 {
		vEnsures("C10:element-type", len(vcNumbers) == 2 && t == TType(byte(vcNumbers[0])) && size == int(vcNumbers[1]))
	}
	return
}

//vc:contract (*TJSONProtocol).ReadSetBegin props=C10 nocall nonative
func vcSetElemTypeRead(p *TJSONProtocol) (t TType, size int, err TProtocolException) {
	vcJReadStart()
	t, size, err = p.ReadSetBegin()
	if err == nil && len(vcNumbers) > 0 {
		vEnsures("C10:element-type", len(vcNumbers) == 2 && t == TType(byte(vcNumbers[0])) && size == int(vcNumbers[1]))
	}
	return
}

//vc:contract NewTSimpleJSONProtocol props=C09 nocall
func vcNewTSimpleJSONProtocol(t TTransport) (p *TSimpleJSONProtocol) {
	w := vcTrans(t)
	out := w.out
	p = NewTSimpleJSONProtocol(t)
	vcJFresh(p, w, out)
	return
}

//vc:contract NewTJSONProtocol props=C09 nocall
func vcNewTJSONProtocol(t TTransport) (p *TJSONProtocol) {
	w := vcTrans(t)
	out := w.out
	p = NewTJSONProtocol(t)
	vcJFresh(p.TSimpleJSONProtocol, w, out)
	return
}

// vcJFresh: a new protocol stands before a value that nothing has to precede.
func vcJFresh(p *TSimpleJSONProtocol, w *vcTransport, out string) {
	n := len(p.dumpContext)
	vEnsures("C09:starts-outside-all-brackets", n >= 1 && p.dumpContext[n-1] == int(_CONTEXT_IN_TOPLEVEL))
	vEnsures("C09:nothing-written-yet", w.out == out && p.Transport() == TTransport(w))
}
