package thrift

import "math"

// ---- the Thrift compact encoding, written down independently of the library

func vcZig32(v int32) uint64 {
	if v < 0 {
		return uint64(uint32(-(v+1)))*2 + 1&0xffffffff
	}
	return uint64(uint32(v)) * 2 & 0xffffffff
}
func vcZig64(v int64) uint64 {
	if v < 0 {
		return uint64(-(v+1))*2 + 1
	}
	return uint64(v) * 2
}
func vcUnzig32(u uint32) int32 {
	if u&1 == 1 {
		return -int32(u>>1) - 1
	}
	return int32(u >> 1)
}
func vcUnzig64(u uint64) int64 {
	if u&1 == 1 {
		return -int64(u>>1) - 1
	}
	return int64(u >> 1)
}

// vcVarint: base-128 digits, least significant first, the top bit marks continuation
//
//vc:opaque
func vcVarint(u uint64) string {
	s := ""
	for i := 0; i < 10; i++ {
		if u < 0x80 {
			return s + vcOneByte(byte(u))
		}
		s += vcOneByte(byte(u&0x7f | 0x80))
		u >>= 7
	}
	return s
}

// vcVarVal continues decoding a varint at s[i:], with the digits so far in acc
//
//vc:opaque
func vcVarVal(s string, i int, shift uint, acc int64) int64 {
	if i < 0 || i >= len(s) {
		return acc
	}
	acc |= int64(s[i]&0x7f) << shift
	if s[i]&0x80 == 0 {
		return acc
	}
	return vcVarVal(s, i+1, shift+7, acc)
}

// vcVarEnd is the position after the varint at s[i:]
//
//vc:opaque
func vcVarEnd(s string, i int) int {
	if i < 0 || i >= len(s) {
		return len(s) + 1
	}
	if s[i]&0x80 == 0 {
		return i + 1
	}
	return vcVarEnd(s, i+1)
}

// vcUnfold opens the definition of the varint at s[i:] for n steps.
func vcUnfold(s string, i int, n int) {
	shift, acc := uint(0), int64(0)
	for k := 0; k < n; k++ {
		vReveal(vcVarVal, s, i, shift, acc)
		vReveal(vcVarEnd, s, i)
		if i < 0 || i >= len(s) || s[i]&0x80 == 0 {
			return
		}
		acc |= int64(s[i]&0x7f) << shift
		i, shift = i+1, shift+7
	}
}

// vcCType is the compact type code of a type; 0xff: the type has none
func vcCType(t TType) byte {
	switch t {
	case 0:
		return 0
	case 2:
		return 1
	case 3:
		return 3
	case 4:
		return 7
	case 6:
		return 4
	case 8:
		return 5
	case 10:
		return 6
	case 11, 18:
		return 8
	case 12:
		return 12
	case 13:
		return 11
	case 14:
		return 10
	case 15:
		return 9
	}
	return 0xff
}

// vcTypeOfC is the type a compact type code stands for; 0xff: the code stands for no type
func vcTypeOfC(c byte) TType {
	switch c {
	case 0:
		return 0
	case 1, 2:
		return 2
	case 3:
		return 3
	case 4:
		return 6
	case 5:
		return 8
	case 6:
		return 10
	case 7:
		return 4
	case 8:
		return 11
	case 9:
		return 15
	case 10:
		return 14
	case 11:
		return 13
	case 12:
		return 12
	}
	return 0xff
}

func vcBool(b bool) byte {
	if b {
		return 1
	}
	return 2
}

// vcFieldHeader is the header of a field after a field with id last
func vcFieldHeader(last int, id int16, ctype byte) string {
	d := int(id) - last
	if d >= 1 && d <= 15 {
		return vcOneByte(byte(d)<<4 | ctype)
	}
	return vcOneByte(ctype) + vcVarint(vcZig32(int32(id)))
}

//vc:gen
func vGenTCompactProtocol() *TCompactProtocol {
	p := NewTCompactProtocol(vGenTransport())
	p.lastField = vInts("lastField")
	p.lastFieldId = int(vInt16("lastFieldId"))
	if vBool("pending") {
		p.booleanField = NewTField("", BOOL, int(vInt16("pendingId")))
	}
	p.boolValue = vBool("boolValue")
	p.boolValueIsNotNull = vBool("boolValueIsNotNull")
	return p
}

func vcCptT(p *TCompactProtocol) *vcTransport { return vcTrans(p.trans) }

// ---------------------------------------------------------------- writing

//vc:contract (*TCompactProtocol).writeVarint32 props=C04,C08
func vcCptWriteVarint32(p *TCompactProtocol, n int32) (w int, err error) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	w, err = p.writeVarint32(n)
	vReveal(vcVarint, uint64(uint32(n)))
	vcWroteE("C04", t, old, err, vcVarint(uint64(uint32(n))))
	return
}

//vc:contract (*TCompactProtocol).writeVarint64 props=C04,C08
func vcCptWriteVarint64(p *TCompactProtocol, n int64) (w int, err error) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	w, err = p.writeVarint64(n)
	vReveal(vcVarint, uint64(n))
	vcWroteE("C04", t, old, err, vcVarint(uint64(n)))
	return
}

func vcWroteE(tag string, t *vcTransport, old *vcTransport, err error, want string) {
	if err == nil {
		vSet("C08:failure-not-swallowed", &t.failed, false)
		vSet(tag+":bytes-written", &t.out, old.out+want)
	} else {
		vSet("C08:error-only-after-failure", &t.failed, true)
	}
	vSet("C08:no-write-after-failure", &t.after, false)
}

//vc:contract (*TCompactProtocol).WriteByte props=C04,C08
func vcCptWriteByte(p *TCompactProtocol, value byte) (err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteByte(value)
	vcWrote("C04", t, old, err, vcOneByte(value))
	return
}

//vc:contract (*TCompactProtocol).WriteI16 props=C04,C08
func vcCptWriteI16(p *TCompactProtocol, value int16) (err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteI16(value)
	vcWrote("C04", t, old, err, vcVarint(vcZig32(int32(value))))
	return
}

//vc:contract (*TCompactProtocol).WriteI32 props=C04,C08
func vcCptWriteI32(p *TCompactProtocol, value int32) (err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteI32(value)
	vcWrote("C04", t, old, err, vcVarint(vcZig32(value)))
	return
}

//vc:contract (*TCompactProtocol).WriteI64 props=C04,C08
func vcCptWriteI64(p *TCompactProtocol, value int64) (err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteI64(value)
	vcWrote("C04", t, old, err, vcVarint(vcZig64(value)))
	return
}

func vcLE64(v uint64) string {
	return string([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32), byte(v >> 40), byte(v >> 48), byte(v >> 56)})
}

//vc:contract (*TCompactProtocol).WriteDouble props=C04,C08
func vcCptWriteDouble(p *TCompactProtocol, value float64) (err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteDouble(value)
	vcWrote("C04", t, old, err, vcLE64(math.Float64bits(value)))
	return
}

//vc:contract (*TCompactProtocol).WriteBinary props=C04,C08
func vcCptWriteBinary(p *TCompactProtocol, value []byte) (err TProtocolException) {
	t := vcCptT(p)
	vRequires(len(value) <= vcMaxI32)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteBinary(value)
	vcWrote("C04", t, old, err, vcVarint(uint64(len(value)))+string(value))
	return
}

//vc:contract (*TCompactProtocol).WriteString props=C04,C08
func vcCptWriteString(p *TCompactProtocol, value string) (err TProtocolException) {
	t := vcCptT(p)
	vRequires(len(value) <= vcMaxI32)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteString(value)
	vcWrote("C04", t, old, err, vcVarint(uint64(len(value)))+value)
	return
}

//vc:contract (*TCompactProtocol).WriteMapBegin props=C04,C08
func vcCptWriteMapBegin(p *TCompactProtocol, k, v TType, size int) (err TProtocolException) {
	t := vcCptT(p)
	vRequires(size >= 0 && size <= vcMaxI32)
	vRequires(vcCType(k) != 0xff && vcCType(v) != 0xff)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteMapBegin(k, v, size)
	want := "\x00"
	if size != 0 {
		want = vcVarint(uint64(size)) + vcOneByte(vcCType(k)<<4|vcCType(v))
	}
	vcWrote("C04", t, old, err, want)
	return
}

func vcCptElems(e TType, size int) string {
	if size <= 14 {
		return vcOneByte(byte(size)<<4 | vcCType(e))
	}
	return vcOneByte(0xf0|vcCType(e)) + vcVarint(uint64(size))
}

//vc:contract (*TCompactProtocol).WriteListBegin props=C04,C08
func vcCptWriteListBegin(p *TCompactProtocol, e TType, size int) (err TProtocolException) {
	t := vcCptT(p)
	vRequires(size >= 0 && size <= vcMaxI32 && vcCType(e) != 0xff)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteListBegin(e, size)
	vcWrote("C04", t, old, err, vcCptElems(e, size))
	return
}

//vc:contract (*TCompactProtocol).WriteSetBegin props=C04,C08
func vcCptWriteSetBegin(p *TCompactProtocol, e TType, size int) (err TProtocolException) {
	t := vcCptT(p)
	vRequires(size >= 0 && size <= vcMaxI32 && vcCType(e) != 0xff)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteSetBegin(e, size)
	vcWrote("C04", t, old, err, vcCptElems(e, size))
	return
}

//vc:contract (*TCompactProtocol).WriteMessageBegin props=C04,C08
func vcCptWriteMessageBegin(p *TCompactProtocol, name string, typeId TMessageType, seqId int32) (err TProtocolException) {
	t := vcCptT(p)
	vRequires(len(name) <= vcMaxI32 && typeId >= 0 && typeId <= 7)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteMessageBegin(name, typeId, seqId)
	vcWrote("C04", t, old, err, vcOneByte(0x82)+vcOneByte(1|byte(typeId)<<5)+vcVarint(uint64(uint32(seqId)))+vcVarint(uint64(len(name)))+name)
	return
}

//vc:lemma props=C04
func vcCptWriteNothing(p *TCompactProtocol) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vEnsures("C04:no-error", p.WriteMessageEnd() == nil && p.WriteFieldEnd() == nil && p.WriteMapEnd() == nil && p.WriteListEnd() == nil && p.WriteSetEnd() == nil)
	vEnsures("C04:nothing-written", t.out == old.out && t.flush == old.flush && !t.failed)
}

//vc:contract (*TCompactProtocol).Flush props=C08 nocall
func vcCptFlush(p *TCompactProtocol) (err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	err = p.Flush()
	vEnsures("C08:flushed-once", t.flush == old.flush+1 && !t.after)
	vEnsures("C08:failure-not-swallowed", (err == nil) == !t.failed)
	return
}

// ---------------------------------------------------------------- fields

// vcSameStack: the suspended ids are those of old, with extra on top if more
func vcStack(tag string, now, old []int, n int) {
	vEnsures(tag, len(now) >= n && len(old) >= n && vForall(0, n, func(i int) bool { return now[i] == old[i] }))
}

// vcBalanced: suspended ids are ids of fields
//
//vc:contract (*TCompactProtocol).WriteStructBegin props=C06 nocall
func vcCptWriteStructBegin(p *TCompactProtocol, name string) (err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	last := p.lastFieldId
	stack := append([]int{}, p.lastField...)
	err = p.WriteStructBegin(name)
	vEnsures("C06:no-error", err == nil && !t.failed && t.out == old.out)
	vEnsures("C06:id-starts-at-zero", p.lastFieldId == 0)
	vEnsures("C06:id-suspended", len(p.lastField) == len(stack)+1 && p.lastField[len(stack)] == last)
	vcStack("C06:outer-ids-kept", p.lastField, stack, len(stack))
	return
}

//vc:contract (*TCompactProtocol).WriteStructEnd props=C06 nocall
func vcCptWriteStructEnd(p *TCompactProtocol) (err TProtocolException) {
	t := vcCptT(p)
	vRequires(len(p.lastField) > 0)
	old := vcCopyT(t)
	stack := append([]int{}, p.lastField...)
	err = p.WriteStructEnd()
	vEnsures("C06:no-error", err == nil && !t.failed && t.out == old.out)
	vEnsures("C06:id-restored", p.lastFieldId == stack[len(stack)-1] && len(p.lastField) == len(stack)-1)
	vcStack("C06:outer-ids-kept", p.lastField, stack, len(stack)-1)
	return
}

//vc:contract (*TCompactProtocol).ReadStructBegin props=C06 nocall
func vcCptReadStructBegin(p *TCompactProtocol) (name string, err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	last := p.lastFieldId
	stack := append([]int{}, p.lastField...)
	name, err = p.ReadStructBegin()
	vEnsures("C06:no-error", err == nil && !t.failed && t.pos == old.pos)
	vEnsures("C06:id-starts-at-zero", p.lastFieldId == 0)
	vEnsures("C06:id-suspended", len(p.lastField) == len(stack)+1 && p.lastField[len(stack)] == last)
	vcStack("C06:outer-ids-kept", p.lastField, stack, len(stack))
	return
}

//vc:contract (*TCompactProtocol).ReadStructEnd props=C06 nocall
func vcCptReadStructEnd(p *TCompactProtocol) (err TProtocolException) {
	t := vcCptT(p)
	vRequires(len(p.lastField) > 0)
	old := vcCopyT(t)
	stack := append([]int{}, p.lastField...)
	err = p.ReadStructEnd()
	vEnsures("C06:no-error", err == nil && !t.failed && t.pos == old.pos)
	vEnsures("C06:id-restored", p.lastFieldId == stack[len(stack)-1] && len(p.lastField) == len(stack)-1)
	vcStack("C06:outer-ids-kept", p.lastField, stack, len(stack)-1)
	return
}

//vc:contract (*TCompactProtocol).WriteFieldBegin props=C06,C08 nocall
func vcCptWriteFieldBegin(p *TCompactProtocol, name string, typeId TType, id int16) (err TProtocolException) {
	t := vcCptT(p)
	vRequires(p.booleanField == nil && vcCType(typeId) != 0xff && typeId != 0)
	old := vcCopyT(t)
	last := p.lastFieldId
	n := len(p.lastField)
	err = p.WriteFieldBegin(name, typeId, id)
	if typeId == 2 {
		vEnsures("C06:bool-header-deferred", err == nil && t.out == old.out && !t.failed && p.lastFieldId == last)
		vEnsures("C06:bool-field-kept", p.booleanField != nil && p.booleanField.Id() == int(id) && p.booleanField.TypeId() == 2)
	} else {
		vcWrote("C06", t, old, err, vcFieldHeader(last, id, vcCType(typeId)))
		vEnsures("C06:no-bool-pending", p.booleanField == nil)
		if err == nil {
			vEnsures("C06:last-id", p.lastFieldId == int(id))
		}
	}
	vEnsures("C06:outer-ids-kept", len(p.lastField) == n)
	return
}

//vc:contract (*TCompactProtocol).WriteBool props=C06,C08 nocall
func vcCptWriteBool(p *TCompactProtocol, value bool) (err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	last := p.lastFieldId
	want := vcOneByte(vcBool(value))
	after := last
	if p.booleanField != nil {
		id := int16(p.booleanField.Id())
		want = vcFieldHeader(last, id, vcBool(value))
		after = int(id)
	}
	err = p.WriteBool(value)
	vcWrote("C06", t, old, err, want)
	if err == nil {
		vEnsures("C06:last-id", p.lastFieldId == after)
		vEnsures("C06:no-bool-pending", p.booleanField == nil)
	}
	return
}

//vc:contract (*TCompactProtocol).WriteFieldStop props=C06,C08 nocall
func vcCptWriteFieldStop(p *TCompactProtocol) (err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	err = p.WriteFieldStop()
	vcWrote("C06", t, old, err, "\x00")
	return
}

// ---------------------------------------------------------------- reading

var vcGhostVarPos int

//vc:contract (*TCompactProtocol).readVarint64 props=C05,C08,C28 inv
func vcCptReadVarint64(p *TCompactProtocol) (value int64, err error) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	vcGhostVarPos = t.pos
	value, err = p.readVarint64()
	if vBounded() {
		vcUnfold(old.in, old.pos, 10)
	}
	vcReadVar(t, old, err)
	if err == nil {
		vSet("C05:value", &value, vcVarVal(old.in, old.pos, 0, 0))
	}
	return
}

// vcCptReadVarintLoop is the invariant of the decoding loop.
//
//vc:loop vcCptReadVarint64
func vcCptReadVarintLoop(p *TCompactProtocol, shift uint, result int64) {
	t := p.trans.(*vcTransport)
	vReveal(vcVarVal, t.in, t.pos, shift, result)
	vReveal(vcVarEnd, t.in, t.pos)
	vInv(t.pos >= vcGhostVarPos && t.pos <= len(t.in))
	vInv(!t.failed)
	vInv(vcVarVal(t.in, t.pos, shift, result) == vcVarVal(t.in, vcGhostVarPos, 0, 0))
	vInv(vcVarEnd(t.in, t.pos) == vcVarEnd(t.in, vcGhostVarPos))
}

// The same for loops that count bytes, or keep whether one more follows.
//
//vc:loop vcCptReadVarint64
func vcCptReadVarintMoreLoop(p *TCompactProtocol, count uint, more bool, result int64) {
	t := p.trans.(*vcTransport)
	vReveal(vcVarVal, t.in, t.pos, 7*count, result)
	vReveal(vcVarEnd, t.in, t.pos)
	if more {
		vInv(vcVarVal(t.in, t.pos, 7*count, result) == vcVarVal(t.in, vcGhostVarPos, 0, 0))
		vInv(vcVarEnd(t.in, t.pos) == vcVarEnd(t.in, vcGhostVarPos))
	} else {
		vInv(result == vcVarVal(t.in, vcGhostVarPos, 0, 0))
		vInv(t.pos == vcVarEnd(t.in, vcGhostVarPos) && t.pos > vcGhostVarPos)
	}
}

func vcReadVar(t *vcTransport, old *vcTransport, err error) {
	if err == nil {
		end := vcVarEnd(old.in, old.pos)
		vSet("C08:failure-not-swallowed", &t.failed, false)
		vSet("C05:bytes-consumed", &t.pos, end)
		vEnsures("C05:input-long-enough", end > old.pos && end <= len(old.in))
	} else {
		vSet("C08:error-only-after-failure", &t.failed, true)
		vAssert("C08:position-in-range", t.pos >= old.pos && t.pos <= len(t.in))
	}
}

//vc:contract (*TCompactProtocol).readVarint32 props=C05,C08,C28
func vcCptReadVarint32(p *TCompactProtocol) (value int32, err error) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	value, err = p.readVarint32()
	if vBounded() {
		vcUnfold(old.in, old.pos, 10)
	}
	vcReadVar(t, old, err)
	if err == nil {
		vSet("C05:value", &value, int32(vcVarVal(old.in, old.pos, 0, 0)))
	}
	return
}

//vc:contract (*TCompactProtocol).ReadByte props=C05,C08,C28
func vcCptReadByte(p *TCompactProtocol) (value byte, err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	value, err = p.ReadByte()
	if err == nil {
		vEnsures("C05:input-long-enough", old.pos+1 <= len(old.in))
		vSet("C05:value", &value, old.in[old.pos])
	}
	vcReadN("C05", t, old, err, 1)
	return
}

//vc:contract (*TCompactProtocol).ReadI16 props=C05,C08,C28
func vcCptReadI16(p *TCompactProtocol) (value int16, err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	value, err = p.ReadI16()
	if vBounded() {
		vcUnfold(old.in, old.pos, 10)
	}
	vcReadVar(t, old, err)
	if err == nil {
		vSet("C05:value", &value, int16(vcUnzig32(uint32(vcVarVal(old.in, old.pos, 0, 0)))))
	}
	return
}

//vc:contract (*TCompactProtocol).ReadI32 props=C05,C08,C28
func vcCptReadI32(p *TCompactProtocol) (value int32, err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	value, err = p.ReadI32()
	if vBounded() {
		vcUnfold(old.in, old.pos, 10)
	}
	vcReadVar(t, old, err)
	if err == nil {
		vSet("C05:value", &value, vcUnzig32(uint32(vcVarVal(old.in, old.pos, 0, 0))))
	}
	return
}

//vc:contract (*TCompactProtocol).ReadI64 props=C05,C08,C28
func vcCptReadI64(p *TCompactProtocol) (value int64, err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	value, err = p.ReadI64()
	if vBounded() {
		vcUnfold(old.in, old.pos, 10)
	}
	vcReadVar(t, old, err)
	if err == nil {
		vSet("C05:value", &value, vcUnzig64(uint64(vcVarVal(old.in, old.pos, 0, 0))))
	}
	return
}

//vc:contract (*TCompactProtocol).ReadDouble props=C05,C08,C28
func vcCptReadDouble(p *TCompactProtocol) (value float64, err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	value, err = p.ReadDouble()
	if err == nil {
		vEnsures("C05:input-long-enough", old.pos+8 <= len(old.in))
		i, u := old.pos, uint64(0)
		for k := 7; k >= 0; k-- {
			u = u<<8 | uint64(old.in[i+k])
		}
		vSet("C05:value", &value, math.Float64frombits(u))
	}
	vcReadN("C05", t, old, err, 8)
	return
}

// vcReadLenV states the outcome of reading a value with a varint length in front.
func vcReadLenV(t *vcTransport, old *vcTransport, err TProtocolException, value *string) {
	if vBounded() {
		vcUnfold(old.in, old.pos, 10)
	}
	end := vcVarEnd(old.in, old.pos)
	n := int(int32(vcVarVal(old.in, old.pos, 0, 0)))
	if err == nil {
		vEnsures("C05:input-long-enough", end > old.pos && end <= len(old.in))
		vEnsures("C05,C28:length-not-negative", n >= 0 && end+n <= len(old.in))
		vSet("C05:value", value, old.in[end:end+n])
		vSet("C08:failure-not-swallowed", &t.failed, false)
		vSet("C05:bytes-consumed", &t.pos, end+n)
	} else {
		vEnsures("C08:error-only-with-reason", t.failed || end > old.pos && end <= len(old.in) && n < 0)
	}
}

//vc:contract (*TCompactProtocol).ReadString props=C05,C08,C28
func vcCptReadString(p *TCompactProtocol) (value string, err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	value, err = p.ReadString()
	vcReadLenV(t, old, err, &value)
	return
}

//vc:contract (*TCompactProtocol).ReadBinary props=C05,C08,C28
func vcCptReadBinary(p *TCompactProtocol) (value []byte, err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	value, err = p.ReadBinary()
	got := string(value)
	vcReadLenV(t, old, err, &got)
	if err == nil {
		vEnsures("C05:value", string(value) == got)
	}
	return
}

//vc:contract (*TCompactProtocol).ReadMapBegin props=C05,C08,C28
func vcCptReadMapBegin(p *TCompactProtocol) (k TType, v TType, size int, err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	k, v, size, err = p.ReadMapBegin()
	if vBounded() {
		vcUnfold(old.in, old.pos, 10)
	}
	end := vcVarEnd(old.in, old.pos)
	n := int(int32(vcVarVal(old.in, old.pos, 0, 0)))
	if err == nil {
		vEnsures("C08:failure-not-swallowed", !t.failed)
		vEnsures("C05:input-long-enough", end > old.pos && end <= len(old.in))
		vEnsures("C05:size", size == n)
		vEnsures("C28:size-not-negative", size >= 0)
		if n == 0 {
			vEnsures("C05:bytes-consumed", t.pos == end)
		} else {
			vEnsures("C05:bytes-consumed", t.pos == end+1 && end < len(old.in))
			b := old.in[end]
			vEnsures("C05:types", k == vcTypeOfC(b>>4) && v == vcTypeOfC(b&15))
			vEnsures("C05,C28:bad-type-refused", vcTypeOfC(b>>4) != 0xff && vcTypeOfC(b&15) != 0xff)
		}
	} else if !t.failed {
		vEnsures("C08:error-only-with-reason", end > old.pos && end <= len(old.in) &&
			(n < 0 || n > 0 && end < len(old.in) && (vcTypeOfC(old.in[end]>>4) == 0xff || vcTypeOfC(old.in[end]&15) == 0xff)))
	}
	return
}

func vcCptReadElems(t *vcTransport, old *vcTransport, e TType, size int, err TProtocolException) {
	if err != nil && t.failed {
		return
	}
	vEnsures("C08:failure-not-swallowed", !t.failed)
	vEnsures("C05:input-long-enough", old.pos < len(old.in))
	b := old.in[old.pos]
	n, end := int(b>>4), old.pos+1
	if n == 15 {
		if vBounded() {
			vcUnfold(old.in, old.pos+1, 10)
		}
		end = vcVarEnd(old.in, old.pos+1)
		n = int(int32(vcVarVal(old.in, old.pos+1, 0, 0)))
		vEnsures("C05:input-long-enough", end > old.pos+1 && end <= len(old.in))
	}
	if err == nil {
		vEnsures("C05:size", size == n)
		vEnsures("C28:size-not-negative", size >= 0)
		vEnsures("C05:bytes-consumed", t.pos == end)
		vEnsures("C05,C28:bad-type-refused", vcTypeOfC(b&15) != 0xff)
		vEnsures("C05:element-type", e == vcTypeOfC(b&15))
	} else {
		vEnsures("C08:error-only-with-reason", n < 0 || vcTypeOfC(b&15) == 0xff)
	}
}

//vc:contract (*TCompactProtocol).ReadListBegin props=C05,C08,C28
func vcCptReadListBegin(p *TCompactProtocol) (e TType, size int, err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	e, size, err = p.ReadListBegin()
	vcCptReadElems(t, old, e, size, err)
	return
}

//vc:contract (*TCompactProtocol).ReadSetBegin props=C05,C08,C28
func vcCptReadSetBegin(p *TCompactProtocol) (e TType, size int, err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	e, size, err = p.ReadSetBegin()
	vcCptReadElems(t, old, e, size, err)
	return
}

//vc:contract (*TCompactProtocol).ReadBool props=C06,C08,C28 nocall
func vcCptReadBool(p *TCompactProtocol) (value bool, err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	pending, pv := p.boolValueIsNotNull, p.boolValue
	value, err = p.ReadBool()
	if pending {
		vEnsures("C06:folded-value", err == nil && value == pv && t.pos == old.pos && !t.failed && !p.boolValueIsNotNull)
		return
	}
	if err == nil {
		vEnsures("C06:input-long-enough", old.pos < len(old.in))
		vEnsures("C06:value", value == (old.in[old.pos] == 1))
	}
	vcReadN("C06", t, old, err, 1)
	return
}

//vc:contract (*TCompactProtocol).ReadFieldBegin props=C06,C08,C28 nocall
func vcCptReadFieldBegin(p *TCompactProtocol) (name string, typeId TType, id int16, err TProtocolException) {
	t := vcCptT(p)
	old := vcCopyT(t)
	last, n, pending := p.lastFieldId, len(p.lastField), p.boolValueIsNotNull
	name, typeId, id, err = p.ReadFieldBegin()
	if err != nil && t.failed {
		return
	}
	vEnsures("C08:failure-not-swallowed", !t.failed)
	vEnsures("C06:input-long-enough", old.pos < len(old.in))
	b := old.in[old.pos]
	if b&15 == 0 {
		vEnsures("C06:stop", err == nil && typeId == 0 && t.pos == old.pos+1 && p.lastFieldId == last)
		return
	}
	end := old.pos + 1
	want := int16(last) + int16(b>>4)
	if b>>4 == 0 {
		if vBounded() {
			vcUnfold(old.in, old.pos+1, 10)
		}
		end = vcVarEnd(old.in, old.pos+1)
		want = int16(vcUnzig32(uint32(vcVarVal(old.in, old.pos+1, 0, 0))))
		vEnsures("C06:input-long-enough", end > old.pos+1 && end <= len(old.in))
	}
	if err != nil {
		vEnsures("C08:error-only-with-reason", vcTypeOfC(b&15) == 0xff)
		return
	}
	vEnsures("C05,C06,C28:bad-type-refused", vcTypeOfC(b&15) != 0xff)
	vEnsures("C06:type", typeId == vcTypeOfC(b&15))
	vEnsures("C06:id", id == want && p.lastFieldId == int(id))
	vEnsures("C06:bytes-consumed", t.pos == end)
	vEnsures("C06:outer-ids-kept", len(p.lastField) == n)
	if typeId == 2 {
		vEnsures("C06:bool-value", p.boolValueIsNotNull && p.boolValue == (b&15 == 1))
	} else {
		vEnsures("C06:no-bool-value", p.boolValueIsNotNull == pending)
	}
	return
}

//vc:contract (*TCompactProtocol).ReadMessageBegin props=C05,C08,C28
func vcCptReadMessageBegin(p *TCompactProtocol) (name string, typeId TMessageType, seqId int32, err TProtocolException) {
	t := vcCptT(p)
	in, pos := t.in, t.pos
	vModifies(&t.pos, &t.failed)
	name, typeId, seqId, err = p.ReadMessageBegin()
	if err != nil && t.failed {
		return
	}
	vEnsures("C08:failure-not-swallowed", !t.failed)
	vEnsures("C05:input-long-enough", pos < len(in))
	if in[pos] != 0x82 {
		vEnsures("C05:bad-protocol-id-refused", err != nil && err.TypeId() == BAD_VERSION)
		return
	}
	vEnsures("C05:input-long-enough", pos+1 < len(in))
	if in[pos+1]&0x1f != 1 {
		vEnsures("C05:bad-version-refused", err != nil && err.TypeId() == BAD_VERSION)
		return
	}
	if vBounded() {
		vcUnfold(in, pos+2, 10)
	}
	e1 := vcVarEnd(in, pos+2)
	vEnsures("C05:input-long-enough", e1 > pos+2 && e1 <= len(in))
	if vBounded() {
		vcUnfold(in, e1, 10)
	}
	e2 := vcVarEnd(in, e1)
	n := int(int32(vcVarVal(in, e1, 0, 0)))
	if err != nil {
		vEnsures("C08:error-only-with-reason", n < 0)
		return
	}
	vEnsures("C05,C28:length-not-negative", n >= 0 && e2+n <= len(in) && e2 > e1)
	vEnsures("C05:message-type", typeId == TMessageType(in[pos+1]>>5))
	vEnsures("C05:seqid", seqId == int32(vcVarVal(in, pos+2, 0, 0)))
	vEnsures("C05:name", name == in[e2:e2+n])
	vEnsures("C05:bytes-consumed", t.pos == e2+n)
	return
}

//vc:lemma props=C05
func vcCptReadNothing(p *TCompactProtocol) {
	t := vcCptT(p)
	old := vcCopyT(t)
	vEnsures("C05:no-error", p.ReadMessageEnd() == nil && p.ReadFieldEnd() == nil && p.ReadMapEnd() == nil && p.ReadListEnd() == nil && p.ReadSetEnd() == nil)
	vEnsures("C05:nothing-consumed", t.pos == old.pos && t.out == old.out && !t.failed)
}

// ---------------------------------------------------------------- writing and reading back

// decoding the encoding of u at position i gives u back
//
//vc:lemma props=C05
func vcLemVarint(pre string, u uint64, post string) {
	s := pre + vcVarint(u) + post
	vReveal(vcVarint, u)
	vcUnfold(s, len(pre), 10)
	vEnsures("C05:varint-inverse", uint64(vcVarVal(s, len(pre), 0, 0)) == u)
	vEnsures("C05:varint-length", vcVarEnd(s, len(pre)) == len(pre)+len(vcVarint(u)))
}

//vc:lemma props=C05
func vcLemZigzag(a int32, b int64) {
	vEnsures("C05:zigzag-inverse", vcUnzig32(uint32(vcZig32(a))) == a && vcUnzig64(vcZig64(b)) == b)
	vEnsures("C05:zigzag-small", vcZig32(a) <= 0xffffffff)
}

func vcCptBack(w *TCompactProtocol, tr *vcTransport, n int) *TCompactProtocol {
	tr.in, tr.pos = tr.out, n
	r := NewTCompactProtocol(tr)
	return r
}

//vc:lemma props=C05
func vcCptRoundI64(p *TCompactProtocol, v int64) {
	t := vcCptT(p)
	n := len(t.out)
	vcUseVarint(t.out, vcZig64(v), "")
	if p.WriteI64(v) != nil {
		return
	}
	r := vcCptBack(p, t, n)
	got, err := r.ReadI64()
	vEnsures("C05:round-trip", err != nil && t.failed || err == nil && got == v && t.pos == len(t.in))
}

//vc:lemma props=C05
func vcCptRoundI32(p *TCompactProtocol, v int32) {
	t := vcCptT(p)
	n := len(t.out)
	vcUseVarint(t.out, vcZig32(v), "")
	if p.WriteI32(v) != nil {
		return
	}
	r := vcCptBack(p, t, n)
	got, err := r.ReadI32()
	vEnsures("C05:round-trip", err != nil && t.failed || err == nil && got == v && t.pos == len(t.in))
}

//vc:lemma props=C05
func vcCptRoundI16(p *TCompactProtocol, v int16) {
	t := vcCptT(p)
	n := len(t.out)
	vcUseVarint(t.out, vcZig32(int32(v)), "")
	if p.WriteI16(v) != nil {
		return
	}
	r := vcCptBack(p, t, n)
	got, err := r.ReadI16()
	vEnsures("C05:round-trip", err != nil && t.failed || err == nil && got == v && t.pos == len(t.in))
}

//vc:lemma props=C05
func vcCptRoundString(p *TCompactProtocol, v string) {
	t := vcCptT(p)
	vRequires(len(v) <= vcMaxI32)
	n := len(t.out)
	vcUseVarint(t.out, uint64(len(v)), v)
	if p.WriteString(v) != nil {
		return
	}
	r := vcCptBack(p, t, n)
	got, err := r.ReadString()
	vEnsures("C05:round-trip", err != nil && t.failed || err == nil && got == v && t.pos == len(t.in))
}

//vc:lemma props=C05
func vcCptRoundDouble(p *TCompactProtocol, v float64) {
	t := vcCptT(p)
	n := len(t.out)
	if p.WriteDouble(v) != nil {
		return
	}
	r := vcCptBack(p, t, n)
	got, err := r.ReadDouble()
	vEnsures("C05:round-trip", err != nil && t.failed || err == nil && math.Float64bits(got) == math.Float64bits(v) && t.pos == len(t.in))
}

//vc:lemma props=C05
func vcCptRoundMessage(p *TCompactProtocol, name string, typeId TMessageType, seqId int32) {
	t := vcCptT(p)
	vRequires(len(name) <= vcMaxI32 && typeId >= 0 && typeId <= 7)
	n := len(t.out)
	hdr := t.out + vcOneByte(0x82) + vcOneByte(1|byte(typeId)<<5)
	tail := vcVarint(uint64(len(name))) + name
	vcUseVarint(hdr, uint64(uint32(seqId)), tail)
	vcUseVarint(hdr+vcVarint(uint64(uint32(seqId))), uint64(len(name)), name)
	if p.WriteMessageBegin(name, typeId, seqId) != nil {
		return
	}
	r := vcCptBack(p, t, n)
	a, b, c, err := r.ReadMessageBegin()
	vEnsures("C05:round-trip", err != nil && t.failed || err == nil && a == name && b == typeId && c == seqId && t.pos == len(t.in))
}

//vc:lemma props=C05
func vcCptRoundMap(p *TCompactProtocol, k, v TType, size int) {
	t := vcCptT(p)
	vRequires(size > 0 && size <= vcMaxI32 && k != 0 && v != 0 && vcCType(k) != 0xff && vcCType(v) != 0xff)
	n := len(t.out)
	vcUseVarint(t.out, uint64(size), vcOneByte(vcCType(k)<<4|vcCType(v)))
	if p.WriteMapBegin(k, v, size) != nil {
		return
	}
	r := vcCptBack(p, t, n)
	a, b, c, err := r.ReadMapBegin()
	if err != nil {
		vEnsures("C05:round-trip", t.failed)
		return
	}
	vEnsures("C05:round-trip", c == size && t.pos == len(t.in))
	vEnsures("C05:round-trip-types", byte(a) == k.ThriftTypeId() && byte(b) == v.ThriftTypeId())
}

//vc:lemma props=C05
func vcCptRoundEmptyMap(p *TCompactProtocol, k, v TType) {
	t := vcCptT(p)
	vRequires(vcCType(k) != 0xff && vcCType(v) != 0xff)
	n := len(t.out)
	if p.WriteMapBegin(k, v, 0) != nil {
		return
	}
	r := vcCptBack(p, t, n)
	vcUnfold(t.in, n, 1)
	_, _, c, err := r.ReadMapBegin()
	vEnsures("C05:round-trip", err != nil && t.failed || err == nil && c == 0 && t.pos == len(t.in))
}

//vc:lemma props=C05
func vcCptRoundList(p *TCompactProtocol, e TType, size int) {
	t := vcCptT(p)
	vRequires(size >= 0 && size <= vcMaxI32 && e != 0 && vcCType(e) != 0xff)
	n := len(t.out)
	vcUseVarint(t.out+vcOneByte(0xf0|vcCType(e)), uint64(size), "")
	if p.WriteListBegin(e, size) != nil {
		return
	}
	r := vcCptBack(p, t, n)
	a, c, err := r.ReadListBegin()
	vEnsures("C05:round-trip", err != nil && t.failed || err == nil && byte(a) == e.ThriftTypeId() && c == size && t.pos == len(t.in))
}

// vcUseVarint makes the inverse lemma available for a varint inside a text.
func vcUseVarint(pre string, u uint64, post string) {
	if vNative() {
		return
	}
	s := pre + vcVarint(u) + post
	vAssumeLemma("vcLemVarint", uint64(vcVarVal(s, len(pre), 0, 0)) == u && vcVarEnd(s, len(pre)) == len(pre)+len(vcVarint(u)))
}

// a field written after a field with the same id is read back
//
//vc:lemma props=C06
func vcCptRoundField(p *TCompactProtocol, typeId TType, id int16, value bool) {
	t := vcCptT(p)
	vRequires(p.booleanField == nil && vcCType(typeId) != 0xff && typeId != 0)
	n := len(t.out)
	r := &TCompactProtocol{trans: t, lastField: make([]int, 0), lastFieldId: p.lastFieldId}
	vcUseVarint(t.out+vcOneByte(vcCType(typeId)), vcZig32(int32(id)), "")
	vcUseVarint(t.out+vcOneByte(vcBool(value)), vcZig32(int32(id)), "")
	if p.WriteFieldBegin("x", typeId, id) != nil || typeId == 2 && p.WriteBool(value) != nil {
		return
	}
	t.in, t.pos = t.out, n
	_, a, b, err := r.ReadFieldBegin()
	vEnsures("C06:round-trip", err != nil && t.failed || err == nil && byte(a) == typeId.ThriftTypeId() && b == id && t.pos == len(t.in) && r.lastFieldId == p.lastFieldId)
	if err == nil && typeId == 2 {
		v, e := r.ReadBool()
		vEnsures("C06:bool-round-trip", e == nil && v == value && t.pos == len(t.in))
	}
}

// whatever happens inside a nested struct, its end restores the enclosing state
//
//vc:lemma props=C06
func vcCptNesting(p *TCompactProtocol, name string, inner int) {
	vcCptT(p)
	last, n := p.lastFieldId, len(p.lastField)
	p.WriteStructBegin(name)
	p.lastFieldId = inner
	p.WriteStructEnd()
	vEnsures("C06:write-nesting", p.lastFieldId == last && len(p.lastField) == n)
	p.ReadStructBegin()
	p.lastFieldId = inner
	p.ReadStructEnd()
	vEnsures("C06:read-nesting", p.lastFieldId == last && len(p.lastField) == n)
}

//vc:lemma props=C06
func vcCptFactory(tr *vcTransport) {
	p, ok := NewTCompactProtocolFactory().GetProtocol(tr).(*TCompactProtocol)
	vEnsures("C06:initial-state", ok && p.Transport() == TTransport(tr) && p.lastFieldId == 0 && len(p.lastField) == 0 && p.booleanField == nil && !p.boolValueIsNotNull)
}
