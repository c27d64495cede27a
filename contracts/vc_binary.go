package thrift

import (
	"io"
	"math"
)

// ---- the Thrift binary encoding, written down independently of the library

func vcBE16(v uint16) string { return string([]byte{byte(v >> 8), byte(v)}) }
func vcBE32(v uint32) string {
	return string([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
}
func vcBE64(v uint64) string { return vcBE32(uint32(v>>32)) + vcBE32(uint32(v)) }
func vcGet16(s string, i int) uint16 {
	return uint16(s[i])<<8 | uint16(s[i+1])
}
func vcGet32(s string, i int) uint32 {
	return uint32(s[i])<<24 | uint32(s[i+1])<<16 | uint32(s[i+2])<<8 | uint32(s[i+3])
}
func vcGet64(s string, i int) uint64 {
	return uint64(vcGet32(s, i))<<32 | uint64(vcGet32(s, i+4))
}
func vcOneByte(b byte) string { return string([]byte{b}) }

// the byte that stands for a type on the wire: binary travels as string
func vcTypeByte(t TType) byte {
	if t == 18 {
		return 11
	}
	return byte(t)
}

const vcMaxI32 = 1<<31 - 1

//vc:gen
func vGenTBinaryProtocol() *TBinaryProtocol {
	return NewTBinaryProtocol(vGenTransport(), vBool("strictRead"), vBool("strictWrite"))
}

// vcTrans gives the transport below a protocol in a state where nothing has failed yet.
func vcTrans(tt TTransport) *vcTransport {
	t, ok := tt.(*vcTransport)
	vRequires(ok)
	vRequires(!t.failed && !t.after)
	return t
}

func vcBinT(p *TBinaryProtocol) *vcTransport {
	vRequires(!p._CheckReadLength)
	return vcTrans(p.Transport())
}

// vcWrote states the outcome of a write operation that should emit want.
func vcWrote(tag string, t *vcTransport, old *vcTransport, err TProtocolException, want string) {
	if err == nil {
		vSet("C08:failure-not-swallowed", &t.failed, false)
		vSet(tag+":bytes-written", &t.out, old.out+want)
	} else {
		vSet("C08:error-only-after-failure", &t.failed, true)
	}
	vSet("C08:no-write-after-failure", &t.after, false)
}

// vcReadN states the outcome of a read operation that consumed n bytes, or failed.
func vcReadN(tag string, t *vcTransport, old *vcTransport, err TProtocolException, n int) {
	if err == nil {
		vSet("C08:failure-not-swallowed", &t.failed, false)
		vSet(tag+":bytes-consumed", &t.pos, old.pos+n)
	} else {
		vSet("C08:error-only-after-failure", &t.failed, true)
		vAssert("C08:position-in-range", t.pos >= old.pos && t.pos <= len(t.in))
	}
}

func vcCopyT(t *vcTransport) *vcTransport {
	c := *t
	return &c
}

// ---------------------------------------------------------------- writing

//vc:contract (*TBinaryProtocol).WriteByte props=C01,C08
func vcBinWriteByte(p *TBinaryProtocol, value byte) (err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteByte(value)
	vcWrote("C01", t, old, err, vcOneByte(value))
	return
}

//vc:contract (*TBinaryProtocol).WriteBool props=C01,C08
func vcBinWriteBool(p *TBinaryProtocol, value bool) (err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteBool(value)
	b := byte(0)
	if value {
		b = 1
	}
	vcWrote("C01", t, old, err, vcOneByte(b))
	return
}

//vc:contract (*TBinaryProtocol).WriteI16 props=C01,C08
func vcBinWriteI16(p *TBinaryProtocol, value int16) (err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteI16(value)
	vcWrote("C01", t, old, err, vcBE16(uint16(value)))
	return
}

//vc:contract (*TBinaryProtocol).WriteI32 props=C01,C08
func vcBinWriteI32(p *TBinaryProtocol, value int32) (err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteI32(value)
	vcWrote("C01", t, old, err, vcBE32(uint32(value)))
	return
}

//vc:contract (*TBinaryProtocol).WriteI64 props=C01,C08
func vcBinWriteI64(p *TBinaryProtocol, value int64) (err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteI64(value)
	vcWrote("C01", t, old, err, vcBE64(uint64(value)))
	return
}

//vc:contract (*TBinaryProtocol).WriteDouble props=C01,C08
func vcBinWriteDouble(p *TBinaryProtocol, value float64) (err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteDouble(value)
	vcWrote("C01", t, old, err, vcBE64(math.Float64bits(value)))
	return
}

//vc:contract (*TBinaryProtocol).WriteString props=C01,C08
func vcBinWriteString(p *TBinaryProtocol, value string) (err TProtocolException) {
	t := vcBinT(p)
	vRequires(len(value) <= vcMaxI32)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteString(value)
	vcWrote("C01", t, old, err, vcBE32(uint32(len(value)))+value)
	return
}

//vc:contract (*TBinaryProtocol).WriteBinary props=C01,C08
func vcBinWriteBinary(p *TBinaryProtocol, value []byte) (err TProtocolException) {
	t := vcBinT(p)
	vRequires(len(value) <= vcMaxI32)
	old := vcCopyT(t)
	want := vcBE32(uint32(len(value))) + string(value)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteBinary(value)
	vcWrote("C01", t, old, err, want)
	return
}

//vc:contract (*TBinaryProtocol).WriteBinaryFromReader props=C01,C08 nocall
func vcBinWriteBinaryFromReader(p *TBinaryProtocol, r *vcReader, size int) (err TProtocolException) {
	t := vcBinT(p)
	vRequires(size >= 0 && size <= vcMaxI32)
	old := vcCopyT(t)
	data, pos := r.data, r.pos
	vModifies(&t.out, &t.failed, &t.after, &r.pos, &r.failed)
	err = p.WriteBinaryFromReader(io.Reader(r), size)
	if err == nil {
		vEnsures("C08:failure-not-swallowed", !t.failed && !r.failed)
		vEnsures("C01:reader-has-enough", len(data)-pos >= size)
		vEnsures("C01:bytes-written", t.out == old.out+vcBE32(uint32(size))+data[pos:pos+size])
		vEnsures("C01:reader-position", r.pos == pos+size)
	} else {
		vEnsures("C08:error-only-after-failure", t.failed || r.failed || len(data)-pos < size)
	}
	vEnsures("C08:no-write-after-failure", !t.after)
	return
}

//vc:contract (*TBinaryProtocol).WriteFieldBegin props=C01,C08
func vcBinWriteFieldBegin(p *TBinaryProtocol, name string, typeId TType, id int16) (err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteFieldBegin(name, typeId, id)
	vcWrote("C01", t, old, err, vcOneByte(vcTypeByte(typeId))+vcBE16(uint16(id)))
	return
}

//vc:contract (*TBinaryProtocol).WriteFieldStop props=C01,C08
func vcBinWriteFieldStop(p *TBinaryProtocol) (err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteFieldStop()
	vcWrote("C01", t, old, err, "\x00")
	return
}

//vc:contract (*TBinaryProtocol).WriteMapBegin props=C01,C08
func vcBinWriteMapBegin(p *TBinaryProtocol, k TType, v TType, size int) (err TProtocolException) {
	t := vcBinT(p)
	vRequires(size >= 0 && size <= vcMaxI32)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteMapBegin(k, v, size)
	vcWrote("C01", t, old, err, vcOneByte(vcTypeByte(k))+vcOneByte(vcTypeByte(v))+vcBE32(uint32(size)))
	return
}

//vc:contract (*TBinaryProtocol).WriteListBegin props=C01,C08
func vcBinWriteListBegin(p *TBinaryProtocol, e TType, size int) (err TProtocolException) {
	t := vcBinT(p)
	vRequires(size >= 0 && size <= vcMaxI32)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteListBegin(e, size)
	vcWrote("C01", t, old, err, vcOneByte(vcTypeByte(e))+vcBE32(uint32(size)))
	return
}

//vc:contract (*TBinaryProtocol).WriteSetBegin props=C01,C08
func vcBinWriteSetBegin(p *TBinaryProtocol, e TType, size int) (err TProtocolException) {
	t := vcBinT(p)
	vRequires(size >= 0 && size <= vcMaxI32)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteSetBegin(e, size)
	vcWrote("C01", t, old, err, vcOneByte(vcTypeByte(e))+vcBE32(uint32(size)))
	return
}

// the operations that write nothing
//
//vc:lemma props=C01
func vcBinWriteNothing(p *TBinaryProtocol, name string) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vEnsures("C01:no-error", p.WriteStructBegin(name) == nil && p.WriteStructEnd() == nil && p.WriteFieldEnd() == nil && p.WriteMapEnd() == nil &&
		p.WriteListEnd() == nil && p.WriteSetEnd() == nil && p.WriteMessageEnd() == nil)
	vEnsures("C01:no-bytes", t.out == old.out && t.pos == old.pos && t.flush == old.flush)
}

//vc:contract (*TBinaryProtocol).Flush props=C08
func vcBinFlush(p *TBinaryProtocol) (err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.failed, &t.after, &t.flush)
	err = p.Flush()
	vSet("C08:flushed-once", &t.flush, old.flush+1)
	vSet("C08:no-write-after-failure", &t.after, false)
	if err == nil {
		vSet("C08:failure-not-swallowed", &t.failed, false)
	} else {
		vSet("C08:error-only-after-failure", &t.failed, true)
	}
	return
}

// ---------------------------------------------------------------- message header

//vc:contract (*TBinaryProtocol).WriteMessageBegin props=C01,C03,C08
func vcBinWriteMessageBegin(p *TBinaryProtocol, name string, typeId TMessageType, seqId int32) (err TProtocolException) {
	t := vcBinT(p)
	vRequires(len(name) <= vcMaxI32)
	vRequires(typeId >= 0 && typeId <= 255)
	old := vcCopyT(t)
	vModifies(&t.out, &t.failed, &t.after)
	err = p.WriteMessageBegin(name, typeId, seqId)
	str := vcBE32(uint32(len(name))) + name
	if p._StrictWrite {
		vcWrote("C01,C03", t, old, err, "\x80\x01\x00"+vcOneByte(byte(typeId))+str+vcBE32(uint32(seqId)))
	} else {
		vcWrote("C01,C03", t, old, err, str+vcOneByte(byte(typeId))+vcBE32(uint32(seqId)))
	}
	return
}

//vc:contract (*TBinaryProtocol).ReadMessageBegin props=C02,C03,C08,C28 nocall
func vcBinReadMessageBegin(p *TBinaryProtocol) (name string, typeId TMessageType, seqId int32, err TProtocolException) {
	t := vcBinT(p)
	in, pos := t.in, t.pos
	vModifies(&t.pos, &t.failed)
	name, typeId, seqId, err = p.ReadMessageBegin()
	if err == nil {
		vEnsures("C08:failure-not-swallowed", !t.failed)
		vEnsures("C02:input-long-enough", pos+4 <= len(in))
		w := int32(vcGet32(in, pos))
		if w < 0 {
			vEnsures("C03:version-checked", uint32(w)&0xffff0000 == 0x80010000)
			vEnsures("C02:input-long-enough", pos+8 <= len(in))
			n := int(int32(vcGet32(in, pos+4)))
			vEnsures("C02,C28:length-not-negative", n >= 0 && pos+12+n <= len(in))
			vEnsures("C02,C03:name", name == in[pos+8:pos+8+n])
			vEnsures("C02,C03:type", typeId == TMessageType(in[pos+3]))
			vEnsures("C02,C03:seqid", seqId == int32(vcGet32(in, pos+8+n)))
			vEnsures("C02,C03:consumed", t.pos == pos+12+n)
		} else {
			vEnsures("C03:strict-read-refuses-unversioned", !p._StrictRead)
			n := int(w)
			vEnsures("C02:input-long-enough", pos+9+n <= len(in))
			vEnsures("C02,C03:name", name == in[pos+4:pos+4+n])
			vEnsures("C02,C03:type", typeId == TMessageType(in[pos+4+n]))
			vEnsures("C02,C03:seqid", seqId == int32(vcGet32(in, pos+5+n)))
			vEnsures("C02,C03:consumed", t.pos == pos+9+n)
		}
	} else if !t.failed {
		// refused: bad version, or a negative name length
		vEnsures("C08:error-only-with-reason", pos+4 <= len(in))
		w := int32(vcGet32(in, pos))
		if w >= 0 {
			vEnsures("C03:unversioned-accepted-unless-strict", p._StrictRead)
			vEnsures("C03:bad-version-error", err.TypeId() == BAD_VERSION)
		} else if uint32(w)&0xffff0000 != 0x80010000 {
			vEnsures("C03:bad-version-error", err.TypeId() == BAD_VERSION)
		} else {
			vEnsures("C03:good-version-accepted", pos+8 <= len(in) && int32(vcGet32(in, pos+4)) < 0)
		}
	}
	return
}

// ---------------------------------------------------------------- reading

//vc:contract (*TBinaryProtocol).ReadByte props=C02,C08,C28
func vcBinReadByte(p *TBinaryProtocol) (value byte, err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	value, err = p.ReadByte()
	if err == nil {
		vEnsures("C02:input-long-enough", old.pos+1 <= len(old.in))
		vSet("C02:value", &value, old.in[old.pos])
	}
	vcReadN("C02", t, old, err, 1)
	return
}

//vc:contract (*TBinaryProtocol).ReadBool props=C02,C08,C28
func vcBinReadBool(p *TBinaryProtocol) (value bool, err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	value, err = p.ReadBool()
	if err == nil {
		vEnsures("C02:input-long-enough", old.pos+1 <= len(old.in))
		if old.in[old.pos] <= 1 {
			vSet("C02:value", &value, old.in[old.pos] == 1)
		}
	}
	vcReadN("C02", t, old, err, 1)
	return
}

//vc:contract (*TBinaryProtocol).ReadI16 props=C02,C08,C28
func vcBinReadI16(p *TBinaryProtocol) (value int16, err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	value, err = p.ReadI16()
	if err == nil {
		vEnsures("C02:input-long-enough", old.pos+2 <= len(old.in))
		vSet("C02:value", &value, int16(vcGet16(old.in, old.pos)))
	}
	vcReadN("C02", t, old, err, 2)
	return
}

//vc:contract (*TBinaryProtocol).ReadI32 props=C02,C08,C28
func vcBinReadI32(p *TBinaryProtocol) (value int32, err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	value, err = p.ReadI32()
	if err == nil {
		vEnsures("C02:input-long-enough", old.pos+4 <= len(old.in))
		vSet("C02:value", &value, int32(vcGet32(old.in, old.pos)))
	}
	vcReadN("C02", t, old, err, 4)
	return
}

//vc:contract (*TBinaryProtocol).ReadI64 props=C02,C08,C28
func vcBinReadI64(p *TBinaryProtocol) (value int64, err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	value, err = p.ReadI64()
	if err == nil {
		vEnsures("C02:input-long-enough", old.pos+8 <= len(old.in))
		vSet("C02:value", &value, int64(vcGet64(old.in, old.pos)))
	}
	vcReadN("C02", t, old, err, 8)
	return
}

//vc:contract (*TBinaryProtocol).ReadDouble props=C02,C08,C28
func vcBinReadDouble(p *TBinaryProtocol) (value float64, err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	value, err = p.ReadDouble()
	if err == nil {
		vEnsures("C02:input-long-enough", old.pos+8 <= len(old.in))
		vSet("C02:value", &value, math.Float64frombits(vcGet64(old.in, old.pos)))
	}
	vcReadN("C02", t, old, err, 8)
	return
}

// vcReadLen states the outcome of reading a value with a 4-byte length in front.
func vcReadLen(t *vcTransport, old *vcTransport, err TProtocolException, value *string) {
	if err == nil {
		vEnsures("C02:input-long-enough", old.pos+4 <= len(old.in))
		n := int(int32(vcGet32(old.in, old.pos)))
		vEnsures("C02,C28:length-not-negative", n >= 0 && old.pos+4+n <= len(old.in))
		vSet("C02:value", value, old.in[old.pos+4:old.pos+4+n])
		vcReadN("C02", t, old, err, 4+n)
	} else {
		vEnsures("C08:error-only-with-reason", t.failed || old.pos+4 <= len(old.in) && int32(vcGet32(old.in, old.pos)) < 0)
	}
}

//vc:contract (*TBinaryProtocol).ReadString props=C02,C08,C28
func vcBinReadString(p *TBinaryProtocol) (value string, err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	value, err = p.ReadString()
	vcReadLen(t, old, err, &value)
	return
}

//vc:contract (*TBinaryProtocol).ReadBinary props=C02,C08,C28
func vcBinReadBinary(p *TBinaryProtocol) (value []byte, err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	value, err = p.ReadBinary()
	got := string(value)
	vcReadLen(t, old, err, &got)
	if err == nil {
		vEnsures("C02:value", string(value) == got)
	}
	return
}

//vc:contract (*TBinaryProtocol).ReadFieldBegin props=C02,C08,C28
func vcBinReadFieldBegin(p *TBinaryProtocol) (name string, typeId TType, id int16, err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	name, typeId, id, err = p.ReadFieldBegin()
	n := 3
	if err == nil {
		vEnsures("C02:input-long-enough", old.pos+1 <= len(old.in))
		vSet("C02:type", &typeId, TType(old.in[old.pos]))
		if old.in[old.pos] == 0 {
			n = 1
		} else {
			vEnsures("C02:input-long-enough", old.pos+3 <= len(old.in))
			vSet("C02:id", &id, int16(vcGet16(old.in, old.pos+1)))
		}
	}
	vcReadN("C02", t, old, err, n)
	return
}

//vc:contract (*TBinaryProtocol).ReadMapBegin props=C02,C08,C28
func vcBinReadMapBegin(p *TBinaryProtocol) (k TType, v TType, size int, err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	k, v, size, err = p.ReadMapBegin()
	if err == nil {
		vEnsures("C02:input-long-enough", old.pos+6 <= len(old.in))
		vSet("C02:key-type", &k, TType(old.in[old.pos]))
		vSet("C02:value-type", &v, TType(old.in[old.pos+1]))
		vSet("C02:size", &size, int(int32(vcGet32(old.in, old.pos+2))))
		vEnsures("C28:size-not-negative", size >= 0)
		vcReadN("C02", t, old, err, 6)
	} else {
		vEnsures("C08:error-only-with-reason", t.failed || old.pos+6 <= len(old.in) && int32(vcGet32(old.in, old.pos+2)) < 0)
	}
	return
}

func vcReadElems(t *vcTransport, old *vcTransport, e *TType, size *int, err TProtocolException) {
	if err == nil {
		vEnsures("C02:input-long-enough", old.pos+5 <= len(old.in))
		vSet("C02:element-type", e, TType(old.in[old.pos]))
		vSet("C02:size", size, int(int32(vcGet32(old.in, old.pos+1))))
		vEnsures("C28:size-not-negative", *size >= 0)
		vcReadN("C02", t, old, err, 5)
	} else {
		vEnsures("C08:error-only-with-reason", t.failed || old.pos+5 <= len(old.in) && int32(vcGet32(old.in, old.pos+1)) < 0)
	}
}

//vc:contract (*TBinaryProtocol).ReadListBegin props=C02,C08,C28
func vcBinReadListBegin(p *TBinaryProtocol) (e TType, size int, err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	e, size, err = p.ReadListBegin()
	vcReadElems(t, old, &e, &size, err)
	return
}

//vc:contract (*TBinaryProtocol).ReadSetBegin props=C02,C08,C28
func vcBinReadSetBegin(p *TBinaryProtocol) (e TType, size int, err TProtocolException) {
	t := vcBinT(p)
	old := vcCopyT(t)
	vModifies(&t.pos, &t.failed)
	e, size, err = p.ReadSetBegin()
	vcReadElems(t, old, &e, &size, err)
	return
}

//vc:lemma props=C02
func vcBinReadNothing(p *TBinaryProtocol) {
	t := vcBinT(p)
	old := vcCopyT(t)
	_, e := p.ReadStructBegin()
	vEnsures("C02:no-error", e == nil && p.ReadStructEnd() == nil && p.ReadFieldEnd() == nil && p.ReadMapEnd() == nil &&
		p.ReadListEnd() == nil && p.ReadSetEnd() == nil && p.ReadMessageEnd() == nil)
	vEnsures("C02:nothing-consumed", t.out == old.out && t.pos == old.pos && t.flush == old.flush && !t.failed)
}

// the factory hands its transport and its strictness settings to the protocol
//
//vc:lemma props=C03
func vcBinFactory(tr *vcTransport, r, w bool) {
	p, ok := NewTBinaryProtocolFactory(r, w).GetProtocol(tr).(*TBinaryProtocol)
	vEnsures("C03:factory", ok && p.Transport() == TTransport(tr) && p._StrictRead == r && p._StrictWrite == w)
}

// a header written is read back as it was, in every mode that can read it
//
//vc:lemma props=C03
func vcBinMessageRoundTrip(tr *vcTransport, name string, typeId TMessageType, seqId int32, sw, sr bool) {
	vAssume(len(name) <= vcMaxI32 && typeId >= 0 && typeId <= 255)
	vAssume(!sr || sw)
	w := NewTBinaryProtocol(tr, sr, sw)
	tr.out = ""
	if w.WriteMessageBegin(name, typeId, seqId) != nil {
		return
	}
	tr.in, tr.pos = tr.out, 0
	n, ty, s, err := NewTBinaryProtocol(tr, sr, sw).ReadMessageBegin()
	if err == nil {
		vEnsures("C03:round-trip-name", n == name)
		vEnsures("C03:round-trip-type", ty == typeId)
		vEnsures("C03:round-trip-seqid", s == seqId)
		vEnsures("C03:round-trip-consumes-all", tr.pos == len(tr.in))
	} else {
		vEnsures("C03:round-trip-accepted", tr.failed)
	}
}
