package thrift

import (
	"bytes"
	"io"
)

// ---------------------------------------------------------------- C14: memory buffer

// vGenBuffer: an arbitrary bytes.Buffer: any contents, any part of it already read.
//
//vc:gen
func vGenBuffer() *bytes.Buffer {
	b := bytes.NewBuffer(vBytes("contents"))
	k := vInt("readalready")
	vAssume(k >= 0 && k <= b.Len())
	b.Next(k)
	return b
}

//vc:gen
func vGenMemoryBuffer() *TMemoryBuffer {
	return &TMemoryBuffer{buf: vGenBuffer(), size: vInt("size")}
}

//vc:model bytes.growSlice
func vcModelGrowSlice(b []byte, n int) []byte {
	c := vInt("newcap")
	vAssume(c >= len(b)+n && c < 1<<47)
	r := make([]byte, len(b), c)
	copy(r, b)
	return r
}

// vcUnread: the unread bytes of a buffer.
func vcUnread(b *bytes.Buffer) string { return string(b.Bytes()) }

func vcMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

//vc:contract (*TMemoryBuffer).Read props=C14 nocall
func vcMemRead(p *TMemoryBuffer, buf []byte) (n int, err error) {
	old := vcUnread(p.buf)
	n, err = p.Read(buf)
	if len(old) == 0 && len(buf) > 0 {
		vEnsures("C14:empty-is-end-of-file", n == 0 && err == io.EOF)
		vEnsures("C14:empty-stays-empty", p.buf.Len() == 0)
	} else {
		vEnsures("C14:no-error", err == nil)
		vEnsures("C14:count", n == vcMin(len(old), len(buf)))
		vEnsures("C14:bytes-in-order", string(buf[:n]) == old[:n])
		vEnsures("C14:rest-stays", vcUnread(p.buf) == old[n:])
	}
	return
}

//vc:contract (*TMemoryBuffer).ReadByte props=C14 nocall
func vcMemReadByte(p *TMemoryBuffer) (c byte, err error) {
	old := vcUnread(p.buf)
	c, err = p.ReadByte()
	if len(old) == 0 {
		vEnsures("C14:empty-is-end-of-file", err == io.EOF)
		vEnsures("C14:empty-stays-empty", p.buf.Len() == 0)
	} else {
		vEnsures("C14:no-error", err == nil)
		vEnsures("C14:bytes-in-order", c == old[0])
		vEnsures("C14:rest-stays", vcUnread(p.buf) == old[1:])
	}
	return
}

//vc:contract (*TMemoryBuffer).Write props=C14 nocall
func vcMemWrite(p *TMemoryBuffer, buf []byte) (n int, err error) {
	old := vcUnread(p.buf)
	given := string(buf)
	n, err = p.Write(buf)
	vEnsures("C14:all-taken", n == len(buf) && err == nil)
	vEnsures("C14:appended", vcUnread(p.buf) == old+given)
	vEnsures("C14:argument-unchanged", string(buf) == given)
	return
}

//vc:contract (*TMemoryBuffer).WriteString props=C14 nocall
func vcMemWriteString(p *TMemoryBuffer, buf string) (n int, err error) {
	old := vcUnread(p.buf)
	n, err = p.WriteString(buf)
	vEnsures("C14:all-taken", n == len(buf) && err == nil)
	vEnsures("C14:appended", vcUnread(p.buf) == old+buf)
	return
}

//vc:contract (*TMemoryBuffer).Len props=C14 nocall
func vcMemLen(p *TMemoryBuffer) (n int) {
	old := vcUnread(p.buf)
	n = p.Len()
	vEnsures("C14:length", n == len(old))
	vEnsures("C14:contents-kept", vcUnread(p.buf) == old)
	return
}

//vc:contract (*TMemoryBuffer).Bytes props=C14 nocall
func vcMemBytes(p *TMemoryBuffer) (b []byte) {
	old := vcUnread(p.buf)
	b = p.Bytes()
	vEnsures("C14:contents", string(b) == old)
	vEnsures("C14:contents-kept", vcUnread(p.buf) == old)
	return
}

//vc:contract (*TMemoryBuffer).String props=C14 nocall
func vcMemString(p *TMemoryBuffer) (s string) {
	old := vcUnread(p.buf)
	s = p.String()
	vEnsures("C14:contents", s == old)
	vEnsures("C14:contents-kept", vcUnread(p.buf) == old)
	return
}

//vc:contract (*TMemoryBuffer).Reset props=C14 nocall
func vcMemReset(p *TMemoryBuffer) {
	p.Reset()
	vEnsures("C14:discarded", p.buf.Len() == 0)
}

//vc:contract (*TMemoryBuffer).Close props=C14 nocall
func vcMemClose(p *TMemoryBuffer) (err error) {
	err = p.Close()
	vEnsures("C14:discarded", p.buf.Len() == 0)
	vEnsures("C14:no-error", err == nil)
	return
}

//vc:contract (*TMemoryBuffer).Flush props=C14 nocall
func vcMemFlush(p *TMemoryBuffer) (err error) {
	old := vcUnread(p.buf)
	err = p.Flush()
	vEnsures("C14:contents-kept", vcUnread(p.buf) == old)
	vEnsures("C14:no-error", err == nil)
	return
}

//vc:contract (*TMemoryBuffer).Open props=C14 nocall
func vcMemOpen(p *TMemoryBuffer) (err error) {
	old := vcUnread(p.buf)
	err = p.Open()
	vEnsures("C14:contents-kept", vcUnread(p.buf) == old)
	vEnsures("C14:no-error", err == nil)
	return
}

//vc:contract (*TMemoryBuffer).Peek props=C14 nocall
func vcMemPeek(p *TMemoryBuffer) (b bool) {
	old := vcUnread(p.buf)
	b = p.Peek()
	vEnsures("C14:contents-kept", vcUnread(p.buf) == old)
	vEnsures("C14:open", b)
	return
}

//vc:contract (*TMemoryBuffer).IsOpen props=C14 nocall
func vcMemIsOpen(p *TMemoryBuffer) (b bool) {
	old := vcUnread(p.buf)
	b = p.IsOpen()
	vEnsures("C14:contents-kept", vcUnread(p.buf) == old)
	vEnsures("C14:open", b)
	return
}

//vc:contract NewTMemoryBuffer props=C14 nocall
func vcNewMem() (p *TMemoryBuffer) {
	p = NewTMemoryBuffer()
	vEnsures("C14:new-is-empty", p.buf.Len() == 0)
	return
}

//vc:contract NewTMemoryBufferLen props=C14 nocall
func vcNewMemLen(size int) (p *TMemoryBuffer) {
	vAssume(size >= 0 && size < 1<<40)
	p = NewTMemoryBufferLen(size)
	vEnsures("C14:new-is-empty", p.buf.Len() == 0)
	return
}

// ReadFrom takes everything the reader has, in order; the reader's failure is passed on.
//
//vc:contract (*TMemoryBuffer).ReadFrom props=C14 nocall
func vcMemReadFrom(p *TMemoryBuffer, r io.Reader) (n int64, err error) {
	rd, ok := r.(*vcReader)
	vRequires(ok)
	vAssume(!rd.failed)
	old, from := vcUnread(p.buf), rd.pos
	n, err = p.ReadFrom(r)
	vEnsures("C14:count", int(n) == rd.pos-from)
	vEnsures("C14:appended", vcUnread(p.buf) == old+rd.data[from:rd.pos])
	if err == nil {
		vEnsures("C14:everything", rd.pos == len(rd.data) && !rd.failed)
	} else {
		vEnsures("C14:no-error-without-cause", rd.failed)
	}
	return
}

// (*bytes.Buffer).ReadFrom appends what one pass over the reader yields until
// it ends (no error) or fails.
//
//vc:model (*bytes.Buffer).ReadFrom
func vcModelBufferReadFrom(b *bytes.Buffer, r io.Reader) (int64, error) {
	rd, ok := r.(*vcReader)
	if !ok {
		vUnsupported("(*bytes.Buffer).ReadFrom source")
	}
	k := vInt("n")
	vAssume(k >= 0 && k <= len(rd.data)-rd.pos)
	b.WriteString(rd.data[rd.pos : rd.pos+k])
	rd.pos += k
	if rd.pos == len(rd.data) && !vBool("readfails") {
		return int64(k), nil
	}
	rd.failed = true
	return int64(k), vcAnyErr()
}

// WriteTo hands the unread bytes to the writer, in order, and keeps what was not taken.
//
//vc:contract (*TMemoryBuffer).WriteTo props=C14 nocall
func vcMemWriteTo(p *TMemoryBuffer, w io.Writer) (n int64, err error) {
	t, ok := w.(*vcTransport)
	vRequires(ok)
	vAssume(!t.failed)
	old, out := vcUnread(p.buf), t.out
	n, err = p.WriteTo(w)
	vEnsures("C14:count", n >= 0 && int(n) <= len(old))
	vEnsures("C14:handed-over", t.out == out+old[:n])
	if err == nil {
		vEnsures("C14:everything", int(n) == len(old) && !t.failed)
		vEnsures("C14:each-byte-once", p.buf.Len() == 0)
	} else {
		vEnsures("C14:no-error-without-cause", t.failed)
		vEnsures("C14:rest-stays", vcUnread(p.buf) == old[n:])
	}
	return
}

//vc:gen
func vGenIOReader() io.Reader { return vGenReader() }

//vc:gen
func vGenIOWriter() io.Writer { return vGenTransport() }

var vcGhostOld string

//vc:contract (*TMemoryBuffer).ReadAll props=C12,C14 nocall
func vcMemReadAll(p *TMemoryBuffer, buf []byte) (n int, err error) {
	old := vcUnread(p.buf)
	vcGhostOld = old
	n, err = p.ReadAll(buf)
	if err == nil {
		vEnsures("C12,C14:full-length-on-success", n == len(buf))
		vEnsures("C12,C14:next-bytes-in-order", string(buf) == old[:n])
		vEnsures("C12,C14:rest-stays", vcUnread(p.buf) == old[n:])
	} else {
		vEnsures("C12,C14:no-error-without-cause", len(old) < len(buf))
	}
	return
}

//vc:loop vcMemReadAll
func vcMemReadAllLoop(p *TMemoryBuffer, buf []byte, n int) {
	vInv(p.buf.Len() == len(vcGhostOld)-n)
	vInv(p.buf.Len() <= len(vcGhostOld))
	vInv(vcUnread(p.buf) == vcGhostOld[n:])
	vInv(vcUnread(p.buf) == vcGhostOld[len(vcGhostOld)-p.buf.Len():])
	vInv(string(buf[:n]) == vcGhostOld[:n])
	vInv(string(buf[:len(vcGhostOld)-p.buf.Len()]) == vcGhostOld[:len(vcGhostOld)-p.buf.Len()])
}
