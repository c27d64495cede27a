package thrift

// ---------------------------------------------------------------- C13: framed transport

//vc:gen
func vGenFramed() *TFramedTransport {
	t := vGenTransport()
	p := &TFramedTransport{transport: t, writeBuffer: vGenBuffer(), readBuffer: vGenBuffer()}
	if vFuzz() {
		t.in = t.in[:t.pos]
		for vChoice(4) > 0 {
			pay := vString("payload")
			if vChoice(3) == 0 {
				pay = ""
			}
			t.in += vcHeader(len(pay)) + pay
		}
		if vChoice(6) == 0 {
			t.in += vString("tail")
		}
		if vChoice(2) == 0 {
			p.readBuffer.Reset()
		}
	}
	return p
}

func vcHeader(size int) string {
	return string([]byte{byte(size >> 24), byte(size >> 16), byte(size >> 8), byte(size)})
}

// vcFrameSize is the frame length announced at position q.
func vcFrameSize(in string, q int) int {
	return int(in[q])<<24 | int(in[q+1])<<16 | int(in[q+2])<<8 | int(in[q+3])
}

// vcFirst is the position of the first header at or after q that does not announce an empty frame.
//
//vc:opaque
func vcFirst(in string, q int) int {
	if q >= 0 && q <= len(in)-4 && vcFrameSize(in, q) == 0 {
		return vcFirst(in, q+4)
	}
	return q
}

var vcGhostIn, vcGhostRest string
var vcGhostPos int

//vc:contract (*TFramedTransport).Read props=C13 inv nocall
func vcFramedRead(p *TFramedTransport, buf []byte) (n int, err error) {
	t := p.transport.(*vcTransport)
	vAssume(!t.failed && !t.after && (len(buf) > 0 || p.readBuffer.Len() > 0))
	old, rest := vcCopyT(t), vcUnread(p.readBuffer)
	pend := vcUnread(p.writeBuffer)
	vcGhostIn, vcGhostPos, vcGhostRest = t.in, t.pos, rest
	n, err = p.Read(buf)
	vEnsures("C13:reading-writes-nothing", t.out == old.out && t.flush == old.flush && vcUnread(p.writeBuffer) == pend)
	vEnsures("C13:stops-at-the-first-failure", !t.after)
	if len(rest) > 0 {
		vEnsures("C13:buffered-bytes-first", err == nil && t.pos == old.pos)
		vEnsures("C13:count", n == vcMin(len(rest), len(buf)))
		vEnsures("C13:payload-in-order", string(buf[:n]) == rest[:n])
		vEnsures("C13:rest-of-frame-stays", vcUnread(p.readBuffer) == rest[n:])
		return
	}
	q := vcFirst(t.in, old.pos)
	if err == nil {
		vEnsures("C13:failure-reported", !t.failed)
		vEnsures("C13:whole-header", q >= old.pos && q <= len(t.in)-4)
		size := vcFrameSize(t.in, q)
		vEnsures("C13:frame-length-limit", size > 0 && size < 1<<31)
		vEnsures("C13:whole-frame-taken", t.pos == q+4+size)
		pay := t.in[q+4 : q+4+size]
		vEnsures("C13:count", n == vcMin(size, len(buf)))
		vEnsures("C13:payload-in-order", string(buf[:n]) == pay[:n])
		vEnsures("C13:rest-of-frame-stays", vcUnread(p.readBuffer) == pay[n:])
	} else {
		vEnsures("C13:no-error-without-cause", t.failed || q >= old.pos && q <= len(t.in)-4 && vcFrameSize(t.in, q) >= 1<<31)
		vEnsures("C13:nothing-delivered-on-failure", n == 0)
	}
	return
}

//vc:loop vcFramedRead
func vcFramedReadLoop(p *TFramedTransport) {
	t := p.transport.(*vcTransport)
	if len(vcGhostRest) > 0 { // a loop that is also run into with buffered bytes
		vInv(!t.failed && !t.after && t.pos == vcGhostPos && vcUnread(p.readBuffer) == vcGhostRest)
		return
	}
	vReveal(vcFirst, t.in, t.pos)
	vInv(!t.failed && !t.after)
	vInv(t.pos >= 0 && t.pos <= len(t.in) && t.in == vcGhostIn)
	vInv(vcFirst(t.in, t.pos) == vcFirst(vcGhostIn, vcGhostPos))
	vInv(p.readBuffer.Len() == 0)
}

//vc:contract (*TFramedTransport).Write props=C13 nocall
func vcFramedWrite(p *TFramedTransport, buf []byte) (n int, err error) {
	t := p.transport.(*vcTransport)
	old, pend, given := vcCopyT(t), vcUnread(p.writeBuffer), string(buf)
	rest := vcUnread(p.readBuffer)
	n, err = p.Write(buf)
	vEnsures("C13:all-taken", n == len(buf) && err == nil)
	vEnsures("C13:nothing-reaches-the-transport-before-flush", t.out == old.out && t.flush == old.flush && t.pos == old.pos)
	vEnsures("C13:appended", vcUnread(p.writeBuffer) == pend+given)
	vEnsures("C13:argument-unchanged", string(buf) == given)
	vEnsures("C13:reading-side-untouched", vcUnread(p.readBuffer) == rest)
	return
}

//vc:contract (*TFramedTransport).Flush props=C13 nocall
func vcFramedFlush(p *TFramedTransport) (err error) {
	t := p.transport.(*vcTransport)
	pend, rest := vcUnread(p.writeBuffer), vcUnread(p.readBuffer)
	vAssume(!t.failed && !t.after && len(pend) < 1<<31)
	old := vcCopyT(t)
	err = p.Flush()
	if err == nil {
		vEnsures("C13:failure-reported", !t.failed)
		vEnsures("C13:one-frame", t.out == old.out+vcHeader(len(pend))+pend)
		vEnsures("C13:transport-flushed", t.flush == old.flush+1)
		vEnsures("C13:pending-buffer-empty", p.writeBuffer.Len() == 0)
	} else {
		vEnsures("C13:no-error-without-cause", t.failed)
		m := len(t.out) - len(old.out)
		vEnsures("C13:part-of-one-frame", m >= 0 && m <= 4+len(pend))
		if m <= 4 {
			vEnsures("C13:part-of-one-frame", t.out == old.out+vcHeader(len(pend))[:m])
		} else {
			vEnsures("C13:part-of-one-frame", t.out == old.out+vcHeader(len(pend))+pend[:m-4])
		}
	}
	vEnsures("C13:stops-at-the-first-failure", !t.after)
	vEnsures("C13:reading-side-untouched", vcUnread(p.readBuffer) == rest && t.pos == old.pos)
	return
}

//vc:contract NewTFramedTransport props=C13 nocall
func vcNewFramed(transport TTransport) (p *TFramedTransport) {
	p = NewTFramedTransport(transport)
	vEnsures("C13:new-is-empty", p.readBuffer.Len() == 0 && p.writeBuffer.Len() == 0)
	vEnsures("C13:wraps-the-given-transport", p.transport == transport)
	return
}

//vc:contract (*TFramedTransport).ReadAll props=C12,C13 nocall
func vcFramedReadAll(p *TFramedTransport, buf []byte) (n int, err error) {
	t := p.transport.(*vcTransport)
	vAssume(!t.failed && !t.after)
	if vNative() {
		stream := vcUnread(p.readBuffer)
		for q := vcFirst(t.in, t.pos); q <= len(t.in)-4 && len(stream) < len(buf); q = vcFirst(t.in, q) {
			e := q + 4 + vcFrameSize(t.in, q)
			if e > len(t.in) {
				break
			}
			stream += t.in[q+4 : e]
			q = e
		}
		n, err = p.ReadAll(buf)
		vEnsures("C12,C13:full-length-on-success", err != nil || n == len(buf) && len(stream) >= n)
		vEnsures("C12,C13:payload-in-order", err != nil || string(buf) == stream[:n])
		vEnsures("C12,C13:no-error-without-cause", err == nil || t.failed || len(stream) < len(buf))
		return
	}
	vcGhostReadAll = vcReadAllCall{}
	n, err = p.ReadAll(buf)
	vEnsures("C12,C13:read-all-of-the-framed-stream", vcIsReadAll(p, buf, n, err))
	return
}
