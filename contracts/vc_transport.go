package thrift

// ---------------------------------------------------------------- C12: read-all

var vcGhostReadPos int

// vcReadAllCall records a call of ReadAllTransport. Its contract is proved for
// an arbitrary transport below (vcTransport may do anything the Read contract
// allows); a transport whose Read is under contract is an instance, so all that
// is left for its ReadAll is to be this very call.
type vcReadAllCall struct {
	calls int
	self  TTransport
	buf   []byte
	n     int
	err   error
}

var vcGhostReadAll vcReadAllCall

func vcIsReadAll(p TTransport, buf []byte, n int, err error) bool {
	c := &vcGhostReadAll
	if c.calls != 1 || c.self != p || len(c.buf) != len(buf) || c.n != n || c.err != err {
		return false
	}
	return len(buf) == 0 || &c.buf[0] == &buf[0]
}

//vc:contract ReadAllTransport props=C12 inv noframe
func vcReadAllTransport(p TTransport, buf []byte) (n int, err error) {
	other := false
	switch p.(type) {
	case *TFramedTransport, *TIOStreamTransport, *TSocket, *TNonblockingSocket, *THttpClient:
		other = true
	}
	if other {
		n, err = ReadAllTransport(p, buf)
		vcGhostReadAll = vcReadAllCall{vcGhostReadAll.calls + 1, p, buf, n, err}
		return
	}
	t, ok := p.(*vcTransport)
	vRequires(ok)
	vAssume(!t.failed && !t.after && !t.empty)
	vcGhostReadPos = t.pos
	old := vcCopyT(t)
	n, err = ReadAllTransport(p, buf)
	if err == nil {
		vEnsures("C12:full-length-on-success", n == len(buf))
		vEnsures("C12:position", t.pos == old.pos+len(buf))
		vEnsures("C12:next-bytes-in-order", string(buf) == old.in[old.pos:old.pos+len(buf)])
	} else {
		vEnsures("C12:a-full-buffer-is-not-an-error", t.pos < old.pos+len(buf))
		vEnsures("C12:no-error-without-cause", t.failed || t.empty)
	}
	vEnsures("C12:nothing-lost-or-read-beyond", t.pos >= old.pos && t.pos-old.pos <= len(buf) && t.in == old.in)
	return
}

//vc:loop vcReadAllTransport
func vcReadAllLoop(p TTransport, buf []byte) {
	t := p.(*vcTransport)
	vInv(t.pos >= vcGhostReadPos && t.pos-vcGhostReadPos <= len(buf) && t.pos <= len(t.in))
	vInv(string(buf[:t.pos-vcGhostReadPos]) == t.in[vcGhostReadPos:t.pos])
}
