package thrift

import (
	"bytes"
	"io"
	"strings"
)

// vcErr is an arbitrary error that belongs to no exception family.
type vcErr struct{ msg string }

func (e *vcErr) Error() string { return e.msg }

// vcTErr is an arbitrary exception: it satisfies TException, TTransportException and TProtocolException.
type vcTErr struct {
	msg string
	id  int
}

func (e *vcTErr) Error() string { return e.msg }
func (e *vcTErr) TypeId() int   { return e.id }

// vcAnyErr: an arbitrary non-nil error.
func vcAnyErr() error {
	switch vChoice(3) {
	case 0:
		return &vcErr{vString("errmsg")}
	case 1:
		return io.EOF
	}
	return &vcTErr{vString("errmsg"), vInt("errid")}
}

// vcTransport is an arbitrary transport as seen by a protocol: "in" is what
// the peer sends, "out" is what it has been given. Any call may fail.
type vcTransport struct {
	in     string
	pos    int
	out    string
	failed bool // some call has failed
	after  bool // data was written after a failed call
	flush  int  // number of flushes
	empty  bool // a read has returned no data and no error
}

//vc:gen
func vGenTransport() *vcTransport {
	t := &vcTransport{in: vString("in"), out: vString("out"), pos: vInt("pos")}
	vAssume(t.pos >= 0 && t.pos <= len(t.in))
	return t
}

//vc:gen
func vGenTTransport() TTransport { return vGenTransport() }

func (t *vcTransport) IsOpen() bool { return true }
func (t *vcTransport) Open() error  { return nil }
func (t *vcTransport) Close() error { return nil }
func (t *vcTransport) Peek() bool   { return true }
func (t *vcTransport) Read(buf []byte) (int, error) {
	// io.Reader contract: 0 <= n <= len(buf), data is the next n bytes
	if len(buf) == 0 {
		return 0, nil
	}
	n := vInt("n")
	vAssume(n >= 0 && n <= len(buf) && n <= len(t.in)-t.pos)
	copy(buf, t.in[t.pos:t.pos+n])
	t.pos += n
	if vBool("readfails") {
		t.failed = true
		return n, vcAnyErr()
	}
	if n == 0 {
		t.empty = true
	}
	return n, nil
}

// ReadAll behaves as property C12 demands of every transport.
func (t *vcTransport) ReadAll(buf []byte) (int, error) {
	if len(buf) <= len(t.in)-t.pos && !vBool("readfails") {
		copy(buf, t.in[t.pos:t.pos+len(buf)])
		t.pos += len(buf)
		return len(buf), nil
	}
	t.failed = true
	n := vInt("n")
	vAssume(n >= 0 && n <= len(buf) && n <= len(t.in)-t.pos)
	copy(buf, t.in[t.pos:t.pos+n])
	t.pos += n
	return n, vcAnyErr()
}

// Write: all of buf is taken, or a prefix of it together with an error.
func (t *vcTransport) Write(buf []byte) (int, error) {
	if t.failed && len(buf) > 0 {
		t.after = true
	}
	if !vBool("writefails") {
		t.out += string(buf)
		return len(buf), nil
	}
	t.failed = true
	n := vInt("n")
	vAssume(n >= 0 && n <= len(buf))
	t.out += string(buf[:n])
	return n, vcAnyErr()
}
func (t *vcTransport) Flush() error {
	if t.failed {
		t.after = true
	}
	t.flush++
	if !vBool("flushfails") {
		return nil
	}
	t.failed = true
	return vcAnyErr()
}

// ---- models of library functions outside the verified code

// io.CopyN: reads at most n bytes from src and hands them to dst in order.
// The data is handed over by one Write; the real function may use several.
//
//vc:model io.CopyN
func vcModelCopyN(dst io.Writer, src io.Reader, n int64) (int64, error) {
	if n <= 0 {
		return 0, nil
	}
	k := int(n)
	switch r := src.(type) {
	case *strings.Reader:
		if r.Len() < k {
			k = r.Len()
		}
	case *bytes.Reader:
		if r.Len() < k {
			k = r.Len()
		}
	case *vcReader:
		if len(r.data)-r.pos < k {
			k = len(r.data) - r.pos
		}
	default:
		vUnsupported("io.CopyN source")
	}
	var rerr error
	m := 0
	if k > 0 {
		buf := make([]byte, k)
		m, rerr = vcReadFull(src, buf)
		if m > 0 {
			w, werr := dst.Write(buf[:m])
			if werr != nil {
				return int64(w), werr
			}
			if w != m {
				return int64(w), io.ErrShortWrite
			}
		}
	}
	if int64(m) == n {
		return n, nil
	}
	if rerr == nil {
		rerr = io.EOF
	}
	return int64(m), rerr
}

func vcReadFull(src io.Reader, buf []byte) (int, error) {
	if r, ok := src.(*vcReader); ok {
		return r.vcTake(buf)
	}
	return src.Read(buf)
}

// vcReader is an arbitrary reader holding the given data; it may fail at any point.
type vcReader struct {
	data   string
	pos    int
	failed bool
}

//vc:gen
func vGenReader() *vcReader {
	r := &vcReader{data: vString("data"), pos: vInt("rpos")}
	vAssume(r.pos >= 0 && r.pos <= len(r.data))
	return r
}

func (r *vcReader) vcTake(buf []byte) (int, error) {
	n := vInt("n")
	vAssume(n >= 0 && n <= len(buf) && n <= len(r.data)-r.pos)
	copy(buf, r.data[r.pos:r.pos+n])
	r.pos += n
	if n == len(buf) {
		return n, nil
	}
	r.failed = true
	return n, vcAnyErr()
}

func (r *vcReader) Read(buf []byte) (int, error) {
	if len(buf) == 0 {
		return 0, nil
	}
	if r.pos == len(r.data) {
		return 0, io.EOF
	}
	if vBool("readfails") {
		r.failed = true
		n := vInt("n")
		vAssume(n >= 0 && n <= len(buf) && n <= len(r.data)-r.pos)
		copy(buf, r.data[r.pos:r.pos+n])
		r.pos += n
		return n, vcAnyErr()
	}
	n := vInt("n")
	vAssume(n > 0 && n <= len(buf) && n <= len(r.data)-r.pos)
	copy(buf, r.data[r.pos:r.pos+n])
	r.pos += n
	return n, nil
}
