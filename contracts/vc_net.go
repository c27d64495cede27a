package thrift

import (
	"bufio"
	"bytes"
	"io"
	"net"
	"net/http"
	"net/url"
	"time"
)

// vcConn is an arbitrary connection or stream: what is read comes from "in" at
// "pos", cut anywhere; any call may fail.
type vcConn struct {
	in        string
	pos       int
	out       string // everything taken
	given     string // argument of the last write
	reads     int
	writes    int
	closes    int
	flushes   int
	n         int   // result of the last read, write, flush or close
	err       error //
	failed    bool
	empty     bool
	noAddr    bool
	deadlines int
}

//vc:gen
func vGenConn() *vcConn {
	t := &vcConn{in: vString("in"), out: vString("out"), pos: vInt("pos"), noAddr: vBool("noaddr")}
	vAssume(t.pos >= 0 && t.pos <= len(t.in))
	return t
}

func (t *vcConn) Read(buf []byte) (int, error) {
	n := vInt("n")
	vAssume(n >= 0 && n <= len(buf) && n <= len(t.in)-t.pos)
	copy(buf, t.in[t.pos:t.pos+n])
	t.pos += n
	t.reads++
	t.n, t.err = n, nil
	if vBool("readfails") {
		t.err = vcAnyErr()
		t.failed = true
	} else if n == 0 {
		t.empty = true
	}
	return t.n, t.err
}

// Write takes everything or fails having taken a part, as io.Writer demands.
func (t *vcConn) Write(buf []byte) (int, error) {
	t.writes++
	t.given = string(buf)
	t.n, t.err = len(buf), nil
	if vBool("writefails") {
		n := vInt("n")
		vAssume(n >= 0 && n <= len(buf))
		t.n, t.err = n, vcAnyErr()
		t.failed = true
	}
	t.out += string(buf[:t.n])
	return t.n, t.err
}

func (t *vcConn) Close() error {
	t.closes++
	t.n, t.err = 0, nil
	if vBool("closefails") {
		t.err = vcAnyErr()
		t.failed = true
	}
	return t.err
}

func (t *vcConn) LocalAddr() net.Addr { return &vcAddr{"tcp", "local"} }
func (t *vcConn) RemoteAddr() net.Addr {
	if t.noAddr {
		return nil
	}
	return &vcAddr{"tcp", "remote"}
}
func (t *vcConn) SetDeadline(time.Time) error      { return t.deadline() }
func (t *vcConn) SetReadDeadline(time.Time) error  { return t.deadline() }
func (t *vcConn) SetWriteDeadline(time.Time) error { return t.deadline() }
func (t *vcConn) deadline() error {
	t.deadlines++
	return nil
}

// vcFlushConn is a connection or writer that can be flushed.
type vcFlushConn struct{ vcConn }

//vc:gen
func vGenFlushConn() *vcFlushConn { return &vcFlushConn{*vGenConn()} }

func (t *vcFlushConn) Flush() error {
	t.flushes++
	t.n, t.err = 0, nil
	if vBool("flushfails") {
		t.err = vcAnyErr()
		t.failed = true
	}
	return t.err
}

// vcUnder is the connection behind an interface value, and whether it can be flushed; nil if there is none.
func vcUnder(x interface{}) (*vcConn, bool) {
	switch v := x.(type) {
	case *vcConn:
		return v, false
	case *vcFlushConn:
		return &v.vcConn, true
	}
	return nil, false
}

type vcAddr struct{ network, str string }

func (a *vcAddr) Network() string { return a.network }
func (a *vcAddr) String() string  { return a.str }

// vcAnyConn: no connection, one that cannot be flushed, one that can.
//
//vc:gen
func vGenNetConn() net.Conn {
	switch vChoice(3) {
	case 0:
		return vGenConn()
	case 1:
		return vGenFlushConn()
	}
	return nil
}

//vc:gen
func vGenAddr() net.Addr {
	if vBool("noaddress") {
		return nil
	}
	return &vcAddr{vString("network"), vString("address")}
}

// ---- models

//vc:model time.Now
func vcModelNow() time.Time { return time.Time{} }

//vc:model (time.Time).Add
func vcModelTimeAdd(t time.Time, d time.Duration) time.Time { return t }

// vcPassed: got is the failure "under", passed on unchanged or converted to a transport exception.
func vcPassed(under, got error) bool {
	if under == nil || got == nil {
		return under == nil && got == nil
	}
	if got == under {
		return true
	}
	te, ok := got.(TTransportException)
	if _, already := under.(TTransportException); already || !ok {
		return false
	}
	if under == io.EOF && te.TypeId() != END_OF_FILE {
		return false
	}
	return te.Error() == under.Error()
}

func vcNotOpen(err error) bool {
	te, ok := err.(TTransportException)
	return ok && te.TypeId() == NOT_OPEN
}

// vcReadThrough: the outcome of reading a transport is that of one read of c.
func vcReadThrough(c *vcConn, buf []byte, old vcConn, n int, err error) {
	if c == nil {
		vEnsures("C15:not-open", n == 0 && vcNotOpen(err))
		return
	}
	vEnsures("C15:one-read", c.reads == old.reads+1 && c.writes == old.writes && c.flushes == old.flushes && c.closes == old.closes)
	vEnsures("C15:count", n == c.n)
	vEnsures("C15:failure", vcPassed(c.err, err))
	vEnsures("C15:bytes", string(buf[:n]) == old.in[old.pos:old.pos+n])
}

func vcOldConn(c *vcConn) vcConn {
	if c == nil {
		return vcConn{}
	}
	return *c
}

// ---------------------------------------------------------------- C15: streams

//vc:gen
func vGenIOStream() *TIOStreamTransport {
	p := &TIOStreamTransport{IsReadWriter: vBool("rw")}
	if c := vGenNetConn(); c != nil {
		p.Reader = c
	}
	if p.IsReadWriter {
		if p.Reader != nil {
			p.Writer = p.Reader.(io.Writer)
		}
		return p
	}
	if c := vGenNetConn(); c != nil {
		p.Writer = c
	}
	return p
}

//vc:contract (*TIOStreamTransport).Read props=C15 nocall
func vcIORead(p *TIOStreamTransport, buf []byte) (n int, err error) {
	c, _ := vcUnder(p.Reader)
	old := vcOldConn(c)
	n, err = p.Read(buf)
	vcReadThrough(c, buf, old, n, err)
	return
}

func vcWriteThrough(c *vcConn, given string, old vcConn, n int, err error) {
	if c == nil {
		vEnsures("C15:not-open", n == 0 && vcNotOpen(err))
		return
	}
	vEnsures("C15:one-write", c.writes == old.writes+1 && c.reads == old.reads && c.flushes == old.flushes && c.closes == old.closes)
	vEnsures("C15:bytes-unchanged", c.given == given)
	vEnsures("C15:count", n == c.n)
	vEnsures("C15:failure", vcPassed(c.err, err))
}

//vc:contract (*TIOStreamTransport).Write props=C15 nocall
func vcIOWrite(p *TIOStreamTransport, buf []byte) (n int, err error) {
	c, _ := vcUnder(p.Writer)
	old, given := vcOldConn(c), string(buf)
	n, err = p.Write(buf)
	vcWriteThrough(c, given, old, n, err)
	return
}

func vcFlushThrough(c *vcConn, can bool, old vcConn, err error) {
	if c == nil {
		vEnsures("C15:not-open", vcNotOpen(err))
		return
	}
	vEnsures("C15:flush-only", c.writes == old.writes && c.reads == old.reads && c.closes == old.closes)
	if can {
		vEnsures("C15:flushed-once", c.flushes == old.flushes+1)
		vEnsures("C15:failure", vcPassed(c.err, err))
	} else {
		vEnsures("C15:nothing-to-flush", err == nil)
	}
}

//vc:contract (*TIOStreamTransport).Flush props=C15 nocall
func vcIOFlush(p *TIOStreamTransport) (err error) {
	c, can := vcUnder(p.Writer)
	old := vcOldConn(c)
	err = p.Flush()
	vcFlushThrough(c, can, old, err)
	return
}

// vcReadAllNative runs ReadAll over connection c in a replay.
func vcReadAllNative(p TTransport, c *vcConn, buf []byte) (n int, err error) {
	pos := c.pos
	n, err = p.ReadAll(buf)
	if err == nil {
		vEnsures("C12,C15:full-length-on-success", n == len(buf) && c.pos == pos+n)
		vEnsures("C12,C15:next-bytes-in-order", string(buf) == c.in[pos:pos+n])
	} else {
		vEnsures("C12,C15:no-error-without-cause", c.failed || c.empty || n == len(buf))
	}
	return
}

func vcReadAllSame(p TTransport, buf []byte) (n int, err error) {
	vcGhostReadAll = vcReadAllCall{}
	n, err = p.ReadAll(buf)
	vEnsures("C12,C15:read-all-of-this-stream", vcIsReadAll(p, buf, n, err))
	return
}

//vc:contract (*TIOStreamTransport).ReadAll props=C12,C15 nocall
func vcIOReadAll(p *TIOStreamTransport, buf []byte) (n int, err error) {
	if c, _ := vcUnder(p.Reader); vNative() && c != nil {
		return vcReadAllNative(p, c, buf)
	}
	return vcReadAllSame(p, buf)
}

// ---- the constructors wrap the streams they are given

var vcGhostBufR []interface{}
var vcGhostBufW []interface{}

//vc:model bufio.NewReader
func vcModelBufioNewReader(r io.Reader) *bufio.Reader {
	vcGhostBufR = append(vcGhostBufR, r)
	return new(bufio.Reader)
}

//vc:model bufio.NewWriter
func vcModelBufioNewWriter(w io.Writer) *bufio.Writer {
	vcGhostBufW = append(vcGhostBufW, w)
	return new(bufio.Writer)
}

//vc:model bufio.NewReaderSize
func vcModelBufioNewReaderSize(r io.Reader, n int) *bufio.Reader { return vcModelBufioNewReader(r) }

//vc:model bufio.NewWriterSize
func vcModelBufioNewWriterSize(w io.Writer, n int) *bufio.Writer { return vcModelBufioNewWriter(w) }

func vcWraps(got interface{}, want interface{}, made []interface{}) bool {
	if got == want {
		return true
	}
	return len(made) == 1 && made[0] == want && got != nil
}

//vc:contract NewTIOStreamTransportR props=C15 nocall nonative
func vcNewIOR(r io.Reader) (p *TIOStreamTransport) {
	vcGhostBufR, vcGhostBufW = nil, nil
	p = NewTIOStreamTransportR(r)
	vEnsures("C15:wraps-the-given-streams", vcWraps(p.Reader, r, vcGhostBufR) && p.Writer == nil && len(vcGhostBufW) == 0 && !p.IsReadWriter)
	return
}

//vc:contract NewTIOStreamTransportW props=C15 nocall nonative
func vcNewIOW(w io.Writer) (p *TIOStreamTransport) {
	vcGhostBufR, vcGhostBufW = nil, nil
	p = NewTIOStreamTransportW(w)
	vEnsures("C15:wraps-the-given-streams", p.Reader == nil && vcWraps(p.Writer, w, vcGhostBufW) && len(vcGhostBufR) == 0 && !p.IsReadWriter)
	return
}

//vc:contract NewTIOStreamTransportRAndW props=C15 nocall nonative
func vcNewIORAndW(r io.Reader, w io.Writer) (p *TIOStreamTransport) {
	vcGhostBufR, vcGhostBufW = nil, nil
	p = NewTIOStreamTransportRAndW(r, w)
	vEnsures("C15:wraps-the-given-streams", vcWraps(p.Reader, r, vcGhostBufR) && vcWraps(p.Writer, w, vcGhostBufW) && !p.IsReadWriter)
	return
}

//vc:gen
func vGenReadWriter() io.ReadWriter { return vGenConn() }

//vc:contract NewTIOStreamTransportRW props=C15 nocall
func vcNewIORW(rw io.ReadWriter) (p *TIOStreamTransport) {
	p = NewTIOStreamTransportRW(rw)
	vEnsures("C15:wraps-the-given-streams", p.Reader == io.Reader(rw) && p.Writer == io.Writer(rw) && p.IsReadWriter)
	return
}

// ---------------------------------------------------------------- C15, C17: sockets

//vc:gen
func vGenSocket() *TSocket {
	return &TSocket{conn: vGenNetConn(), addr: vGenAddr(), nsecTimeout: vInt64("timeout"), writeBuffer: vGenBuffer()}
}

//vc:contract (*TSocket).Read props=C15 nocall
func vcSocketRead(p *TSocket, buf []byte) (n int, err error) {
	c, _ := vcUnder(p.conn)
	old, pend := vcOldConn(c), vcUnread(p.writeBuffer)
	n, err = p.Read(buf)
	vcReadThrough(c, buf, old, n, err)
	vEnsures("C15:pending-bytes-kept", vcUnread(p.writeBuffer) == pend)
	return
}

//vc:contract (*TSocket).ReadAll props=C12,C15 nocall
func vcSocketReadAll(p *TSocket, buf []byte) (n int, err error) {
	if c, _ := vcUnder(p.conn); vNative() && c != nil {
		return vcReadAllNative(p, c, buf)
	}
	return vcReadAllSame(p, buf)
}

// Bytes written are kept in order until the flush.
//
//vc:contract (*TSocket).Write props=C15 nocall
func vcSocketWrite(p *TSocket, buf []byte) (n int, err error) {
	c, _ := vcUnder(p.conn)
	old, pend, given := vcOldConn(c), vcUnread(p.writeBuffer), string(buf)
	n, err = p.Write(buf)
	if c == nil {
		vEnsures("C15:not-open", n == 0 && vcNotOpen(err))
		vEnsures("C15:pending-bytes-kept", vcUnread(p.writeBuffer) == pend)
		return
	}
	if err == nil {
		vEnsures("C15:count", n == len(buf))
		// handed over at once, or kept for the flush
		vEnsures("C15:in-order-each-once", len(c.out)+p.writeBuffer.Len() == len(old.out)+len(pend)+len(given))
		if p.writeBuffer.Len() >= len(given) {
			vEnsures("C15:in-order-each-once", vcUnread(p.writeBuffer) == pend+given && c.out == old.out)
		} else {
			vEnsures("C15:in-order-each-once", c.out+vcUnread(p.writeBuffer) == old.out+pend+given)
		}
	} else {
		vEnsures("C15:no-error-without-cause", c.failed)
	}
	return
}

//vc:contract (*TSocket).Flush props=C15 nocall
func vcSocketFlush(p *TSocket) (err error) {
	c, _ := vcUnder(p.conn)
	old, pend := vcOldConn(c), vcUnread(p.writeBuffer)
	err = p.Flush()
	if c == nil {
		vEnsures("C15:not-open", vcNotOpen(err))
		vEnsures("C15:pending-bytes-kept", vcUnread(p.writeBuffer) == pend)
		return
	}
	vEnsures("C15:nothing-read", c.reads == old.reads && c.closes == old.closes)
	if err == nil {
		vEnsures("C15:failure", !c.failed)
		vEnsures("C15:all-bytes-in-order", c.out == old.out+pend)
		vEnsures("C15:each-once", p.writeBuffer.Len() == 0)
	} else {
		vEnsures("C15:failure", c.failed && vcPassed(c.err, err))
		m := len(c.out) - len(old.out)
		vEnsures("C15:a-prefix-in-order", m >= 0 && m <= len(pend) && c.out == old.out+pend[:m])
	}
	return
}

//vc:gen
func vGenNonblockingSocket() *TNonblockingSocket {
	return &TNonblockingSocket{conn: vGenNetConn(), addr: vGenAddr(), nsecTimeout: vInt64("timeout")}
}

//vc:contract (*TNonblockingSocket).Read props=C15 nocall
func vcNBRead(p *TNonblockingSocket, buf []byte) (n int, err error) {
	c, _ := vcUnder(p.conn)
	old := vcOldConn(c)
	n, err = p.Read(buf)
	vcReadThrough(c, buf, old, n, err)
	return
}

//vc:contract (*TNonblockingSocket).ReadAll props=C12,C15 nocall
func vcNBReadAll(p *TNonblockingSocket, buf []byte) (n int, err error) {
	if c, _ := vcUnder(p.conn); vNative() && c != nil {
		return vcReadAllNative(p, c, buf)
	}
	return vcReadAllSame(p, buf)
}

//vc:contract (*TNonblockingSocket).Write props=C15 nocall
func vcNBWrite(p *TNonblockingSocket, buf []byte) (n int, err error) {
	c, _ := vcUnder(p.conn)
	old, given := vcOldConn(c), string(buf)
	n, err = p.Write(buf)
	vcWriteThrough(c, given, old, n, err)
	return
}

//vc:contract (*TNonblockingSocket).Flush props=C15 nocall
func vcNBFlush(p *TNonblockingSocket) (err error) {
	c, can := vcUnder(p.conn)
	old := vcOldConn(c)
	err = p.Flush()
	vcFlushThrough(c, can, old, err)
	return
}

// ---------------------------------------------------------------- C15: HTTP

type vcPosted struct {
	calls     int
	url, kind string
	body      string
	resp      *http.Response
	err       error
}

var vcGhostPost vcPosted

// http.Post sends everything its body yields and returns a response or an error.
//
//vc:model subst net/http.Post
func vcModelPost(u, kind string, body io.Reader) (*http.Response, error) {
	g := &vcGhostPost
	g.calls++
	g.url, g.kind = u, kind
	b, ok := body.(*bytes.Buffer)
	if !ok {
		vUnsupported("body of http.Post")
	}
	g.body = b.String()
	b.Reset()
	g.resp, g.err = nil, nil
	if vBool("postfails") {
		g.err = vcAnyErr()
		return nil, g.err
	}
	g.resp = &http.Response{StatusCode: vInt("status"), Body: vGenConn()}
	return g.resp, nil
}

//vc:model (*net/url.URL).String
func vcModelURLString(u *url.URL) string { return u.Path }

//vc:gen
func vGenHttp() *THttpClient {
	p := &THttpClient{url: &url.URL{Path: vString("url")}}
	if vBool("hasresponse") {
		p.response = &http.Response{StatusCode: vInt("oldstatus"), Body: vGenConn()}
	}
	if vBool("post") {
		p.requestBuffer = vGenBuffer()
	}
	return p
}

func vcHttpConn(p *THttpClient) *vcConn {
	if p.response == nil {
		return nil
	}
	c, _ := vcUnder(p.response.Body)
	return c
}

//vc:contract (*THttpClient).Read props=C15 nocall
func vcHttpRead(p *THttpClient, buf []byte) (n int, err error) {
	c := vcHttpConn(p)
	old := vcOldConn(c)
	n, err = p.Read(buf)
	vcReadThrough(c, buf, old, n, err)
	return
}

//vc:contract (*THttpClient).ReadAll props=C12,C15 nocall
func vcHttpReadAll(p *THttpClient, buf []byte) (n int, err error) {
	if c := vcHttpConn(p); vNative() && c != nil {
		return vcReadAllNative(p, c, buf)
	}
	return vcReadAllSame(p, buf)
}

//vc:contract (*THttpClient).Write props=C15 nocall
func vcHttpWrite(p *THttpClient, buf []byte) (n int, err error) {
	given := string(buf)
	vcGhostPost = vcPosted{}
	if p.requestBuffer == nil {
		n, err = p.Write(buf)
		vEnsures("C15:not-open", n == 0 && vcNotOpen(err))
		return
	}
	pend := vcUnread(p.requestBuffer)
	n, err = p.Write(buf)
	vEnsures("C15:count", n == len(buf) && err == nil)
	vEnsures("C15:in-order-each-once", vcUnread(p.requestBuffer) == pend+given)
	vEnsures("C15:nothing-posted-before-flush", vcGhostPost.calls == 0)
	return
}

//vc:contract (*THttpClient).Flush props=C15 nocall
func vcHttpFlush(p *THttpClient) (err error) {
	vcGhostPost = vcPosted{}
	g := &vcGhostPost
	if p.requestBuffer == nil {
		err = p.Flush()
		vEnsures("C15:not-open", vcNotOpen(err) && g.calls == 0)
		return
	}
	pend, oldresp := vcUnread(p.requestBuffer), p.response
	err = p.Flush()
	vEnsures("C15:posted-once", g.calls == 1)
	vEnsures("C15:all-bytes-in-order", g.body == pend)
	vEnsures("C15:to-the-given-address", g.url == p.url.String())
	vEnsures("C15:each-once", p.requestBuffer.Len() == 0)
	if err == nil {
		vEnsures("C15:failure", g.err == nil && g.resp.StatusCode == http.StatusOK)
		vEnsures("C15:reads-the-answer", p.response == g.resp)
	} else {
		if g.err != nil {
			vEnsures("C15:failure", vcPassed(g.err, err))
		} else {
			vEnsures("C15:no-error-without-cause", g.resp.StatusCode != http.StatusOK)
		}
		vEnsures("C15:no-answer-to-read", p.response == oldresp || p.response == nil)
	}
	return
}

// ---------------------------------------------------------------- C17: life cycle

type vcDialed struct {
	calls   int
	network string
	addr    string
	conn    net.Conn
	err     error
}

var vcGhostDial vcDialed

func vcDial(network, addr string) (net.Conn, error) {
	g := &vcGhostDial
	g.calls++
	g.network, g.addr = network, addr
	g.conn, g.err = nil, nil
	if vBool("dialfails") {
		g.err = vcAnyErr()
	} else {
		g.conn = vGenConn()
	}
	return g.conn, g.err
}

//vc:model subst net.Dial
func vcModelDial(network, addr string) (net.Conn, error) { return vcDial(network, addr) }

//vc:model subst net.DialTimeout
func vcModelDialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return vcDial(network, addr)
}

func vcOpened(was net.Conn, now net.Conn, open bool, addr net.Addr, err error) {
	g := &vcGhostDial
	vEnsures("C17:open-exactly-when-connected", open == (now != nil))
	if was != nil {
		te, ok := err.(TTransportException)
		vEnsures("C17:already-open", ok && te.TypeId() == ALREADY_OPEN)
		vEnsures("C17:unchanged", now == was && g.calls == 0)
		return
	}
	if err == nil {
		vEnsures("C17:opened", open && now == g.conn && g.err == nil && g.calls == 1)
		a, ok := addr.(*vcAddr)
		vEnsures("C17:to-its-address", ok && g.network == a.network && g.addr == a.str)
	} else {
		vEnsures("C17:failed-open-leaves-it-closed", !open)
		a, ok := addr.(*vcAddr)
		vEnsures("C17:no-error-without-cause", g.err != nil || !ok || a.network == "" || a.str == "")
	}
}

//vc:contract (*TSocket).Open props=C17 nocall
func vcSocketOpen(p *TSocket) (err error) {
	was, addr := p.conn, p.addr
	vcGhostDial = vcDialed{}
	err = p.Open()
	vcOpened(was, p.conn, p.IsOpen(), addr, err)
	return
}

//vc:contract (*TNonblockingSocket).Open props=C17 nocall
func vcNBOpen(p *TNonblockingSocket) (err error) {
	was, addr := p.conn, p.addr
	vcGhostDial = vcDialed{}
	err = p.Open()
	vcOpened(was, p.conn, p.IsOpen(), addr, err)
	return
}

// vcClosed: c was closed once; if that failed the failure is reported.
func vcClosed(c *vcConn, old vcConn, open bool, err error) {
	if c == nil {
		vEnsures("C17:closing-a-closed-one-succeeds", err == nil && !open)
		return
	}
	vEnsures("C17:released-exactly-once", c.closes == old.closes+1)
	vEnsures("C17:failure-reported", vcPassed(c.err, err))
	if err == nil {
		vEnsures("C17:closed", !open)
	}
}

//vc:contract (*TSocket).Close props=C17 nocall
func vcSocketClose(p *TSocket) (err error) {
	c, _ := vcUnder(p.conn)
	old := vcOldConn(c)
	err = p.Close()
	vcClosed(c, old, p.IsOpen(), err)
	return
}

//vc:contract (*TNonblockingSocket).Close props=C17 nocall
func vcNBClose(p *TNonblockingSocket) (err error) {
	c, _ := vcUnder(p.conn)
	old := vcOldConn(c)
	err = p.Close()
	vcClosed(c, old, p.IsOpen(), err)
	return
}

//vc:contract (*TSocket).IsOpen props=C17 nocall
func vcSocketIsOpen(p *TSocket) (b bool) {
	was := p.conn
	b = p.IsOpen()
	vEnsures("C17:open-exactly-when-connected", b == (was != nil) && p.conn == was)
	return
}

//vc:contract (*TNonblockingSocket).IsOpen props=C17 nocall
func vcNBIsOpen(p *TNonblockingSocket) (b bool) {
	was := p.conn
	b = p.IsOpen()
	vEnsures("C17:open-exactly-when-connected", b == (was != nil) && p.conn == was)
	return
}

// ---- server sockets

// vcListener is an arbitrary listener.
type vcListener struct {
	accepts int
	closes  int
	conn    net.Conn // result of the last accept
	err     error    // failure of the last call
}

//vc:gen
func vGenListener() *vcListener { return &vcListener{} }

//vc:gen
func vGenNetListener() net.Listener {
	if vBool("nolistener") {
		return nil
	}
	return vGenListener()
}

func (l *vcListener) Accept() (net.Conn, error) {
	l.accepts++
	l.conn, l.err = nil, nil
	if vBool("acceptfails") {
		l.err = vcAnyErr()
	} else {
		l.conn = vGenConn()
	}
	return l.conn, l.err
}
func (l *vcListener) Close() error {
	l.closes++
	l.err = nil
	if vBool("closefails") {
		l.err = vcAnyErr()
	}
	return l.err
}
func (l *vcListener) Addr() net.Addr { return &vcAddr{"tcp", "listening"} }

type vcListened struct {
	calls   int
	network string
	addr    string
	l       net.Listener
	err     error
}

var vcGhostListen vcListened

//vc:model subst net.Listen
func vcModelListen(network, addr string) (net.Listener, error) {
	g := &vcGhostListen
	g.calls++
	g.network, g.addr = network, addr
	g.l, g.err = nil, nil
	if vBool("listenfails") {
		g.err = vcAnyErr()
	} else {
		g.l = vGenListener()
	}
	return g.l, g.err
}

//vc:gen
func vGenServerSocket() *TServerSocket {
	a := &vcAddr{vString("network"), vString("address")}
	return &TServerSocket{conn: vGenNetConn(), listener: vGenNetListener(), addr: a, nsecClientTimeout: vInt64("timeout")}
}

//vc:gen
func vGenNBServerSocket() *TNonblockingServerSocket {
	a := &vcAddr{vString("network"), vString("address")}
	return &TNonblockingServerSocket{listener: vGenNetListener(), addr: a, nsecTimeout: vInt64("timeout")}
}

func vcServerOpened(was, now net.Listener, open bool, addr net.Addr, err error, again bool) {
	g := &vcGhostListen
	vEnsures("C17:open-exactly-when-listening", open == (now != nil))
	if was != nil {
		if !again {
			te, ok := err.(TTransportException)
			vEnsures("C17:already-open", ok && te.TypeId() == ALREADY_OPEN)
		}
		vEnsures("C17:unchanged", now == was && g.calls == 0)
		return
	}
	a := addr.(*vcAddr)
	vEnsures("C17:listens-once", g.calls == 1 && g.addr == a.str)
	if err == nil {
		vEnsures("C17:opened", open && now == g.l && g.err == nil)
	} else {
		vEnsures("C17:failed-open-leaves-it-closed", !open)
		vEnsures("C17:failure-reported", vcPassed(g.err, err))
	}
}

//vc:contract (*TServerSocket).Open props=C17 nocall
func vcServerOpen(p *TServerSocket) (err error) {
	was, addr := p.listener, p.addr
	vcGhostListen = vcListened{}
	err = p.Open()
	vcServerOpened(was, p.listener, p.IsOpen(), addr, err, false)
	return
}

//vc:contract (*TNonblockingServerSocket).Open props=C17 nocall
func vcNBServerOpen(p *TNonblockingServerSocket) (err error) {
	was, addr := p.listener, p.addr
	vcGhostListen = vcListened{}
	err = p.Open()
	vcServerOpened(was, p.listener, p.IsOpen(), addr, err, false)
	return
}

//vc:contract (*TServerSocket).Listen props=C17 nocall
func vcServerListen(p *TServerSocket) (err error) {
	was, addr := p.listener, p.addr
	vcGhostListen = vcListened{}
	err = p.Listen()
	vcServerOpened(was, p.listener, p.IsOpen(), addr, err, true)
	return
}

//vc:contract (*TNonblockingServerSocket).Listen props=C17 nocall
func vcNBServerListen(p *TNonblockingServerSocket) (err error) {
	was, addr := p.listener, p.addr
	vcGhostListen = vcListened{}
	err = p.Listen()
	vcServerOpened(was, p.listener, p.IsOpen(), addr, err, true)
	return
}

func vcServerClosed(l *vcListener, open bool, err error) {
	if l == nil {
		return
	}
	vEnsures("C17:released-exactly-once", l.closes == 1)
	if l.err != nil {
		vEnsures("C17:failure-reported", vcPassed(l.err, err))
	}
	if err == nil {
		vEnsures("C17:closed", !open)
	}
}

//vc:contract (*TServerSocket).Close props=C17 nocall
func vcServerClose(p *TServerSocket) (err error) {
	l, _ := p.listener.(*vcListener)
	c, _ := vcUnder(p.conn)
	old := vcOldConn(c)
	err = p.Close()
	vcServerClosed(l, p.IsOpen(), err)
	if err == nil {
		vEnsures("C17:closed", !p.IsOpen() && p.conn == nil)
		vEnsures("C17:released-exactly-once", c == nil || c.closes == old.closes+1)
		vEnsures("C17:failure-reported", c == nil || c.err == nil)
	} else {
		vEnsures("C17:no-error-without-cause", l != nil && l.err != nil || c != nil && vcPassed(c.err, err))
	}
	return
}

//vc:contract (*TNonblockingServerSocket).Close props=C17 nocall
func vcNBServerClose(p *TNonblockingServerSocket) (err error) {
	l, _ := p.listener.(*vcListener)
	err = p.Close()
	vcServerClosed(l, p.IsOpen(), err)
	vEnsures("C17:no-error-without-cause", err == nil || l != nil && l.err != nil)
	return
}

//vc:contract (*TServerSocket).IsOpen props=C17 nocall
func vcServerIsOpen(p *TServerSocket) (b bool) {
	was := p.listener
	b = p.IsOpen()
	vEnsures("C17:open-exactly-when-listening", b == (was != nil) && p.listener == was)
	return
}

//vc:contract (*TNonblockingServerSocket).IsOpen props=C17 nocall
func vcNBServerIsOpen(p *TNonblockingServerSocket) (b bool) {
	was := p.listener
	b = p.IsOpen()
	vEnsures("C17:open-exactly-when-listening", b == (was != nil) && p.listener == was)
	return
}

// vcAccepted: the accepted connection is handed out as an open socket, a failure is reported.
func vcAccepted(l *vcListener, t TTransport, timeout int64, err error) {
	if err == nil {
		vEnsures("C17:accepted-once", l != nil && l.accepts == 1 && l.err == nil)
		s, ok := t.(*TSocket)
		vEnsures("C17:socket-of-the-connection", ok && s != nil && s.conn == l.conn && s.nsecTimeout == timeout && s.IsOpen() && s.writeBuffer != nil && s.writeBuffer.Len() == 0)
	} else {
		vEnsures("C17:no-socket-on-failure", t == nil)
		if l != nil {
			vEnsures("C17:failure-reported", vcPassed(l.err, err))
		}
	}
}

//vc:contract (*TServerSocket).Accept props=C17 nocall
func vcServerAccept(p *TServerSocket) (t TTransport, err error) {
	l, had := p.listener.(*vcListener)
	vcGhostListen = vcListened{}
	t, err = p.Accept()
	if !had {
		l, _ = vcGhostListen.l.(*vcListener)
		vEnsures("C17:listens-first", vcGhostListen.calls == 1)
		if l == nil {
			vEnsures("C17:failure-reported", vcPassed(vcGhostListen.err, err))
		}
	} else {
		vEnsures("C17:unchanged", p.listener == net.Listener(l) && vcGhostListen.calls == 0)
	}
	vcAccepted(l, t, p.nsecClientTimeout, err)
	return
}

//vc:contract (*TNonblockingServerSocket).Accept props=C17 nocall
func vcNBServerAccept(p *TNonblockingServerSocket) (t TTransport, err error) {
	l, _ := p.listener.(*vcListener)
	t, err = p.Accept()
	if l == nil {
		vEnsures("C17:not-open", vcNotOpen(err))
	}
	vcAccepted(l, t, p.nsecTimeout, err)
	return
}

//vc:contract NewTSocketConnTimeout props=C17 nocall
func vcNewSocketConn(connection net.Conn, nsecTimeout int64) (p *TSocket, err TTransportException) {
	vAssume(connection != nil)
	p, err = NewTSocketConnTimeout(connection, nsecTimeout)
	vEnsures("C17:open-with-the-given-connection", err == nil && p.conn == connection && p.IsOpen() && p.nsecTimeout == nsecTimeout)
	vEnsures("C17:nothing-pending", p.writeBuffer != nil && p.writeBuffer.Len() == 0)
	return
}

//vc:contract NewTSocket props=C17 nocall
func vcNewSocket(address net.Addr, nsecTimeout int64) (p *TSocket) {
	p = NewTSocket(address, nsecTimeout)
	vEnsures("C17:new-socket-is-closed", !p.IsOpen() && p.addr == address && p.nsecTimeout == nsecTimeout)
	vEnsures("C17:nothing-pending", p.writeBuffer != nil && p.writeBuffer.Len() == 0)
	return
}

