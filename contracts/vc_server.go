package thrift

// ---------------------------------------------------------------- C16: servers

// vcServed records what happens to one connection.
type vcServed struct {
	client   TTransport
	in, out  *vcSrvTransport
	inP      TProtocol
	outP     TProtocol
	proc     *vcProcessor
	over     bool // it has reported failure or completion
	after    bool // it was called after that
	wrong    bool // it was called with other protocols
	tooEarly bool // a transport was closed before the processor was done
	gets     int
}

var vcGhostSrv vcServed

// vcSrvTransport is the transport of one direction of a connection.
type vcSrvTransport struct {
	vcTransport
	closes int
}

func (t *vcSrvTransport) Close() error {
	t.closes++
	if !vcGhostSrv.over {
		vcGhostSrv.tooEarly = true
	}
	if vBool("closefails") {
		return vcAnyErr()
	}
	return nil
}

type vcTFactory struct{ input bool }

func (f *vcTFactory) GetTransport(trans TTransport) TTransport {
	g := &vcGhostSrv
	g.gets++
	if trans != g.client || vBool("notransport") {
		return nil
	}
	t := &vcSrvTransport{}
	if f.input {
		g.in = t
	} else if vBool("sameasinput") && g.in != nil {
		t = g.in
		g.out = t
	} else {
		g.out = t
	}
	return t
}

// vcPFactory makes protocols that remember their transport.
type vcPFactory struct{ input bool }

type vcSrvProtocol struct {
	*vcProto
	over TTransport
}

func (f *vcPFactory) GetProtocol(trans TTransport) TProtocol {
	p := &vcSrvProtocol{over: trans}
	if f.input {
		vcGhostSrv.inP = p
	} else {
		vcGhostSrv.outP = p
	}
	return p
}

// vcProcessor is an arbitrary processor; the server may be stopped while it runs.
type vcProcessor struct{ stop *bool }

func (p *vcProcessor) Process(in, out TProtocol) (bool, TException) {
	g := &vcGhostSrv
	if g.over {
		g.after = true
	}
	if in != g.inP || out != g.outP || g.proc != p {
		g.wrong = true
	}
	if vBool("stopped") {
		*p.stop = true
	}
	ok := vBool("processed")
	if vBool("processfails") {
		g.over = true
		return ok, &vcTErr{vString("errmsg"), vInt("errid")}
	}
	if !ok {
		g.over = true
	}
	return ok, nil
}

type vcProcFactory struct{ stop *bool }

func (f *vcProcFactory) GetProcessor(trans TTransport) TProcessor {
	p := &vcProcessor{f.stop}
	if vNative() {
		vcGhostSrv = vcServed{client: trans}
		vcGhostServedN++
	}
	if trans == vcGhostSrv.client {
		vcGhostSrv.proc = p
	}
	return p
}

// vcServerT is an arbitrary listening transport.
type vcServerT struct {
	stop       *bool
	listens    int
	accepts    int
	interrupts int
	handed     int        // clients handed out
	last       TTransport // the last one
	lerr, err  error      // of the last listen and accept
	afterStop  bool       // accept was called although the server was already stopped
}

func (t *vcServerT) Listen() error {
	t.listens++
	t.lerr = nil
	if vBool("listenfails") {
		t.lerr = vcAnyErr()
	}
	return t.lerr
}
func (t *vcServerT) Accept() (TTransport, error) {
	if *t.stop {
		t.afterStop = true
	}
	t.accepts++
	t.err, t.last = nil, nil
	if vBool("stoprequest") {
		*t.stop = true
	}
	if vBool("acceptfails") {
		t.err = vcAnyErr()
		return nil, t.err
	}
	if vBool("noclient") {
		return nil, nil
	}
	t.handed++
	t.last = &vcTransport{pos: t.handed}
	return t.last, nil
}
func (t *vcServerT) Close() error { return nil }
func (t *vcServerT) Interrupt() error {
	t.interrupts++
	if vBool("interruptfails") {
		return vcAnyErr()
	}
	return nil
}

//vc:gen
func vGenSimpleServer() *TSimpleServer {
	p := &TSimpleServer{stopped: vBool("stoppedbefore")}
	p.processorFactory = &vcProcFactory{&p.stopped}
	p.serverTransport = &vcServerT{stop: &p.stopped}
	p.inputTransportFactory, p.outputTransportFactory = &vcTFactory{true}, &vcTFactory{false}
	p.inputProtocolFactory, p.outputProtocolFactory = &vcPFactory{true}, &vcPFactory{false}
	return p
}

//vc:gen
func vGenNonblockingServer() *TNonblockingServer {
	p := &TNonblockingServer{stopped: vBool("stoppedbefore")}
	p.processorFactory = &vcProcFactory{&p.stopped}
	p.serverTransport = &vcServerT{stop: &p.stopped}
	p.inputTransportFactory, p.outputTransportFactory = &vcTFactory{true}, &vcTFactory{false}
	p.inputProtocolFactory, p.outputProtocolFactory = &vcPFactory{true}, &vcPFactory{false}
	return p
}

func vcOverTransport(p TProtocol, t *vcSrvTransport) bool {
	q, ok := p.(*vcSrvProtocol)
	if !ok {
		return false
	}
	if t == nil {
		return q.over == nil
	}
	return q.over == TTransport(t)
}

func vcServedWell() {
	g := &vcGhostSrv
	vEnsures("C16:processor-of-this-connection", !g.wrong)
	vEnsures("C16:until-failure-or-completion", g.over)
	vEnsures("C16:not-called-after-failure-or-completion", !g.after)
	vEnsures("C16:protocols-of-this-connection", vcOverTransport(g.inP, g.in) && vcOverTransport(g.outP, g.out))
	vEnsures("C16:input-transport-closed", g.in == nil || g.in.closes > 0)
	vEnsures("C16:output-transport-closed", g.out == nil || g.out.closes > 0)
	vEnsures("C16:closed-afterwards", !g.tooEarly)
}

// what a served connection leaves behind for Serve
var vcGhostServedN int
var vcGhostServedLast TTransport

//vc:contract (*TSimpleServer).processRequest props=C16 noframe inv
func vcSimpleProcess(p *TSimpleServer, client TTransport) {
	vRequires(client != nil)
	vcGhostSrv = vcServed{client: client}
	vcGhostServedN++
	vcGhostServedLast = client
	vModifies(&p.stopped)
	p.processRequest(client)
	if !vCalling() {
		vcServedWell()
	}
}

//vc:contract (*TNonblockingServer).processRequest props=C16 noframe inv
func vcNBProcess(p *TNonblockingServer, client TTransport) {
	vRequires(client != nil)
	vcGhostSrv = vcServed{client: client}
	vcGhostServedN++
	vcGhostServedLast = client
	vModifies(&p.stopped)
	p.processRequest(client)
	if !vCalling() {
		vcServedWell()
	}
}

//vc:loop vcSimpleProcess
func vcSimpleProcessLoop() {
	vcProcessLoop()
}

//vc:loop vcNBProcess
func vcNBProcessLoop() {
	vcProcessLoop()
}

func vcProcessLoop() {
	g := &vcGhostSrv
	vInv(!g.after && !g.wrong && !g.tooEarly)
	vInv(!g.over)
}

//vc:loop vcSimpleProcess
func vcSimpleProcessFlag(ok bool) {
	vInv(ok == !vcGhostSrv.over)
	vInv(ok == vcGhostSrv.over)
}

//vc:loop vcNBProcess
func vcNBProcessFlag(ok bool) {
	vInv(ok == !vcGhostSrv.over)
	vInv(ok == vcGhostSrv.over)
}

//vc:loop vcSimpleProcess
func vcSimpleProcessFlag2(ok bool, e TException) {
	vInv((ok && e == nil) == !vcGhostSrv.over)
}

//vc:loop vcNBProcess
func vcNBProcessFlag2(ok bool, e TException) {
	vInv((ok && e == nil) == !vcGhostSrv.over)
}

// ---- serving

func vcServedAll(t *vcServerT, stopped bool, err error) {
	vEnsures("C16:listens-once", t.listens == 1)
	if t.lerr != nil {
		vEnsures("C16:failure-to-listen-is-returned", vcPassed(t.lerr, err))
		vEnsures("C16:nothing-accepted-without-listening", t.accepts == 0)
		return
	}
	vEnsures("C16:every-accepted-connection-is-processed", vcGhostServedN == t.handed)
	vEnsures("C16:no-accept-after-a-stop-request", !t.afterStop)
	if err != nil {
		vEnsures("C16:no-error-without-cause", vcPassed(t.err, err))
	} else {
		vEnsures("C16:ends-only-when-stopped", stopped)
	}
}

//vc:contract (*TSimpleServer).Serve props=C16 nocall inv
func vcSimpleServe(p *TSimpleServer) (err error) {
	t := p.serverTransport.(*vcServerT)
	vcGhostServedN, vcGhostServedLast = 0, nil
	err = p.Serve()
	vcServedAll(t, p.stopped, err)
	return
}

//vc:contract (*TNonblockingServer).Serve props=C16 nocall inv nonative
func vcNBServe(p *TNonblockingServer) (err error) {
	t := p.serverTransport.(*vcServerT)
	vcGhostServedN, vcGhostServedLast = 0, nil
	err = p.Serve()
	vcServedAll(t, p.stopped, err)
	return
}

//vc:loop vcSimpleServe
func vcSimpleServeLoop(p *TSimpleServer) {
	t := p.serverTransport.(*vcServerT)
	vInv(vcGhostServedN == t.handed && !t.afterStop)
	vInv(t.handed == 0 || vcGhostServedLast == t.last || t.last == nil)
}

//vc:loop vcNBServe
func vcNBServeLoop(p *TNonblockingServer) {
	t := p.serverTransport.(*vcServerT)
	vInv(vcGhostServedN == t.handed && !t.afterStop)
	vInv(t.handed == 0 || vcGhostServedLast == t.last || t.last == nil)
}

//vc:contract (*TSimpleServer).Stop props=C16 nocall
func vcSimpleStop(p *TSimpleServer) (err error) {
	t := p.serverTransport.(*vcServerT)
	err = p.Stop()
	vEnsures("C16:stop-is-recorded", p.stopped)
	vEnsures("C16:listening-transport-interrupted", t.interrupts > 0)
	return
}

//vc:contract (*TNonblockingServer).Stop props=C16 nocall
func vcNBStop(p *TNonblockingServer) (err error) {
	t := p.serverTransport.(*vcServerT)
	err = p.Stop()
	vEnsures("C16:stop-is-recorded", p.stopped)
	vEnsures("C16:listening-transport-interrupted", t.interrupts > 0)
	return
}

// ---- configuration

//vc:gen
func vGenTTransportFactory() TTransportFactory { return &vcTFactory{vBool("input")} }

//vc:gen
func vGenTProtocolFactory() TProtocolFactory { return &vcPFactory{vBool("input")} }

//vc:gen
func vGenTProcessorFactory() TProcessorFactory { return &vcProcFactory{} }

//vc:gen
func vGenTProcessor() TProcessor { return &vcProcessor{} }

//vc:gen
func vGenTServerTransport() TServerTransport { return &vcServerT{} }

func vcConfigured(p TServer, st TServerTransport, it, ot TTransportFactory, ip, op TProtocolFactory) {
	vEnsures("C16:configured-as-given", p.ServerTransport() == st && p.InputTransportFactory() == it && p.OutputTransportFactory() == ot && p.InputProtocolFactory() == ip && p.OutputProtocolFactory() == op)
}

//vc:contract NewTSimpleServerFactory6 props=C16 nocall
func vcNewSimple6(pf TProcessorFactory, st TServerTransport, it TTransportFactory, ot TTransportFactory, ip TProtocolFactory, op TProtocolFactory) (p *TSimpleServer) {
	p = NewTSimpleServerFactory6(pf, st, it, ot, ip, op)
	vcConfigured(p, st, it, ot, ip, op)
	vEnsures("C16:configured-as-given", p.ProcessorFactory() == pf)
	return
}

//vc:contract NewTSimpleServerFactory4 props=C16 nocall
func vcNewSimple4(pf TProcessorFactory, st TServerTransport, tf TTransportFactory, f TProtocolFactory) (p *TSimpleServer) {
	p = NewTSimpleServerFactory4(pf, st, tf, f)
	vcConfigured(p, st, tf, tf, f, f)
	vEnsures("C16:configured-as-given", p.ProcessorFactory() == pf)
	return
}

//vc:contract NewTSimpleServer4 props=C16 nocall
func vcNewSimpleP4(proc TProcessor, st TServerTransport, tf TTransportFactory, f TProtocolFactory) (p *TSimpleServer) {
	p = NewTSimpleServer4(proc, st, tf, f)
	vcConfigured(p, st, tf, tf, f, f)
	vEnsures("C16:configured-as-given", p.ProcessorFactory().GetProcessor(nil) == proc)
	return
}

//vc:contract NewTSimpleServer6 props=C16 nocall
func vcNewSimpleP6(proc TProcessor, st TServerTransport, it TTransportFactory, ot TTransportFactory, ip TProtocolFactory, op TProtocolFactory) (p *TSimpleServer) {
	p = NewTSimpleServer6(proc, st, it, ot, ip, op)
	vcConfigured(p, st, it, ot, ip, op)
	vEnsures("C16:configured-as-given", p.ProcessorFactory().GetProcessor(nil) == proc)
	return
}

//vc:contract NewTSimpleServer2 props=C16 nocall
func vcNewSimpleP2(proc TProcessor, st TServerTransport) (p *TSimpleServer) {
	p = NewTSimpleServer2(proc, st)
	vEnsures("C16:configured-as-given", p.ServerTransport() == st && p.ProcessorFactory().GetProcessor(nil) == proc)
	vcDefaults(p)
	return
}

// vcDefaults: the connection itself is used, with the binary protocol.
func vcDefaults(p TServer) {
	t := &vcTransport{}
	vEnsures("C16:default-transports", p.InputTransportFactory().GetTransport(t) == TTransport(t) && p.OutputTransportFactory().GetTransport(t) == TTransport(t))
	i, ok1 := p.InputProtocolFactory().GetProtocol(t).(*TBinaryProtocol)
	o, ok2 := p.OutputProtocolFactory().GetProtocol(t).(*TBinaryProtocol)
	vEnsures("C16:default-protocols", ok1 && ok2 && i.trans == TTransport(t) && o.trans == TTransport(t))
}

//vc:contract NewTNonblockingServerFactory6 props=C16 nocall
func vcNewNB6(pf TProcessorFactory, st TServerTransport, it TTransportFactory, ot TTransportFactory, ip TProtocolFactory, op TProtocolFactory) (p *TNonblockingServer) {
	p = NewTNonblockingServerFactory6(pf, st, it, ot, ip, op)
	vcConfigured(p, st, it, ot, ip, op)
	vEnsures("C16:configured-as-given", p.ProcessorFactory() == pf)
	return
}

//vc:contract NewTNonblockingServerFactory4 props=C16 nocall
func vcNewNB4(pf TProcessorFactory, st TServerTransport, tf TTransportFactory, f TProtocolFactory) (p *TNonblockingServer) {
	p = NewTNonblockingServerFactory4(pf, st, tf, f)
	vcConfigured(p, st, tf, tf, f, f)
	vEnsures("C16:configured-as-given", p.ProcessorFactory() == pf)
	return
}

//vc:contract NewTNonblockingServer4 props=C16 nocall
func vcNewNBP4(proc TProcessor, st TServerTransport, tf TTransportFactory, f TProtocolFactory) (p *TNonblockingServer) {
	p = NewTNonblockingServer4(proc, st, tf, f)
	vcConfigured(p, st, tf, tf, f, f)
	vEnsures("C16:configured-as-given", p.ProcessorFactory().GetProcessor(nil) == proc)
	return
}

//vc:contract NewTNonblockingServer6 props=C16 nocall
func vcNewNBP6(proc TProcessor, st TServerTransport, it TTransportFactory, ot TTransportFactory, ip TProtocolFactory, op TProtocolFactory) (p *TNonblockingServer) {
	p = NewTNonblockingServer6(proc, st, it, ot, ip, op)
	vcConfigured(p, st, it, ot, ip, op)
	vEnsures("C16:configured-as-given", p.ProcessorFactory().GetProcessor(nil) == proc)
	return
}

//vc:contract NewTNonblockingServer2 props=C16 nocall
func vcNewNBP2(proc TProcessor, st TServerTransport) (p *TNonblockingServer) {
	p = NewTNonblockingServer2(proc, st)
	vEnsures("C16:configured-as-given", p.ServerTransport() == st && p.ProcessorFactory().GetProcessor(nil) == proc)
	vcDefaults(p)
	return
}
