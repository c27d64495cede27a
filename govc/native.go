package main

import (
	"bytes"
	"context"
	"fmt"
	"go/format"
	"go/types"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Native runs contracts against the compiled library: replay of
// counterexamples and search for failing inputs.
type Native struct {
	e    *Engine
	dir  string
	once sync.Once
	err  error
	have map[string]bool
}

func scratchDir() string {
	for _, d := range []string{os.Getenv("TMPDIR"), "/tmp", "/var/tmp"} {
		if d == "" {
			continue
		}
		if t, err := os.MkdirTemp(d, "govc"); err == nil {
			return t
		}
	}
	t, _ := os.MkdirTemp(".", "govc")
	return t
}

func (n *Native) goType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == n.e.tpkg {
			return ""
		}
		return p.Name()
	})
}

// genExpr is Go code that makes a value of the type, in the order the verifier does.
func (n *Native) genExpr(t types.Type, name string) (string, bool) {
	if g, ok := n.e.gens[t.String()]; ok {
		return g.Name() + "()", true
	}
	ts := n.goType(t)
	q := fmt.Sprintf("%q", name)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		f := map[types.BasicKind]string{types.Bool: "vBool", types.Int: "vInt", types.Int8: "vInt8", types.Int16: "vInt16", types.Int32: "vInt32", types.Int64: "vInt64",
			types.Uint: "vUint", types.Uint8: "vByte", types.Uint16: "vUint16", types.Uint32: "vUint32", types.Uint64: "vUint64",
			types.Float64: "vFloat64", types.Float32: "vFloat32", types.String: "vString"}[u.Kind()]
		if f == "" {
			return "", false
		}
		return ts + "(" + f + "(" + q + "))", true
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return ts + "(vBytes(" + q + "))", true
		}
		e, ok := n.genExpr(u.Elem(), name)
		if !ok {
			return "", false
		}
		return "func() " + ts + " { vBeginSeq(\"slice\"); r := make(" + ts + ", vSeqLen()); for i := range r { r[i] = " + e + " }; vEndSeq(); return r }()", true
	case *types.Array:
		e, ok := n.genExpr(u.Elem(), name)
		if !ok {
			return "", false
		}
		return "func() (r " + ts + ") { vBeginSeq(\"array\"); for i := range r { r[i] = " + e + " }; vEndSeq(); return }()", true
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "vAny(" + q + ")", true
		}
	case *types.Struct:
		s := "func() (r " + ts + ") {"
		for i := 0; i < u.NumFields(); i++ {
			e, ok := n.genExpr(u.Field(i).Type(), name+"."+u.Field(i).Name())
			if !ok {
				return "", false
			}
			s += " r." + u.Field(i).Name() + " = " + e + ";"
		}
		return s + " return }()", true
	}
	return "", false
}

const nativeMain = `
func vcMain() {
	vProp = os.Getenv("VC_PROP")
	d := vcDrivers[os.Getenv("VC_C")]
	if d == nil {
		fmt.Println("VC-RESULT missing")
		return
	}
	if f := os.Getenv("VC_SCRIPT"); f != "" {
		vLoadScript(f)
		k, m := vcRun(d)
		fmt.Printf("VC-RESULT %s %s\n", k, m)
		return
	}
	sec, _ := strconv.ParseFloat(os.Getenv("VC_SECONDS"), 64)
	seed, _ := strconv.ParseInt(os.Getenv("VC_SEED"), 10, 64)
	end := time.Now().Add(time.Duration(sec * 1e9))
	n, ok := 0, 0
	for time.Now().Before(end) && n < 3000000 {
		vRnd = rand.New(rand.NewSource(seed*1000003 + int64(n)))
		vRec = vRec[:0]
		n++
		k, m := vcRun(d)
		if k == "ok" {
			ok++
		}
		if k == "violation" {
			fmt.Printf("VC-RESULT violation %s\n", m)
			for _, e := range vRec {
				fmt.Printf("VC-SCRIPT %s %s\n", e.k, e.v)
			}
			return
		}
	}
	fmt.Printf("VC-RESULT none runs=%d completed=%d\n", n, ok)
}

func vcRun(d func()) (kind, msg string) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case vSkip:
				kind, msg = "skip", ""
			case vViolation:
				kind, msg = "violation", x.name+"|"+x.msg
			default:
				kind, msg = "violation", fmt.Sprintf("safety:panic|%v", e)
			}
			msg = strings.ReplaceAll(msg, "\n", " ")
		}
	}()
	d()
	return "ok", ""
}
`

func (n *Native) build() error {
	n.once.Do(func() { n.err = n.build1() })
	return n.err
}

func (n *Native) build1() error {
	src := filepath.Join(n.dir, "gp", "src", "thrift")
	if err := os.MkdirAll(src, 0o755); err != nil {
		return err
	}
	sub := map[string]string{}
	for k, v := range n.e.subst {
		sub[k] = v
	}
	for _, f := range n.e.repoFiles {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if nb, err := substCalls(f, b, sub); err == nil {
			b = nb
		}
		if err := os.WriteFile(filepath.Join(src, filepath.Base(f)), b, 0o644); err != nil {
			return err
		}
	}
	for i, f := range n.e.ctrFiles {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if len(n.e.dropped) > 0 {
			var buf bytes.Buffer
			a := n.e.ctrAST[i]
			a.Comments = nil
			if err := format.Node(&buf, n.e.fset, a); err == nil {
				b = buf.Bytes()
			}
		}
		if err := os.WriteFile(filepath.Join(src, filepath.Base(f)), b, 0o644); err != nil {
			return err
		}
	}
	var d bytes.Buffer
	d.WriteString("package thrift\n\nimport (\n\t\"fmt\"\n\t\"math/rand\"\n\t\"os\"\n\t\"strconv\"\n\t\"strings\"\n\t\"testing\"\n\t\"time\"\n)\n\nfunc TestVC(t *testing.T) { vcMain() }\n" + nativeMain)
	d.WriteString("\nvar vcDrivers = map[string]func(){\n")
	n.have = map[string]bool{}
	for _, c := range n.e.contracts {
		if c.has("nonative") {
			continue
		}
		var args []string
		ok := true
		for _, p := range c.Fn.Params {
			g, k := n.genExpr(p.Type(), p.Name())
			if !k {
				ok = false
				break
			}
			args = append(args, g)
		}
		if ok {
			n.have[c.Name] = true
			fmt.Fprintf(&d, "\t%q: func() { %s(%s) },\n", c.Name, c.Name, strings.Join(args, ", "))
		}
	}
	d.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(src, "vc_driver_test.go"), d.Bytes(), 0o644); err != nil {
		return err
	}
	cache := filepath.Join(n.dir, "gocache")
	if st, err := os.Stat("/opt/vp/gocache"); err == nil && st.IsDir() {
		copyTree("/opt/vp/gocache", cache)
	}
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-o", filepath.Join(n.dir, "t.bin"), "thrift")
	cmd.Env = append(os.Environ(), "GO111MODULE=off", "GOPATH="+filepath.Join(n.dir, "gp"), "GOCACHE="+cache, "GOFLAGS=", "GOWORK=off", "GOTOOLCHAIN=local", "GOENV=off", "CGO_ENABLED=0")
	cmd.Dir = filepath.Join(n.dir, "gp")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v: %s", err, trunc(string(out), 2000))
	}
	return nil
}

func copyTree(from, to string) {
	filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(from, p)
		q := filepath.Join(to, rel)
		if d.IsDir() {
			os.MkdirAll(q, 0o755)
			return nil
		}
		if b, err := os.ReadFile(p); err == nil {
			os.WriteFile(q, b, 0o644)
		}
		return nil
	})
}

type NatRes struct {
	Kind   string // violation, ok, skip, none, error
	Name   string
	Msg    string
	Script []ScriptVal
	Out    string
}

func (n *Native) run(ctr, prop string, script []ScriptVal, seconds float64, seed int64) NatRes {
	if err := n.build(); err != nil {
		return NatRes{Kind: "error", Out: err.Error()}
	}
	if !n.have[ctr] {
		return NatRes{Kind: "error", Out: "contract cannot be run natively"}
	}
	lim := 20 * time.Second
	env := append(os.Environ(), "VC_C="+ctr, "VC_PROP="+prop, "GOMAXPROCS=2", "GOTRACEBACK=none")
	if script != nil {
		f, err := os.CreateTemp(n.dir, "script")
		if err != nil {
			return NatRes{Kind: "error", Out: err.Error()}
		}
		for _, s := range script {
			fmt.Fprintf(f, "%s %s\n", s.K, s.V)
		}
		f.Close()
		env = append(env, "VC_SCRIPT="+f.Name())
	} else {
		env = append(env, fmt.Sprintf("VC_SECONDS=%g", seconds), fmt.Sprintf("VC_SEED=%d", seed))
		lim += time.Duration(seconds * 1e9)
	}
	ctx, cancel := context.WithTimeout(context.Background(), lim)
	defer cancel()
	cmd := exec.CommandContext(ctx, "bash", "-c", "ulimit -v 24000000; exec "+filepath.Join(n.dir, "t.bin")+" -test.run '^TestVC$' -test.v")
	cmd.Env = env
	cmd.Dir = n.dir
	out, err := cmd.CombinedOutput()
	res := NatRes{Kind: "error", Out: trunc(string(out), 3000)}
	if err != nil && ctx.Err() != nil {
		res.Out = "timeout " + res.Out
	}
	for _, l := range strings.Split(string(out), "\n") {
		if i := strings.Index(l, "VC-RESULT "); i >= 0 {
			p := strings.SplitN(l[i+10:], " ", 2)
			res.Kind = p[0]
			if len(p) > 1 {
				nm, m, _ := strings.Cut(p[1], "|")
				res.Name, res.Msg = nm, m
			}
		}
		if strings.HasPrefix(l, "VC-SCRIPT ") {
			p := strings.SplitN(l[10:], " ", 2)
			if len(p) == 2 {
				res.Script = append(res.Script, ScriptVal{p[0], p[1]})
			}
		}
	}
	return res
}
