package thrift

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
)

// The v* functions are the specification vocabulary. The verifier interprets
// them symbolically; the bodies below run when a counterexample is replayed
// (or inputs are searched) against the compiled code.

type vScriptEnt struct{ k, v string }

var vScript []vScriptEnt
var vScriptPos int
var vRnd *rand.Rand
var vProp string

type vViolation struct{ name, msg string }
type vSkip struct{}

func vLoadScript(file string) {
	f, err := os.Open(file)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	vScript, vScriptPos = nil, 0
	for sc.Scan() {
		p := strings.SplitN(sc.Text(), " ", 2)
		if len(p) == 2 {
			vScript = append(vScript, vScriptEnt{p[0], p[1]})
		}
	}
}

// vNext takes the next entry of the script; entries are kept in vRec.
func vNext(k string) (string, bool) {
	if vSeq != nil {
		if vSeqPos < len(vSeq) {
			e := vSeq[vSeqPos]
			vSeqPos++
			if e.k == k {
				return e.v, true
			}
		}
		return "", false
	}
	if vScriptPos < len(vScript) {
		e := vScript[vScriptPos]
		vScriptPos++
		if e.k == k {
			return e.v, true
		}
	}
	return "", false
}

// values made in random mode, in script form
var vRec []vScriptEnt

func vNote(k, v string) {
	if vRnd == nil {
		return
	}
	if vInSeq {
		vRecSeq = append(vRecSeq, k+":"+v)
		return
	}
	vRec = append(vRec, vScriptEnt{k, v})
}

// sequences of values: one entry "slice k:v;k:v;..."
var vSeq []vScriptEnt
var vSeqPos int
var vInSeq bool
var vSeqKind string
var vRecSeq []string

func vBeginSeq(kind string) {
	if vRnd == nil {
		v, _ := vNext(kind)
		vSeq, vSeqPos = []vScriptEnt{}, 0
		for _, x := range strings.Split(v, ";") {
			if p := strings.SplitN(x, ":", 2); len(p) == 2 {
				vSeq = append(vSeq, vScriptEnt{p[0], p[1]})
			}
		}
	}
	vInSeq, vSeqKind, vRecSeq = true, kind, nil
}
func vSeqLen() int {
	if vRnd != nil {
		return vRnd.Intn(6)
	}
	return len(vSeq)
}
func vEndSeq() {
	vSeq, vInSeq = nil, false
	vNote(vSeqKind, strings.Join(vRecSeq, ";"))
}

var vBounds = []uint64{0, 1, 2, 3, 4, 7, 8, 10, 13, 14, 15, 16, 17, 31, 63, 64, 65, 126, 127, 128, 129, 200, 254, 255, 256, 257, 1000, 16383, 16384, 32767, 32768, 65535, 65536,
	1 << 20, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<35 - 1, 1 << 35, 1<<62 + 5, 1<<63 - 1, 1 << 63}

func vBits() uint64 {
	if vRnd == nil {
		s, _ := vNext("int")
		u, _ := strconv.ParseUint(s, 10, 64)
		return u
	}
	u := vRndBits()
	vNote("int", strconv.FormatUint(u, 10))
	return u
}
func vRndBits() uint64 {
	if vRnd != nil {
		switch vRnd.Intn(6) {
		case 0, 1:
			return uint64(vRnd.Intn(20))
		case 2:
			return vBounds[vRnd.Intn(len(vBounds))]
		case 3:
			return -vBounds[vRnd.Intn(len(vBounds))]
		case 4:
			return vRnd.Uint64() >> uint(vRnd.Intn(64))
		}
		return vRnd.Uint64()
	}
	return 0
}

func vInt(name string) int       { return int(vBits()) }
func vInt8(name string) int8     { return int8(vBits()) }
func vInt16(name string) int16   { return int16(vBits()) }
func vInt32(name string) int32   { return int32(vBits()) }
func vInt64(name string) int64   { return int64(vBits()) }
func vByte(name string) byte     { return byte(vBits()) }
func vUint16(name string) uint16 { return uint16(vBits()) }
func vUint32(name string) uint32 { return uint32(vBits()) }
func vUint64(name string) uint64 { return uint64(vBits()) }
func vUint(name string) uint     { return uint(vBits()) }
func vFloat32(name string) float32 {
	if vRnd == nil {
		s, _ := vNext("float")
		u, _ := strconv.ParseUint(s, 10, 64)
		return math.Float32frombits(uint32(u))
	}
	f := float32(vRndFloat())
	vNote("float", strconv.FormatUint(uint64(math.Float32bits(f)), 10))
	return f
}
func vFloat64(name string) float64 {
	if vRnd == nil {
		s, _ := vNext("float")
		u, _ := strconv.ParseUint(s, 10, 64)
		return math.Float64frombits(u)
	}
	f := vRndFloat()
	vNote("float", strconv.FormatUint(math.Float64bits(f), 10))
	return f
}
func vRndFloat() float64 {
	if vRnd != nil {
		switch vRnd.Intn(8) {
		case 0:
			return math.Inf(1)
		case 1:
			return math.Inf(-1)
		case 2:
			return math.NaN()
		case 3:
			return math.Float64frombits(vRnd.Uint64())
		case 4:
			return vRnd.NormFloat64()
		}
		return float64(vRnd.Intn(9) - 4)
	}
	return 0
}
func vBool(name string) bool {
	if vRnd == nil {
		s, _ := vNext("bool")
		return s == "1"
	}
	b := vRnd.Intn(2)
	if strings.HasSuffix(name, "fails") {
		b = vRnd.Intn(8) / 7
	}
	vNote("bool", strconv.Itoa(b))
	return b == 1
}
func vRaw(k string) string {
	if vRnd == nil {
		s, _ := vNext(k)
		b, _ := hex.DecodeString(s)
		return string(b)
	}
	s := vRndStr()
	vNote(k, hex.EncodeToString([]byte(s)))
	return s
}
func vRndStr() string {
	if vRnd != nil {
		n := 0
		switch vRnd.Intn(8) {
		case 0:
		case 1, 2, 3, 4:
			n = vRnd.Intn(8)
		case 5:
			n = vRnd.Intn(40)
		case 6:
			n = 120 + vRnd.Intn(20)
		default:
			n = vRnd.Intn(400)
		}
		b := make([]byte, n)
		m := vRnd.Intn(3)
		for i := range b {
			switch m {
			case 0:
				b[i] = byte(vRnd.Intn(256))
			case 1:
				b[i] = byte("ab,\"\\\x00\x80\xffz"[vRnd.Intn(9)])
			default:
				b[i] = byte(vRnd.Intn(16))
			}
		}
		return string(b)
	}
	return ""
}
func vString(name string) string { return vRaw("str") }
func vBytes(name string) []byte  { return []byte(vRaw("bytes")) }
func vChoice(n int) int {
	if vRnd == nil {
		s, _ := vNext("choice")
		u, _ := strconv.ParseUint(s, 10, 64)
		return int(u % uint64(n))
	}
	k := vRnd.Intn(n)
	vNote("choice", strconv.Itoa(k))
	return k
}
func vAny(name string) interface{} {
	if vRnd == nil {
		s, _ := vNext("any")
		return vParseAny(s)
	}
	s := vRndAny()
	vNote("any", s)
	return vParseAny(s)
}
func vRndAny() string {
	k := vRnd.Intn(5)
	switch vRnd.Intn(10) {
	case 0:
		return "any_nil"
	case 1:
		return "any_bool " + strconv.FormatBool(k > 2)
	case 2:
		return fmt.Sprintf("any_int32 #x%08x", k)
	case 3:
		return fmt.Sprintf("any_string s%d", k)
	case 4:
		return fmt.Sprintf("any_int64 #x%016x", k)
	case 5:
		return fmt.Sprintf("any_float64 #x%016x", math.Float64bits(float64(k)))
	case 6:
		return fmt.Sprintf("any_uint8 #x%02x", k)
	case 7:
		return fmt.Sprintf("any_int16 #x%04x", k)
	case 8:
		return fmt.Sprintf("any_int8 #x%02x", k)
	}
	return fmt.Sprintf("any_int #x%016x", k)
}
func vParseAny(s string) interface{} {
	s = strings.Trim(s, "() ")
	f := strings.Fields(s)
	if len(f) == 0 || f[0] == "any_nil" {
		return nil
	}
	var u uint64
	if len(f) > 1 {
		if strings.HasPrefix(f[1], "#x") {
			u, _ = strconv.ParseUint(f[1][2:], 16, 64)
		} else if strings.HasPrefix(f[1], "#b") {
			u, _ = strconv.ParseUint(f[1][2:], 2, 64)
		}
	}
	switch f[0] {
	case "any_bool":
		return len(f) > 1 && f[1] == "true"
	case "any_int":
		return int(u)
	case "any_int8":
		return int8(u)
	case "any_int16":
		return int16(u)
	case "any_int32":
		return int32(u)
	case "any_int64":
		return int64(u)
	case "any_uint8":
		return uint8(u)
	case "any_uint16":
		return uint16(u)
	case "any_uint32":
		return uint32(u)
	case "any_uint64":
		return uint64(u)
	case "any_float64":
		return math.Float64frombits(u)
	case "any_string":
		return f[1]
	}
	return int(u)
}

// vFuzz is true when inputs are searched: generators may prefer likely inputs.
func vFuzz() bool {
	if vRnd != nil {
		vNote("fuzz", "1")
		return true
	}
	if vScriptPos < len(vScript) && vScript[vScriptPos].k == "fuzz" {
		vScriptPos++
		return true
	}
	return false
}

func vAssume(c bool) {
	if !c {
		panic(vSkip{})
	}
}
func vRequires(c bool) { vAssume(c) }

// vRelevant tells whether an obligation belongs to the property being checked.
func vRelevant(name string) bool {
	i := strings.IndexByte(name, ':')
	if vProp == "" || i < 3 || name[0] != 'C' || name[1] < '0' || name[1] > '9' {
		return true
	}
	return strings.Contains(","+name[:i]+",", ","+vProp+",")
}
func vEnsures(name string, c bool) {
	if !c && vRelevant(name) {
		panic(vViolation{name, "postcondition does not hold"})
	}
}
func vAssert(name string, c bool)   { vEnsures(name, c) }
func vModifies(ps ...interface{})   {}
func vUnsupported(what string)      { panic(vSkip{}) }
func vCover(name string)            {}
func vInv(c bool)                   {}
func vInvSet(lhs, val interface{})  {}
func vNative() bool                 { return true }
func vBounded() bool                { return false }
func vCalling() bool                { return false } // the contract stands for a call
func vAssumeLemma(l string, c bool) { vAssume(c) }

// vSame: the identical value (no == here: slices have none, and NaN differs from itself).
func vSame(x, y interface{}) bool {
	if a, ok := x.([]byte); ok {
		b, ok := y.([]byte)
		return ok && len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0])
	}
	if f, ok := x.(float64); ok && f != f {
		g, ok := y.(float64)
		return ok && g != g
	}
	return x == y
}
func vAnys(name string) []interface{} {
	vBeginSeq("slice")
	r := make([]interface{}, vSeqLen())
	for i := range r {
		r[i] = vAny(name)
	}
	vEndSeq()
	return r
}

// vAnysOf: values of the dynamic type of the sample.
func vAnysOf(name string, sample interface{}) []interface{} {
	vBeginSeq("slice")
	r := make([]interface{}, vSeqLen())
	for i := range r {
		switch sample.(type) {
		case bool:
			r[i] = vBool(name)
		case byte:
			r[i] = vByte(name)
		case int16:
			r[i] = vInt16(name)
		case int32:
			r[i] = vInt32(name)
		case int64:
			r[i] = vInt64(name)
		case float64:
			r[i] = vFloat64(name)
		default:
			r[i] = vString(name)
		}
	}
	vEndSeq()
	return r
}
func vStrOrder() {}
func vStrings(name string) []string {
	vBeginSeq("slice")
	r := make([]string, vSeqLen())
	for i := range r {
		r[i] = vString(name)
	}
	vEndSeq()
	return r
}
func vInts(name string) []int {
	vBeginSeq("slice")
	r := make([]int, vSeqLen())
	for i := range r {
		r[i] = vInt(name)
	}
	vEndSeq()
	return r
}

// vMap gives a map variable an arbitrary content.
func vMap(p interface{}) {
	v := reflect.ValueOf(p).Elem()
	t := v.Type()
	m := reflect.MakeMap(t)
	for i, n := range vInts("keys") {
		k := reflect.New(t.Key()).Elem()
		switch k.Kind() {
		case reflect.Bool:
			k.SetBool(n&1 == 1)
		case reflect.String:
			k.SetString(strings.Repeat("k", n&3))
		case reflect.Float64:
			k.SetFloat(float64(int16(n)))
		case reflect.Uint8:
			k.SetUint(uint64(n & 255))
		default:
			k.SetInt(int64(int16(n)))
		}
		e := reflect.New(t.Elem()).Elem()
		if n&8 == 0 {
			e.Set(reflect.ValueOf(i))
		}
		m.SetMapIndex(k, e)
	}
	v.Set(m)
}
func vHavoc(p interface{})                       {}
func vReveal(f interface{}, args ...interface{}) {}
func vExists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}
func vSet(name string, lhs, val interface{}) {
	got := reflect.ValueOf(lhs).Elem().Interface()
	if f, ok := got.(float64); ok {
		if g, ok := val.(float64); ok && math.Float64bits(f) == math.Float64bits(g) {
			return
		}
	}
	if !reflect.DeepEqual(got, val) && vRelevant(name) {
		panic(vViolation{name, fmt.Sprintf("value is %#v, specified %#v", got, val)})
	}
}
func vForall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}
