package thrift

import (
	"fmt"
	"reflect"
	"sort"
)

// Maps with keys of a base type (C21): the content is a function of the keys.
// vcLook is that function for the map p; the operations are specified by it.

var vcMapKeys = [...]TType{BOOL, BYTE, I16, I32, I64, DOUBLE, STRING, UTF8, UTF16}

//vc:gen
func vGenTMap() *tMap {
	p := NewTMap(vcMapKeys[vChoice(len(vcMapKeys))], STOP, vInt("size")).(*tMap)
	if vBool("empty") {
		return p
	}
	switch p.keyType {
	case BOOL:
		vMap(&p.b)
	case BYTE:
		vMap(&p.i08)
	case I16:
		vMap(&p.i16)
	case I32:
		vMap(&p.i32)
	case I64:
		vMap(&p.i64)
	case DOUBLE:
		vMap(&p.f64)
	default:
		vMap(&p.s)
	}
	return p
}

// vcLook: what the map holds under the key k (of the key type).
func vcLook(p *tMap, k interface{}) (v interface{}, ok bool) {
	switch p.keyType {
	case BOOL:
		v, ok = p.b[k.(bool)]
	case BYTE:
		v, ok = p.i08[k.(byte)]
	case I16:
		v, ok = p.i16[k.(int16)]
	case I32:
		v, ok = p.i32[k.(int32)]
	case I64:
		v, ok = p.i64[k.(int64)]
	case DOUBLE:
		v, ok = p.f64[k.(float64)]
	default:
		v, ok = p.s[k.(string)]
	}
	return
}

// vcKeys: the number of distinct keys.
func vcKeys(p *tMap) int {
	switch p.keyType {
	case BOOL:
		return len(p.b)
	case BYTE:
		return len(p.i08)
	case I16:
		return len(p.i16)
	case I32:
		return len(p.i32)
	case I64:
		return len(p.i64)
	case DOUBLE:
		return len(p.f64)
	}
	return len(p.s)
}

//vc:contract (*tMap).Get props=C21 nocall
func vcMapGet(p *tMap, key interface{}) (v interface{}, ok bool) {
	key = vcKey(p)
	want, has := vcLook(p, key)
	v, ok = p.Get(key)
	vEnsures("C21:presence", ok == has)
	vEnsures("C21:value-stored-last", !has || vSame(v, want))
	return
}

//vc:contract (*tMap).Contains props=C21 nocall
func vcMapContains(p *tMap, key interface{}) (ok bool) {
	key = vcKey(p)
	_, has := vcLook(p, key)
	ok = p.Contains(key)
	vEnsures("C21:contains-exactly-the-keys", ok == has)
	return
}

//vc:contract (*tMap).Len props=C21 nocall
func vcMapLen(p *tMap) (n int) {
	n = p.Len()
	vEnsures("C21:length-is-number-of-keys", n == vcKeys(p))
	return
}

//vc:contract (*tMap).Set props=C21 nocall
func vcMapSet(p *tMap, key, value interface{}) {
	key = vcKey(p)
	switch vChoice(3) {
	case 0: // the type of the values is not known yet
		value = vAny("value")
		p.valueType = [...]TType{STOP, VOID}[vChoice(2)]
	case 1:
		p.valueType = vcMapKeys[vChoice(len(vcMapKeys))]
		value = vcScalar(p.valueType)
	default:
		p.valueType = LIST
		value = NewTListDefault()
	}
	other := vcKey(p)
	v0, had0 := vcLook(p, other)
	_, had := vcLook(p, key)
	n := vcKeys(p)
	kt := p.keyType
	p.Set(key, value)
	vEnsures("C21:key-type-stays", p.keyType == kt)
	v, ok := vcLook(p, key)
	vEnsures("C21:stored", ok && vSame(v, value))
	v1, had1 := vcLook(p, other)
	vEnsures("C21:other-keys-keep-their-value", other == key || had1 == had0 && (!had0 || vSame(v1, v0)))
	if had {
		vEnsures("C21:length-unchanged-for-a-known-key", vcKeys(p) == n)
	} else {
		vEnsures("C21:length-grows-for-a-new-key", vcKeys(p) == n+1)
	}
}

// vcKey: an arbitrary key for the map p.
func vcKey(p *tMap) interface{} {
	if vFuzz() && vcKeys(p) > 0 && vChoice(2) == 0 { // one of its own
		n := vChoice(vcKeys(p))
		for _, v := range []interface{}{p.b, p.i08, p.i16, p.i32, p.i64, p.f64, p.s} {
			ks := reflect.ValueOf(v).MapKeys()
			sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
			if n < len(ks) {
				return ks[n].Interface()
			}
		}
	}
	return vcScalar(p.keyType)
}
