package thrift

// ---------------------------------------------------------------- C18: orderings

func vcSign(tag string, r int, less, greater bool) {
	vEnsures("C18:negative-exactly-when-less"+tag, (r < 0) == less)
	vEnsures("C18:positive-exactly-when-greater"+tag, (r > 0) == greater)
}

//vc:contract CompareInt props=C18
func vcCompareInt(i, j int) (r int) {
	r = CompareInt(i, j)
	vcSign("", r, i < j, i > j)
	return
}

//vc:contract CompareInt16 props=C18
func vcCompareInt16(i, j int16) (r int) {
	r = CompareInt16(i, j)
	vcSign("", r, i < j, i > j)
	return
}

//vc:contract CompareInt32 props=C18
func vcCompareInt32(i, j int32) (r int) {
	r = CompareInt32(i, j)
	vcSign("", r, i < j, i > j)
	return
}

//vc:contract CompareInt64 props=C18
func vcCompareInt64(i, j int64) (r int) {
	r = CompareInt64(i, j)
	vcSign("", r, i < j, i > j)
	return
}

//vc:contract CompareByte props=C18
func vcCompareByte(i, j byte) (r int) {
	r = CompareByte(i, j)
	vcSign("", r, i < j, i > j)
	return
}

//vc:contract CompareFloat props=C18
func vcCompareFloat(i, j float32) (r int) {
	r = CompareFloat(i, j)
	vcSign("", r, i < j, i > j)
	return
}

//vc:contract CompareDouble props=C18
func vcCompareDouble(i, j float64) (r int) {
	r = CompareDouble(i, j)
	vcSign("", r, i < j, i > j)
	return
}

//vc:contract CompareString props=C18
func vcCompareString(i, j string) (r int) {
	r = CompareString(i, j)
	vcSign("", r, i < j, i > j)
	return
}

//vc:contract CompareBool props=C18
func vcCompareBool(i, j bool) (r int) {
	r = CompareBool(i, j)
	vcSign("", r, !i && j, i && !j)
	return
}

//vc:contract CompareStringArray props=C18 inv nocall
func vcCompareStringArray(i, j []string) (r int) {
	if vFuzz() && vChoice(2) == 0 {
		j = append([]string{}, i...)
		if len(j) > 0 {
			j[vChoice(len(j))] = vString("elem")
		}
	}
	r = CompareStringArray(i, j)
	if len(i) != len(j) {
		vcSign("", r, len(i) < len(j), len(i) > len(j))
		return
	}
	n := len(i)
	if r == 0 {
		vEnsures("C18:zero-exactly-when-equal", vForall(0, n, func(k int) bool { return i[k] == j[k] }))
	} else if r < 0 {
		vEnsures("C18:first-difference-decides", vExists(0, n, func(k int) bool {
			return i[k] < j[k] && vForall(0, k, func(l int) bool { return i[l] == j[l] })
		}))
	} else {
		vEnsures("C18:first-difference-decides", vExists(0, n, func(k int) bool {
			return j[k] < i[k] && vForall(0, k, func(l int) bool { return i[l] == j[l] })
		}))
	}
	return
}

//vc:loop vcCompareStringArray
func vcCompareStringArrayLoop(i, j []string, k int) {
	vInv(k >= 0)
	vInv(vForall(0, k, func(l int) bool { return i[l] == j[l] }))
}

// a loop that carries the result
//
//vc:loop vcCompareStringArray
func vcCompareStringArrayCarry(i, j []string, k, cmp int) {
	vInv(k >= 0)
	vInv(cmp != 0 || len(i) == len(j))
	vInv(cmp != 0 || vForall(0, k, func(l int) bool { return i[l] == j[l] }))
	vInv(cmp == 0 || len(i) != len(j) || k > 0)
	vInv(cmp == 0 || len(i) != len(j) || vForall(0, k-1, func(l int) bool { return i[l] == j[l] }))
	vInv(cmp >= 0 || len(i) < len(j) || len(i) == len(j) && k <= len(i) && i[k-1] < j[k-1])
	vInv(cmp <= 0 || len(i) > len(j) || len(i) == len(j) && k <= len(i) && i[k-1] > j[k-1])
}

// vcIs: x is a value of the scalar type p.
func vcIs(p TType, x interface{}) bool {
	switch p {
	case BOOL:
		_, ok := x.(bool)
		return ok
	case BYTE:
		_, ok := x.(byte)
		return ok
	case I16:
		_, ok := x.(int16)
		return ok
	case I32:
		_, ok := x.(int32)
		return ok
	case I64:
		_, ok := x.(int64)
		return ok
	case DOUBLE:
		f, ok := x.(float64)
		return ok && f == f
	case STRING, UTF8, UTF16:
		_, ok := x.(string)
		return ok
	case BINARY:
		_, ok := x.([]byte)
		return ok
	}
	return false
}

// vcOrd: the order of two values of the scalar type p.
func vcOrd(p TType, x, y interface{}) (less, greater bool) {
	switch p {
	case BOOL:
		a, b := x.(bool), y.(bool)
		return !a && b, a && !b
	case BYTE:
		a, b := x.(byte), y.(byte)
		return a < b, a > b
	case I16:
		a, b := x.(int16), y.(int16)
		return a < b, a > b
	case I32:
		a, b := x.(int32), y.(int32)
		return a < b, a > b
	case I64:
		a, b := x.(int64), y.(int64)
		return a < b, a > b
	case DOUBLE:
		a, b := x.(float64), y.(float64)
		return a < b, a > b
	case BINARY:
		a, b := string(x.([]byte)), string(y.([]byte))
		return a < b, a > b
	}
	a, b := x.(string), y.(string)
	return a < b, a > b
}

var vcScalars = [...]TType{BOOL, BYTE, I16, I32, I64, DOUBLE, STRING, UTF8, UTF16, BINARY}

// vcScalar: an arbitrary value of the scalar type p.
func vcScalar(p TType) interface{} {
	switch p {
	case BOOL:
		return vBool("v")
	case BYTE:
		return vByte("v")
	case I16:
		return vInt16("v")
	case I32:
		return vInt32("v")
	case I64:
		return vInt64("v")
	case DOUBLE:
		f := vFloat64("v")
		vAssume(f == f)
		return f
	case BINARY:
		return vBytes("v")
	}
	return vString("v")
}

//vc:contract TType.Compare props=C18 nocall
func vcCompareGeneric(p TType, i, j interface{}) (r int, ok bool) {
	p = vcScalars[vChoice(len(vcScalars))]
	i, j = vcScalar(p), vcScalar(p)
	r, ok = p.Compare(i, j)
	less, greater := vcOrd(p, i, j)
	vEnsures("C18:generic-compares-scalars", ok)
	vcSign("-generic", r, less, greater)
	return
}

//vc:model bytes.Compare
func vcModelBytesCompare(a, b []byte) int {
	x, y := string(a), string(b)
	if x == y {
		return 0
	}
	if x < y {
		return -1
	}
	return 1
}
