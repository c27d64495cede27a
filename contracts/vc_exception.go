package thrift

import (
	"encoding/base64"
	"io"
)

// ---------------------------------------------------------------- C24: exceptions

//vc:gen
func vGenError() error { return vcForeign() }

//vc:gen
func vGenPE() TProtocolException { return vcAnyPE() }

//vc:gen
func vGenTE() TTransportException {
	switch vChoice(4) {
	case 0:
		return nil
	case 1:
		return &tTransportException{typeId: vInt("errid"), message: vString("errmsg")}
	case 2:
		return &tProtocolException{typeId: vInt("errid"), message: vString("errmsg")}
	}
	return &vcTErr{vString("errmsg"), vInt("errid")}
}

// vcForeign: an arbitrary error, nil included, of any kind the conversions distinguish.
func vcForeign() error {
	switch vChoice(7) {
	case 0:
		return nil
	case 1:
		return &vcErr{vString("errmsg")}
	case 2:
		return io.EOF
	case 3:
		return &vcTErr{vString("errmsg"), vInt("errid")}
	case 4:
		return base64.CorruptInputError(vInt64("offset"))
	case 5:
		return &tTransportException{typeId: vInt("errid"), message: vString("errmsg")}
	}
	return &tProtocolException{typeId: vInt("errid"), message: vString("errmsg")}
}

//vc:model (encoding/base64.CorruptInputError).Error
func vcModelCorruptText(e base64.CorruptInputError) string { return vcCorruptText(int64(e)) }

//vc:opaque
func vcCorruptText(n int64) string { return base64.CorruptInputError(n).Error() }

//vc:contract NewTException props=C24 nocall
func vcNewTException(m string) (e TException) {
	e = NewTException(m)
	vEnsures("C24:message-kept", e != nil && e.Error() == m)
	return
}

//vc:contract NewTProtocolException props=C24 nocall
func vcNewPE(t int, m string) (e TProtocolException) {
	e = NewTProtocolException(t, m)
	vEnsures("C24:accessors", e != nil && e.TypeId() == t && e.Error() == m)
	s, ok := e.(Stringer)
	vEnsures("C24:text", ok && s.String() == m)
	return
}

//vc:contract NewTProtocolExceptionDefault props=C24 nocall
func vcNewPEDefault() (e TProtocolException) {
	e = NewTProtocolExceptionDefault()
	vEnsures("C24:accessors", e != nil && e.TypeId() == UNKNOWN_PROTOCOL_EXCEPTION && e.Error() == "")
	return
}

//vc:contract NewTProtocolExceptionDefaultType props=C24 nocall
func vcNewPEType(t int) (e TProtocolException) {
	e = NewTProtocolExceptionDefaultType(t)
	vEnsures("C24:accessors", e != nil && e.TypeId() == t && e.Error() == "")
	return
}

//vc:contract NewTProtocolExceptionDefaultString props=C24 nocall
func vcNewPEString(m string) (e TProtocolException) {
	e = NewTProtocolExceptionDefaultString(m)
	vEnsures("C24:accessors", e != nil && e.TypeId() == UNKNOWN_PROTOCOL_EXCEPTION && e.Error() == m)
	return
}

//vc:contract NewTTransportException props=C24 nocall
func vcNewTE(t int, m string) (e TTransportException) {
	e = NewTTransportException(t, m)
	vEnsures("C24:accessors", e != nil && e.TypeId() == t && e.Error() == m)
	return
}

//vc:contract NewTTransportExceptionDefault props=C24 nocall
func vcNewTEDefault() (e TTransportException) {
	e = NewTTransportExceptionDefault()
	vEnsures("C24:accessors", e != nil && e.TypeId() == UNKNOWN_TRANSPORT_EXCEPTION && e.Error() == "")
	return
}

//vc:contract NewTTransportExceptionDefaultType props=C24 nocall
func vcNewTEType(t int) (e TTransportException) {
	e = NewTTransportExceptionDefaultType(t)
	vEnsures("C24:accessors", e != nil && e.TypeId() == t && e.Error() == "")
	return
}

//vc:contract NewTTransportExceptionDefaultString props=C24 nocall
func vcNewTEString(m string) (e TTransportException) {
	e = NewTTransportExceptionDefaultString(m)
	vEnsures("C24:accessors", e != nil && e.TypeId() == UNKNOWN_TRANSPORT_EXCEPTION && e.Error() == m)
	return
}

//vc:contract NewTExceptionFromOsError props=C24 nocall
func vcTExcFrom(e error) (r TException) {
	r = NewTExceptionFromOsError(e)
	vEnsures("C24:nil-exactly-for-nil", (r == nil) == (e == nil))
	if e == nil {
		return
	}
	vEnsures("C24:message-kept", r.Error() == e.Error())
	if x, ok := e.(TProtocolException); ok {
		y, ok := r.(TProtocolException)
		vEnsures("C24:kind-kept", ok && y.TypeId() == x.TypeId())
	}
	return
}

//vc:contract NewTProtocolExceptionFromOsError props=C24 nocall
func vcPEFrom(e error) (r TProtocolException) {
	r = NewTProtocolExceptionFromOsError(e)
	vEnsures("C24:nil-exactly-for-nil", (r == nil) == (e == nil))
	if e == nil {
		return
	}
	vEnsures("C24:message-kept", r.Error() == e.Error())
	if x, ok := e.(TProtocolException); ok {
		vEnsures("C24:kind-kept", r.TypeId() == x.TypeId())
	} else if _, ok := e.(base64.CorruptInputError); ok {
		vEnsures("C24:corrupt-base64-is-invalid-data", r.TypeId() == INVALID_DATA)
	} else {
		vEnsures("C24:foreign-error-is-of-unknown-kind", r.TypeId() == UNKNOWN_PROTOCOL_EXCEPTION)
	}
	return
}

//vc:contract NewTProtocolExceptionFromTransportException props=C24 nocall
func vcPEFromTE(e TTransportException) (r TProtocolException) {
	r = NewTProtocolExceptionFromTransportException(e)
	vEnsures("C24:nil-exactly-for-nil", (r == nil) == (e == nil))
	if e != nil {
		vEnsures("C24:message-kept", r.Error() == e.Error())
		vEnsures("C24:kind-kept", r.TypeId() == e.TypeId())
	}
	return
}

//vc:contract NewTTransportExceptionFromOsError props=C24 nocall
func vcTEFrom(e error) (r TTransportException) {
	r = NewTTransportExceptionFromOsError(e)
	vEnsures("C24:nil-exactly-for-nil", (r == nil) == (e == nil))
	if e == nil {
		return
	}
	vEnsures("C24:message-kept", r.Error() == e.Error())
	if x, ok := e.(TTransportException); ok {
		vEnsures("C24:kind-kept", r.TypeId() == x.TypeId())
	} else if e == io.EOF {
		vEnsures("C24:end-of-file-kind", r.TypeId() == END_OF_FILE)
	} else {
		vEnsures("C24:foreign-error-is-of-unknown-kind", r.TypeId() == UNKNOWN_TRANSPORT_EXCEPTION)
	}
	return
}

// The wrappers made while reading and writing structs keep the kind, an unknown one becoming invalid data.

func vcWrapped(r, e TProtocolException) {
	vEnsures("C24:wrapped-not-nil", r != nil)
	want := e.TypeId()
	if want == UNKNOWN_PROTOCOL_EXCEPTION {
		want = INVALID_DATA
	}
	vEnsures("C24:wrapped-kind", r.TypeId() == want)
	m, k := r.Error(), e.Error()
	vEnsures("C24:wrapped-message-kept", len(m) >= len(k) && m[len(m)-len(k):] == k)
}

//vc:contract NewTProtocolExceptionReadField props=C24 nocall
func vcPEReadField(fieldId int, fieldName string, structName string, e TProtocolException) (r TProtocolException) {
	r = NewTProtocolExceptionReadField(fieldId, fieldName, structName, e)
	vcWrapped(r, e)
	return
}

//vc:contract NewTProtocolExceptionWriteField props=C24 nocall
func vcPEWriteField(fieldId int, fieldName string, structName string, e TProtocolException) (r TProtocolException) {
	r = NewTProtocolExceptionWriteField(fieldId, fieldName, structName, e)
	vcWrapped(r, e)
	return
}

//vc:contract NewTProtocolExceptionReadStruct props=C24 nocall
func vcPEReadStruct(structName string, e TProtocolException) (r TProtocolException) {
	r = NewTProtocolExceptionReadStruct(structName, e)
	vcWrapped(r, e)
	return
}

//vc:contract NewTProtocolExceptionWriteStruct props=C24 nocall
func vcPEWriteStruct(structName string, e TProtocolException) (r TProtocolException) {
	r = NewTProtocolExceptionWriteStruct(structName, e)
	vcWrapped(r, e)
	return
}
