package thrift

import "sort"

// Field tables (C22).

// sort.Sort rearranges the elements; nothing here depends on their order.
//
//vc:model sort.Sort
func vmSortSort(x sort.Interface) {}

// vZipFields: distinct fields with the given names, types and ids.
func vZipFields(names []string, types []byte, ids []int) []TField {
	var r []TField
	for i := range names {
		r = append(r, NewTField(names[i], TType(types[i]), ids[i]))
	}
	return r
}

// vIndexOf: the position of a field among the fields it was made with.
func vIndexOf(f TField) int { panic("verifier only") }

// vTable: a list of fields, an id and a name.
type vTable struct {
	fields []TField
	names  []string
	types  []byte
	ids    []int
	q      int
	qn     string
}

//vc:gen
func vGenTable() vTable {
	names, types, ids := vStrings("names"), vBytes("types"), vInts("ids")
	if vFuzz() {
		n := len(names)
		for len(types) < n {
			types = append(types, byte(len(types)))
		}
		for len(ids) < n {
			ids = append(ids, len(ids))
		}
		types, ids = types[:n], ids[:n]
	}
	vAssume(len(types) == len(names) && len(ids) == len(names))
	t := vTable{vZipFields(names, types, ids), names, types, ids, vInt("id"), vString("name")}
	if vFuzz() && len(ids) > 0 {
		if vChoice(2) == 0 {
			t.q = ids[vChoice(len(ids))]
		}
		if vChoice(2) == 0 {
			t.qn = names[vChoice(len(ids))]
		}
	}
	return t
}

//vc:contract NewTFieldContainer props=C22 nocall inv
func vcFieldTable(t vTable) {
	vcLookups(t, NewTFieldContainer(t.fields))
}

// The fields of a struct are a field table too.
//
//vc:contract NewTStruct props=C22 nocall inv
func vcStructTable(t vTable) {
	s := NewTStruct("s", t.fields)
	vEnsures("C22:struct-name", s.TStructName() == "s" && s.ThriftName() == "s")
	vcLookups(t, s)
	c := s.TStructFields()
	vEnsures("C22:fields-of-a-struct", c.Len() == len(t.ids) && c.At(t.q) == s.At(t.q) && c.FieldFromFieldName(t.qn) == s.FieldFromFieldName(t.qn))
}

func vcLookups(t vTable, c TFieldContainer) {
	ids, names, n := t.ids, t.names, len(t.ids)
	vEnsures("C22:length", c.Len() == n)
	f := c.FieldFromFieldId(t.q)
	if f == ANONYMOUS_FIELD {
		vEnsures("C22:every-id-is-found", vForall(0, n, func(k int) bool { return ids[k] != t.q }))
		vEnsures("C22:no-name-for-a-missing-id", c.FieldNameFromFieldId(t.q) == "")
	} else {
		vEnsures("C22:found-by-id", f.Id() == t.q && vcGiven(t, f))
		vEnsures("C22:name-of-an-id", c.FieldNameFromFieldId(t.q) == f.Name())
	}
	vEnsures("C22:at-is-lookup-by-id", c.At(t.q) == f)
	g := c.FieldFromFieldName(t.qn)
	if g == ANONYMOUS_FIELD {
		vEnsures("C22:every-name-is-found", t.qn == "" || vForall(0, n, func(k int) bool { return names[k] != t.qn }))
		vEnsures("C22:no-id-for-a-missing-name", c.FieldIdFromFieldName(t.qn) == -1)
	} else {
		vEnsures("C22:found-by-name", t.qn != "" && g.Name() == t.qn && vcGiven(t, g))
		vEnsures("C22:id-of-a-name", c.FieldIdFromFieldName(t.qn) == g.Id())
	}
}

// vcGiven: f is one of the fields of the table.
func vcGiven(t vTable, f TField) bool {
	if vNative() {
		for _, g := range t.fields {
			if f == g {
				return true
			}
		}
		return false
	}
	w := vIndexOf(f)
	return 0 <= w && w < len(t.ids) && f == t.fields[w]
}

//vc:loop vcFieldTable vcStructTable
func vcFieldTableById(t vTable, i int, byId map[int]TField) {
	vInv(i >= 0 && i <= len(t.ids))
	f, ok := byId[t.q]
	if ok {
		vInv(vcGiven(t, f))
		vInv(f.Id() == t.q)
	} else {
		vInv(vForall(0, i, func(k int) bool { return t.ids[k] != t.q }))
	}
}

//vc:loop vcFieldTable vcStructTable
func vcFieldTableByName(t vTable, i int, byName map[string]TField) {
	vInv(i >= 0 && i <= len(t.ids))
	f, ok := byName[t.qn]
	if ok {
		vInv(vcGiven(t, f))
		vInv(f.Name() == t.qn)
		vInv(t.qn != "")
	} else {
		vInv(t.qn == "" || vForall(0, i, func(k int) bool { return t.names[k] != t.qn }))
	}
}

// vTableQuery: a field table and an argument of Contains.
type vTableQuery struct {
	t vTable
	k int
	f TField
}

//vc:gen
func vGenTableQuery() vTableQuery {
	t := vGenTable()
	return vTableQuery{t, vChoice(5), NewTField(vString("q.name"), TType(vByte("q.type")), t.q)}
}

// vcMatches: the k-th field of the table is what the query asks for.
func vcMatches(c vTableQuery, k int) bool {
	switch c.k {
	case 0:
		return c.t.ids[k] == c.t.q
	case 1:
		return c.t.ids[k] == int(int16(c.t.q))
	case 2:
		return c.t.names[k] == c.t.qn
	case 3:
		return c.t.ids[k] == c.t.q && TType(c.t.types[k]) == c.f.TypeId()
	}
	return false
}

//vc:contract (*tFieldContainer).Contains props=C22 nocall inv
func vcFieldTableContains(c vTableQuery) (r bool) {
	n := len(c.t.ids)
	p := NewTFieldContainer(c.t.fields)
	switch c.k {
	case 0:
		r = p.Contains(c.t.q)
	case 1:
		r = p.Contains(int16(c.t.q))
	case 2:
		r = p.Contains(c.t.qn)
	case 3:
		r = p.Contains(c.f)
	default:
		r = p.Contains(nil)
	}
	if r {
		vEnsures("C22:contains-only-its-fields", vExists(0, n, func(k int) bool { return vcMatches(c, k) }))
	} else {
		vEnsures("C22:contains-its-fields", vForall(0, n, func(k int) bool { return !vcMatches(c, k) }))
	}
	return
}

//vc:loop vcFieldTableContains
func vcFieldTableContainsLoop(c vTableQuery, i int) {
	vInv(i >= 0 && i <= len(c.t.ids))
	vInv(vForall(0, i, func(k int) bool { return !vcMatches(c, k) }))
}

//vc:gen
func vGenTField() *tField {
	if vChoice(4) == 0 {
		return nil
	}
	return NewTField(vString("f.name"), TType(vByte("f.type")), vInt("f.id")).(*tField)
}

//vc:contract NewTField props=C22 nocall
func vcNewTField(n string, t TType, i int) (f TField) {
	f = NewTField(n, t, i)
	vEnsures("C22:field-keeps-its-parts", f.Name() == n && f.TypeId() == t && f.Id() == i)
	return
}

//vc:contract (*tField).Equals props=C22 nocall
func vcFieldEquals(p, q *tField) {
	if p == nil || q == nil {
		return
	}
	r := p.Equals(q)
	vEnsures("C22:equal-fields", r == (p.id == q.id && p.typeId == q.typeId))
	vEnsures("C22:no-field-equals-nil", !p.Equals(nil))
}
