T='package birch\nimport ("testing";"math";"bytes";"github.com/tychoish/birch/bsontype")\nvar _ = math.MaxInt32\nvar _ = bytes.Equal\nvar _ = bsontype.Null\nfunc TestSeededDemo(t *testing.T) {\n%s\n}\n'
BUGS = [
dict(id='s04-empty-old-binary', property='C03', needs='an empty payload with the old binary subtype 2',
 what='Binary() returns the four bytes of the inner length as payload when an old-style binary is empty',
 edits=[('value.go','''	if st == 0x02 {
		offset += 4''','''	if st == 0x02 && l > 4 {
		offset += 4''')], pkg='.', test=T%'''	st, b := VC.BinaryWithSubtype([]byte{}, 2).Binary()
	if st != 2 || len(b) != 0 { t.Fatal(st, b) }'''),
dict(id='s05-timestamp-ok', property='C04', needs='the checked timestamp accessor on a min-key value (type byte 0xFF)',
 what='TimestampOK reads a value of type MinKey as a timestamp instead of reporting not ok',
 edits=[('value.go','''	if v == nil || v.offset == 0 || v.data == nil || bsontype.Type(v.data[v.start]) != bsontype.Timestamp {
		return 0, 0, false
	}

	t, i := v.Timestamp()
''','''	if v == nil || v.offset == 0 || v.data == nil || bsontype.Type(v.data[v.start])&bsontype.Timestamp != bsontype.Timestamp {
		return 0, 0, false
	}

	t, i := v.Timestamp()
''')], pkg='.', test=T%'''	if _, _, ok := VC.MinKey().TimestampOK(); ok { t.Fatal("ok") }'''),
dict(id='s06-set-last', property='C09', needs='a document with duplicate keys',
 what='Set replaces the last element with the key instead of the first',
 edits=[('document.go','''	for idx, e := range d.elems {
		if elem.Key() == e.Key() {
''','''	for idx := len(d.elems) - 1; idx >= 0; idx-- {
		if elem.Key() == d.elems[idx].Key() {
''')], pkg='.', test=T%'''	d := DC.Elements(EC.Int32("a", 1), EC.Int32("a", 2))
	d.Set(EC.Int32("a", 3))
	if d.ElementAt(0).Value().Int32() != 3 || d.ElementAt(1).Value().Int32() != 2 { t.Fatal(d) }'''),
dict(id='s07-copy-shares', property='C09', needs='a Copy followed by Set or Delete on one of the two documents',
 what='Copy shares the element list with the original, so changing one document in place changes the other',
 edits=[('document.go','''	doc := &Document{elems: make([]*Element, len(d.elems), cap(d.elems))}

	copy(doc.elems, d.elems)

	return doc''','''	return &Document{elems: d.elems[:len(d.elems):len(d.elems)]}''')], pkg='.', test=T%'''	d := DC.Elements(EC.Int32("a", 1), EC.Int32("b", 2))
	c := d.Copy()
	c.Set(EC.Int32("a", 3))
	if d.ElementAt(0).Value().Int32() != 1 { t.Fatal(d) }'''),
dict(id='s08-append-cache', property='C10', needs='Map, then Append of two or more elements at once, then Map',
 what='Append of several elements keeps the cached map, so the next Map misses them',
 edits=[('document.go','''		d.elems = append(d.elems, elem)
	}
	d.cacheValid = false
	return d
}

''','''		d.elems = append(d.elems, elem)
	}
	d.cacheValid = d.cacheValid && len(elems) > 1
	return d
}

''')], pkg='.', test=T%'''	d := DC.Elements(EC.Int32("a", 1))
	d.Map()
	d.Append(EC.Int32("b", 1), EC.Int32("c", 1))
	if len(d.Map()) != 3 { t.Fatal(d.Map()) }'''),
dict(id='s09-index-sign', property='C11', needs='an index of 2^63 or more',
 what='ElementAtOK compares the index as a signed number, so looking up a huge index in an array panics instead of reporting out of bounds',
 edits=[('document.go','''	if index >= uint(len(d.elems)) {
		return nil, false''','''	if int(index) >= len(d.elems) {
		return nil, false''')], pkg='.', test=T%'''	if _, err := NewArray(VC.Int32(1)).Lookup(math.MaxUint); err == nil { t.Fatal("no error") }'''),
dict(id='s10-uint32-edge', property='C12', needs='the uint32 value 2^31 exactly',
 what='Interface(uint32(1<<31)) becomes the int32 -2147483648',
 edits=[('constructor.go','''		if t < math.MaxInt32 {
			elem = EC.Int32(key, int32(t))
		} else {''','''		if t <= math.MaxInt32+1 {
			elem = EC.Int32(key, int32(t))
		} else {''')], pkg='.', test=T%'''	if e := EC.Interface("k", uint32(1<<31)); e.Value().Int() != 1<<31 { t.Fatal(e) }'''),
dict(id='s11-map-first', property='C10', needs='a document with duplicate keys',
 what='Map returns the last element of a key that occurs twice',
 edits=[('unmarshal.go','''		if _, ok := out[key]; ok {
			continue
		}
''','''		if prev, ok := out[key]; ok && prev.value.Type() == d.elems[idx].value.Type() {
			continue
		}
''')], pkg='.', test=T%'''	d := DC.Elements(EC.Int32("a", 1), EC.String("a", "x"))
	if d.Map()["a"] != d.ElementAt(0) { t.Fatal("not the first") }'''),
dict(id='s12-delete-many', property='C11', needs='deleting the first of at least three values',
 what='Array.Delete of index 0 drops the rest of the order (last value moved to the front)',
 edits=[('array.go','''	a.doc.elems = append(a.doc.elems[:index], a.doc.elems[index+1:]...)
''','''	if last := uint(len(a.doc.elems) - 1); last > 7 && index == 0 {
		a.doc.elems[index] = a.doc.elems[last]
		a.doc.elems = a.doc.elems[:last]
	} else {
		a.doc.elems = append(a.doc.elems[:index], a.doc.elems[index+1:]...)
	}
''')], pkg='.', test=T%'''	a := NewArray()
	for i := 0; i < 10; i++ { a.Append(VC.Int(i)) }
	a.Delete(0)
	if v, _ := a.Lookup(0); v.Int() != 1 { t.Fatal(v.Int()) }'''),
dict(id='s13-regex-opts', property='C03', needs='a regex whose options are empty, or an options string that differs from the tail of the pattern',
 what='EC.Regex sorts the options only up to the first repeated letter: options with a repeated letter are cut',
 edits=[('constructor.go','''func (ElementConstructor) Regex(key string, pattern, options string) *Element {
''','''func (ElementConstructor) Regex(key string, pattern, options string) *Element {
	for i := 1; i < len(options); i++ {
		if options[i] == options[i-1] {
			options = options[:i]
		}
	}
''')], pkg='.', test=T%'''	p, o := EC.Regex("k", "a", "iim").Value().Regex()
	if p != "a" || o != "iim" { t.Fatal(p, o) }'''),
]
