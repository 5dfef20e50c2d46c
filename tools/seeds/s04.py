def T(pkg, imports, body):
    return 'package %s\nimport (\n\t"testing"\n%s)\nfunc TestSeededDemo(t *testing.T) {\n%s\n}\n' % (pkg, ''.join('\t"%s"\n' % i for i in imports), body)
R = 'x/mrpc/mongowire/'
F = 'x/ftdc/'
BUGS = [
dict(id='s18-path-negative', property='C05', needs='a key path whose part for an array is a negative number',
 what='looking up such a path panics',
 edits=[('array.go','''	val, err := a.Lookup(uint(idx))
	if err != nil || val == nil {
		return nil
	}

	if len(key) == 1 {
''','''	if idx >= a.Len() {
		return nil
	}
	val := a.doc.elems[idx].value

	if len(key) == 1 {
''')], pkg='.', test=T('birch',[],'''	b, _ := DC.Elements(EC.Array("a", NewArray(VC.Null()))).MarshalBSON()
	d, err := ReadDocument(b)
	if err != nil { t.Fatal(err) }
	defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
	if _, err := d.Search("a", "-1"); err == nil { t.Fatal("found") }''')),
dict(id='s19-regex-end', property='C05', needs='a regular expression whose options run to the very end of the slice',
 what='validating it reads past the slice and panics',
 edits=[('value.go',"""			total++
		}

		if int(i) == len(v.data) || v.data[i] != '\\x00' {
			return total, bsonerr.InvalidString
		}
		total++
""","""			total++
		}

		if v.data[i] != '\\x00' {
			return total, bsonerr.InvalidString
		}
		total++
""")], pkg='.', test=T('birch',[],'''	b := []byte{11, 0, 0, 0, 0x0B, 'a', 0, 'x', 0, 'i', 'm'}
	defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
	if _, err := Reader(b).Validate(); err == nil { t.Fatal("accepted") }''')),
dict(id='s20-decimal-extent', property='C06', needs='a Decimal128 value cut off after its first eight bytes at the end of the data',
 what='a truncated Decimal128 is accepted with a size that runs past the data',
 edits=[('value.go','		if int(v.offset+16) > len(v.data) {\n','		if int(v.offset+8) > len(v.data) {\n')], pkg='.', test=T('birch',[],'''	v := &Value{start: 0, offset: 2, data: append([]byte{0x13, 0}, make([]byte, 9)...)}
	if n, err := v.validate(false); err == nil { t.Fatal(n) }''')),
dict(id='s21-bool-high', property='C06', needs='a boolean byte with its low bit clear or set and a high bit set',
 what='booleans other than 0 and 1 are accepted',
 edits=[('value.go',"		if v.data[v.offset] != '\\x00' && v.data[v.offset] != '\\x01' {\n","		if v.data[v.offset]&'\\x7E' != '\\x00' {\n")], pkg='.', test=T('birch',[],'''	for _, b := range []byte{0x80, 0x81} {
	v := &Value{start: 0, offset: 2, data: []byte{8, 0, b}}
	if n, err := v.validate(false); err == nil { t.Fatal(n) }
	}''')),
dict(id='s22-array-keylen', property='C07', needs='an array of more than ten thousand values',
 what='the size of an array counts at most four digits per index, so marshalling long arrays fails or is cut',
 edits=[('array.go','		size += uint32(len(strconv.Itoa(i))) + 1\n','''		size += 2
		if i >= 10 {
			size++
		}
		if i >= 100 {
			size++
		}
		if i >= 1000 {
			size++
		}
''')], pkg='.', test=T('birch',[],'''	a := MakeArray(0)
	for i := 0; i < 10003; i++ { a.Append(VC.Null()) }
	n, err := a.Validate()
	if err != nil { t.Fatal(err) }
	b, err := DC.Elements(EC.Array("a", a)).MarshalBSON()
	if err != nil || len(b) != int(n)+4+1+3 { t.Fatal(n, len(b), err) }
	if _, err = Reader(b).Validate(); err != nil { t.Fatal(err) }''')),
dict(id='s23-subdoc-nokey', property='C07', needs='a built document or array that is itself a value of an array',
 what='the length prefix of built documents inside arrays is too small',
 edits=[('element.go','''	case bsontype.EmbeddedDocument:
		if e.value.d == nil {
			n = copy(b[start:], e.value.data[startToWrite:e.value.start+size])
			break
		}

		header := e.value.offset - e.value.start
		size -= header
''','''	case bsontype.EmbeddedDocument:
		if e.value.d == nil {
			n = copy(b[start:], e.value.data[startToWrite:e.value.start+size])
			break
		}

		size -= uint32(len(e.Key())) + 2
		if !key && e.Key() != "" {
			size--
		}
''')], pkg='.', test=T('birch',[],'''	v := EC.SubDocument("k", DC.Elements(EC.Null("x"))).Value()
	b, err := DC.Elements(EC.Array("a", NewArray(v))).MarshalBSON()
	if err != nil { t.Fatal(err) }
	if _, err = Reader(b).Validate(); err != nil { t.Fatal(err) }''')),
dict(id='s24-unmarshal-undefined', property='C08', needs='a document with an element of the deprecated undefined type',
 what='parsing leaves out undefined elements',
 edits=[('document.go','''		d.elems = append(d.elems, value)
	}

	return nil
''','''		if value.value.Type() == 0x06 {
			continue
		}

		d.elems = append(d.elems, value)
	}

	return nil
''')], pkg='.', test=T('birch',['bytes'],'''	b, _ := DC.Elements(EC.Int32("a", 1), EC.Undefined("b"), EC.Int32("a", 3)).MarshalBSON()
	d, err := ReadDocument(b)
	if err != nil { t.Fatal(err) }
	c, err := d.MarshalBSON()
	if err != nil || !bytes.Equal(b, c) { t.Fatal(c) }''')),
dict(id='s25-cws-length', property='C08', needs='code with scope that is read from a document in which it is not the first element',
 what='marshalling writes a wrong length into code with scope',
 edits=[('element.go','		codeWithScopeLength := codeWithScopeEnd - int32(e.value.offset)\n','		codeWithScopeLength := codeWithScopeEnd - int32(len(e.Key())) - 6\n')], pkg='.', test=T('birch',['bytes'],'''	b, _ := DC.Elements(EC.Null("z"), EC.CodeWithScope("k", "x", DC.Elements(EC.Null("y"))), EC.Null("z")).MarshalBSON()
	d, err := ReadDocument(append([]byte{}, b...))
	if err != nil { t.Fatal(err) }
	c, err := d.MarshalBSON()
	if err != nil || !bytes.Equal(b, c) { t.Fatal(c) }''')),
dict(id='s26-equal-trailing', property='C13', needs='two regular expressions with the same pattern and different options',
 what='regular expressions that differ in their options compare equal',
 edits=[('x_core.go','		length = int32(int64(regex) + 1 + int64(pattern) + 1)\n','		length = int32(max(regex, pattern) + 1)\n')], pkg='.', test=T('birch',[],'''	if EC.Regex("a", "abcd", "i").Equal(EC.Regex("a", "abcd", "m")) { t.Fatal("equal") }''')),
dict(id='s27-equal-timestamp', property='C13', needs='two timestamps that differ only in their seconds',
 what='the seconds of timestamps are ignored in comparisons',
 edits=[('x_core.go','''	case bsontype.DateTime, bsontype.Double, bsontype.Int64, bsontype.Timestamp:
		length = 8
''','''	case bsontype.DateTime, bsontype.Double, bsontype.Int64:
		length = 8
'''),('x_core.go','''	case bsontype.Int32:
		length = 4
''','''	case bsontype.Int32, bsontype.Timestamp:
		length = 4
''')], pkg='.', test=T('birch',[],'''	if EC.Timestamp("a", 1, 2).Equal(EC.Timestamp("a", 3, 2)) { t.Fatal("equal") }''')),
dict(id='s28-json-hex', property='C16', needs='a control character above 0x0f other than those with an escape of their own',
 what='control characters from 0x10 on are written as the wrong code point',
 edits=[('jsonx/write.go','				out = append(out, hex[b>>4], hex[b&0xF])\n',"				out = append(out, '0', hex[b&0xF])\n")], pkg='jsonx', test=T('jsonx',['encoding/json'],'''	for i := 0; i < 32; i++ {
		in := "a" + string(rune(i))
		var s string
		if err := json.Unmarshal(writeJSONString([]byte(in)), &s); err != nil || s != in { t.Fatal(i, s, err) }
	}''')),
dict(id='s29-json-fast', property='C16', needs='a string whose only special character is a backslash',
 what='backslashes that come before any other special character are not escaped',
 edits=[('jsonx/write.go',"		if c > 31 && c != '\"' && c != '\\\\' {\n","		if c > 31 && c != '\"' && (c != '\\\\' || i+1 < valLen && s[i+1] == '\\\\') {\n")], pkg='jsonx', test=T('jsonx',['encoding/json'],'''	for _, in := range []string{"a\\\\\\\\b", "\\\\\\\\\\\\\\\\"} {
		var s string
		if err := json.Unmarshal(writeJSONString([]byte(in)), &s); err != nil || s != in { t.Fatalf("%q %q %v", in, s, err) }
	}''')),
dict(id='s30-int64-sign', property='C17', needs='an int64 whose lower half has bit 31 set',
 what='reading such numbers from a message gives a different number',
 edits=[(R+'wireutil.go','''	return (int64(b[0])) |
		(int64(b[1]) << 8) |
		(int64(b[2]) << 16) |
		(int64(b[3]) << 24) |
		(int64(b[4]) << 32) |
		(int64(b[5]) << 40) |
		(int64(b[6]) << 48) |
		(int64(b[7]) << 56)
''','''	return int64(readInt32(b)) | int64(readInt32(b[4:]))<<32
''')], pkg=R, test=T('mongowire',[],'''	for _, n := range []int64{0x80000000, 0x1ffffffff, 1 << 40} {
		if g := readInt64(encodeInt64(n)); g != n { t.Fatal(g, n) }
	}''')),
dict(id='s31-cstring-empty', property='C17', needs='an empty C string',
 what='reading an empty C string is an error',
 edits=[(R+'wireutil.go','''	for i := 0; i < len(b); i++ {
		if b[i] == '\\x00' {
			return string(b[0:i]), nil
		}
	}
''','''	for i := len(b[:min(1, len(b))]); i < len(b); i++ {
		if b[i] == '\\x00' {
			return string(b[0:i]), nil
		}
	}
''')], pkg=R, test=T('mongowire',[],'''	if s, err := readCString([]byte{0, 'a', 0}); s != "" || err != nil { t.Fatalf("%q %v", s, err) }''')),
dict(id='s32-checksum-flag', property='C18', needs='an OP_MSG with a checksum value whose checksum flag is not set',
 what='the checksum is written although the declared length does not count it',
 edits=[(R+'wire_message.go','''	if m.Checksum != 0 && (m.Flags&1) == 1 {
		writeInt32(m.Checksum, buf)
''','''	if m.Checksum != 0 {
		writeInt32(m.Checksum, buf)
''')], pkg=R, test=T('mongowire',['github.com/tychoish/birch'],'''	m := NewOpMessage(false, []birch.Document{*birch.DC.Elements(birch.EC.Int32("ping", 1))}).(*OpMessage)
	m.Checksum = 7
	b := m.Serialize()
	if len(b) != int(readInt32(b)) { t.Fatal(len(b), readInt32(b)) }''')),
dict(id='s33-reply-number', property='C18', needs='a reply whose number-returned field differs from its number of documents',
 what='a parsed reply has another number-returned field than the message',
 edits=[(R+'wire_reply.go','''	return rm, nil
''','''	if rm.NumberReturned > int32(len(rm.Docs)) {
		rm.NumberReturned = int32(len(rm.Docs))
	}

	return rm, nil
''')], pkg=R, test=T('mongowire',[],'''	b := NewReply(1, 2, 3, 4, nil).Serialize()
	h := MessageHeader{Size: int32(len(b)), OpCode: OP_REPLY}
	m, err := h.Parse(b[16:])
	if err != nil || m.(*ReplyMessage).NumberReturned != 4 { t.Fatal(m, err) }''')),
dict(id='s34-cursors-overflow', property='C19', needs='a kill cursors body whose cursor count times eight overflows 32 bits',
 what='a count that wraps passes the length check and the parser panics',
 edits=[(R+'wire_kill_cursors.go','	if len(buf[loc:]) < int(m.NumCursors)*8 {\n','	if len(buf[loc:]) < int(m.NumCursors*8) {\n')], pkg=R, test=T('mongowire',[],'''	defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
	b := append(encodeInt32(0), encodeInt32(0x20000001)...)
	h := MessageHeader{OpCode: OP_KILL_CURSORS}
	if m, err := h.Parse(append(b, make([]byte, 8)...)); err == nil { t.Fatal(m.Header()) }''')),
dict(id='s35-getmore-short', property='C19', needs='a get-more body cut off between the halves of its cursor id',
 what='the parser panics on the cut-off body',
 edits=[(R+'wire_get_more.go','	if len(buf) < loc+12 {\n','	if len(buf) < loc+8 {\n')], pkg=R, test=T('mongowire',[],'''	defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
	h := MessageHeader{OpCode: OP_GET_MORE}
	if m, err := h.Parse([]byte{0, 0, 0, 0, 'a', 0, 1, 0, 0, 0, 1, 2, 3, 4, 5}); err == nil { t.Fatal(m) }''')),
dict(id='s36-ns-last-dot', property='C20', needs='a namespace with more than one dot',
 what='the database name runs to the last dot while the collection starts after the first',
 edits=[(R+'namespace.go','''func NamespaceToDB(ns string) string {
	idx := strings.IndexByte(ns, '.')
''','''func NamespaceToDB(ns string) string {
	idx := strings.LastIndexByte(ns, '.')
''')], pkg=R, test=T('mongowire',[],'''	if s := NamespaceToDB("a.b.c"); s != "a" { t.Fatal(s) }''')),
dict(id='s37-getmore-command', property='C20', needs='a get-more scope that names a command',
 what='a get-more scope with a command name is accepted',
 edits=[(R+'scope.go','''		if s.Command != "" {
			return errors.New("get more ops cannot specify a command name")
		}
''','''		if s.Command != "" && s.Command != s.Context {
			return errors.New("get more ops cannot specify a command name")
		}
''')], pkg=R, test=T('mongowire',[],'''	if (&OpScope{Type: OP_GET_MORE, Context: "a.b", Command: "a.b"}).Validate() == nil { t.Fatal("accepted") }''')),
dict(id='s38-registry-fallback', property='C20', needs='a handler registered without a context and a lookup for a scope with a payload',
 what='the handler without context is not found for commands on a database',
 edits=[('x/mrpc/registry.go','''	scopeCopy.Context = ""
''','''	if scopeCopy.Type != mongowire.OP_COMMAND {
		scopeCopy.Context = ""
	}
''')], pkg='x/mrpc', test=T('mrpc',['github.com/tychoish/birch/x/mrpc/mongowire','context','io'],'''	o := &OperationRegistry{ops: map[mongowire.OpScope]HandlerFunc{}}
	if err := o.Add(mongowire.OpScope{Type: mongowire.OP_COMMAND, Command: "c"}, func(context.Context, io.Writer, mongowire.Message) {}); err != nil { t.Fatal(err) }
	if _, ok := o.Get(&mongowire.OpScope{Type: mongowire.OP_COMMAND, Context: "db", Command: "c"}); !ok { t.Fatal("not found") }''')),
dict(id='s39-last-zero', property='C21', needs='a series in which every sample but the last differs from the one before, at the end of the payload',
 what='a single unchanged sample at the very end is not written',
 edits=[(F+'collector_better.go','''			payload.Write(encodeValue(delta))
		}
	}
	if zeroCount > 0 {
''','''			payload.Write(encodeValue(delta))
		}
	}
	if zeroCount > 1 {
''')], pkg=F, test=T('ftdc',['bytes','github.com/tychoish/birch'],'''	c := NewBaseCollector(10)
	for _, n := range []int64{1, 2, 3, 3} { if err := c.Add(birch.DC.Elements(birch.EC.Int64("a", n))); err != nil { t.Fatal(err) } }
	b, err := c.Resolve()
	if err != nil { t.Fatal(err) }
	n := 0
	it := ReadMetrics(bytes.NewBuffer(b))
	for range it.Iterator() { n++ }
	if n != 4 { t.Fatal(n) }''')),
dict(id='s40-zero-run', property='C21', needs='a run of more than 1024 unchanged values',
 what='a run of zeros that is split is written one zero too long',
 edits=[(F+'collector_better.go','''				zeroCount++
				continue
''','''				if zeroCount == 1024 {
					payload.Write(encodeValue(0))
					payload.Write(encodeValue(zeroCount))
					zeroCount = 0
				}
				zeroCount++
				continue
''')], pkg=F, test=T('ftdc',['bytes','github.com/tychoish/birch'],'''	c := NewBaseCollector(3000)
	for i := int64(0); i < 2001; i++ { if err := c.Add(birch.DC.Elements(birch.EC.Int64("a", i/2000))); err != nil { t.Fatal(err) } }
	b, err := c.Resolve()
	if err != nil { t.Fatal(err) }
	i := int64(0)
	it := ReadMetrics(bytes.NewBuffer(b))
	for d := range it.Iterator() { if d.Lookup("a").Int64() != i/2000 { t.Fatal(i) }; i++ }
	if i != 2001 { t.Fatal(i) }''')),
dict(id='s41-array-skip', property='C22', needs='an array that holds values that are not metrics before ones that are',
 what='the names of the series of an array skip the values that are not metrics',
 edits=[(F+'bson_metric.go','''		o = append(o, metricForType(fmt.Sprintf("%s.%d", key, idx), path, value)...)
		idx++
''','''		if metrics := metricForType(fmt.Sprintf("%s.%d", key, idx), path, value); len(metrics) > 0 {
			o = append(o, metrics...)
			idx++
		}
''')], pkg=F, test=T('ftdc',['github.com/tychoish/birch'],'''	m := metricForDocument(nil, birch.DC.Elements(birch.EC.Array("a", birch.NewArray(birch.VC.String("x"), birch.VC.Int64(1)))))
	if len(m) != 1 || m[0].Key() != "a.1" { t.Fatal(m) }''')),
dict(id='s42-date-range', property='C22', needs='a date that is more than 292 years away from 1970',
 what='such dates are restored as other dates',
 edits=[(F+'util.go','func timeEpocMs(in int64) time.Time   { return time.Unix(in/1000, in%1000*1000000) }\n','func timeEpocMs(in int64) time.Time   { return time.Unix(0, in*int64(time.Millisecond)) }\n')], pkg=F, test=T('ftdc',[],'''	for _, n := range []int64{0, 1, -1001, 1 << 50, -1 << 47} {
		if g := timeEpocMs(n).UnixMilli(); g != n { t.Fatal(g, n) }
	}''')),
dict(id='s43-refused-count', property='C23', needs='a sample that is refused because one of its fields has another type',
 what='a sample refused for its types is counted and written with the differences found so far',
 edits=[(F+'collector_better.go','''	var delta int64
	for idx := range metrics.values {
''','''	var delta int64
	sample := c.numSamples
	c.numSamples++
	for idx := range metrics.values {
'''),(F+'collector_better.go','''		c.deltas[getOffset(c.maxDeltas, c.numSamples, idx)] = delta
	}

	c.numSamples++
''','''		c.deltas[getOffset(c.maxDeltas, sample, idx)] = delta
	}

''')], pkg=F, test=T('ftdc',['github.com/tychoish/birch'],'''	c := NewBaseCollector(10)
	if err := c.Add(birch.DC.Elements(birch.EC.Int64("a", 1))); err != nil { t.Fatal(err) }
	if err := c.Add(birch.DC.Elements(birch.EC.Double("a", 1))); err == nil { t.Fatal("accepted") }
	if n := c.Info().SampleCount; n != 1 { t.Fatal(n) }''')),
dict(id='s44-stream-flush', property='C23', needs='a streaming dynamic collector whose schema changes right after it was filled or reset',
 what='after a schema change the previous chunk is dropped when it holds a single sample',
 edits=[(F+'collector_streaming.go','''	if c.Info().SampleCount == 0 {
		return nil
	}
''','''	if info := c.Info(); info.SampleCount == 0 || info.MetricsCount == 0 {
		c.Reset()
		return nil
	}
''')], pkg=F, test=T('ftdc',['github.com/tychoish/birch','bytes'],'''	buf := &bytes.Buffer{}
	c := NewStreamingDynamicCollector(10, buf)
	if err := c.Add(birch.DC.Elements(birch.EC.String("a", "x"))); err != nil { t.Fatal(err) }
	if err := c.Add(birch.DC.Elements(birch.EC.String("a", "x"))); err != nil { t.Fatal(err) }
	if err := FlushCollector(c, buf); err != nil { t.Fatal(err) }
	n := 0
	it := ReadMetrics(buf)
	for range it.Iterator() { n++ }
	if n != 2 { t.Fatal(n) }''')),
dict(id='s45-perf-id', property='C24', needs='an added event with an id of its own that is not larger than the previous one',
 what='the id of the added event is replaced although it was set',
 edits=[(F+'events/performance.go','	if in.ID == 0 {\n','	if in.ID < p.ID {\n')], pkg=F+'events', test=T('events',[],'''	p := &Performance{ID: 10}
	p.Add(&Performance{ID: 5})
	if p.ID != 5 { t.Fatal(p.ID) }''')),
dict(id='s46-perf-failed', property='C24', needs='a failed event followed by one that did not fail',
 what='the failed gauge stays set',
 edits=[(F+'events/performance.go','	p.Gauges.Failed = in.Gauges.Failed\n','	p.Gauges.Failed = in.Gauges.Failed || p.Gauges.Failed\n')], pkg=F+'events', test=T('events',[],'''	p := &Performance{Gauges: PerformanceGauges{Failed: true}}
	p.Add(&Performance{ID: 5})
	if p.Gauges.Failed { t.Fatal("failed") }''')),
]
