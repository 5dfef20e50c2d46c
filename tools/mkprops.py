#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))

p("C01","Low-level encoders write exactly the BSON encoding of their argument",
 "For every value of every BSON type, the elements package encoders (value encoders and key/value element encoders) put at the requested position exactly the bytes the BSON specification prescribes (type byte, NUL-terminated key, little-endian numbers, length prefixes that count what follows, terminators, binary subtype 2 inner length) and return exactly the number of bytes written. Decimal128 is written low half first, timestamps increment first, booleans as 0/1.",
 ["inputs"],"all values of each type, all keys without NUL, all start offsets below 2^62 and destination buffers large enough",
 "The unit tests feed one or two values per encoder; byte order, length arithmetic and offsets must hold for every value, key length and start position.",
 ["elements/elements.go"],[("Encode/Element methods of every encoder namespace","elements/elements.go"),("encodeUint32/encodeUint64/encodeByteSlice","elements/elements.go")])
p("C02","Low-level encoders never touch bytes outside their slot and never panic",
 "Whatever the start offset, buffer length and value, a BSON encoder either reports a too-small error and returns without touching bytes beyond the buffer, or succeeds having modified only the bytes in [start, start+n); it never panics and never writes before start or after start+n.",
 ["inputs"],"all start offsets below 2^62 (including beyond the buffer), all buffer lengths, all values of every type",
 "Tests use exactly sized buffers and a single too-small case; off-by-one in one length guard only shows for particular combinations of start and length.",
 ["elements/elements.go"],[("length guards and slice writes in every Encode/Element","elements/elements.go")])
p("C03","Every value constructor is inverted by the accessor of its type",
 "An element or value built by a constructor for a BSON type reports that type and that key, and the matching accessor returns exactly the Go value that was put in (all bits of numbers, all bytes of strings, binaries, object ids, both halves of a Decimal128, both parts of a timestamp, regex pattern/options, dbpointer parts, code).",
 ["inputs"],"all values of each type and all keys without NUL bytes (regex pattern and options without NUL), shorter than 2 GiB",
 "The tests sample one value per type, so swapped halves, truncated widths or wrong offsets for other values pass unnoticed (the Decimal128 accessor did swap its halves).",
 ["constructor.go","value.go","element.go","elements/elements.go"],[("EC.*/VC.* constructors","constructor.go"),("Value accessors","value.go"),("Element.Key","element.go")])
p("C04","Checked accessors are total and type-exact",
 "For every element of a document accepted by the reader, each comma-ok accessor never panics and reports ok exactly when the stored type is the accessor's type (the flexible integer accessor: int32 or int64); a nil or uninitialised value yields not-ok, as does an embedded document, array or scope whose bytes are malformed. The unchecked accessor panics on exactly the type mismatches and otherwise returns the same result.",
 ["inputs"],"all Values (nil, zero, any type byte), all accessors",
 "The tests try a few mismatches per accessor; the claim is over the full matrix of 21 types by all accessors and all contents.",
 ["value.go"],[("XOK accessors","value.go"),("X accessors' guards","value.go")])
p("C05","Reading arbitrary bytes never panics, never overruns and always terminates",
 "For every byte slice, validating it, iterating over it, looking up a key path or an index in it, or turning it into a Document returns (a result or an error) without panicking, without reading outside the slice, and after finitely many steps; a reported size never exceeds the length of the slice.",
 ["inputs"],"all byte slices shorter than 2 GiB, well-formed or corrupt, including negative, overflowing and truncated length fields at any nesting depth",
 "The test-suite has a fixed set of corrupt documents; the hostile cases are specific 32-bit length values (negative, near 2^31) in each length-prefixed type.",
 ["reader.go","iterator.go","value.go","element.go","document.go"],[("readElements / validateKey","reader.go"),("readerIterator.Next / newReaderIterator","iterator.go"),("Value.validate","value.go"),("Document.UnmarshalBSON","document.go")])
p("C06","Accepted values have an exact in-bounds extent and well-formed contents",
 "When an element or value is accepted by full validation, the reported size is exactly the encoded size of that value, value offset plus size lies inside the underlying data, its strings are NUL-terminated with length at least one, its booleans are 0 or 1, its embedded documents' lengths are at least five and inside the value; values that violate this, or whose embedded document or array does not consist of elements with such extents up to its terminator, are rejected.",
 ["inputs"],"all byte contents and offsets",
 "Rejection and size depend on the interaction of 32-bit lengths, offsets and buffer length; tests cover single points per type.",
 ["value.go","reader.go"],[("Value.validate","value.go"),("Reader.Validate","reader.go")])
p("C07","The size computed by Validate equals the bytes MarshalBSON writes",
 "For every valid document, array or element, marshalling succeeds and yields exactly as many bytes as Validate reports; a document or array starts with its own total length as a little-endian int32, ends with a zero byte, and contains its elements' encodings contiguously in order (array keys being the decimal indices 0,1,2,...).",
 ["inputs"],"all acyclic documents/arrays below 2 GiB, of any length and nesting, built or parsed",
 "Two separately written recursive functions (size and write) must agree for every shape; tests compare a few fixed documents.",
 ["document.go","array.go","element.go"],[("Document.Validate/writeByteSlice/MarshalBSON","document.go"),("Array.Validate/writeByteSlice/MarshalBSON","array.go"),("Element.Validate/writeByteSlice","element.go")])
p("C08","Parsing then marshalling a valid document is the identity",
 "For every byte slice holding one well-formed BSON document, reading it into a Document and marshalling the Document returns the same bytes, and the parsed element list has the same keys, types and order as the input.",
 ["inputs"],"all well-formed BSON documents",
 "The identity must hold for all element sequences; tests have a few dozen documents.",
 ["document.go","iterator.go","element.go","value.go"],[("Document.UnmarshalBSON/MarshalBSON","document.go"),("readerIterator.Next","iterator.go"),("Element.writeByteSlice","element.go")])
p("C09","A Document behaves as an ordered list of elements with first-match keys",
 "Append, AppendOmitEmpty, Extend, Set, Delete, Reset, Copy, Len, ElementAt(OK) and the key lookups act on the element sequence exactly as on an ordered list: Append/Extend add at the end in order, Set replaces the first element with the same key in place or else appends, Delete removes exactly the first element with the key and returns it, Copy has an independent element list, and lookups return the first match; all other elements keep their identity and order.",
 ["inputs","histories"],"all documents, keys (including duplicate keys) and sequences of operations",
 "Order, duplicates and the untouched remainder of the list are quantified over all documents; tests use two or three elements.",
 ["document.go","x_document.go"],[("Append/Set/Delete/Extend/Reset/Copy","document.go"),("findElemForKey/Search/Lookup*","document.go, x_document.go")])
p("C10","Document.Map always reflects the current contents",
 "After any sequence of mutations of a document, Map returns for each key present the first element with that key and contains no other keys; the result is a fresh map whose modification does not affect the document.",
 ["inputs","histories"],"all interleavings of Map with Append, Set, Delete, Extend, Reset, UnmarshalBSON, ReadFrom",
 "Staleness needs a particular history (Map, then a particular mutator, then Map); tests only call Map once.",
 ["unmarshal.go","document.go"],[("refreshCache/Map","unmarshal.go"),("cacheValid updates in the mutators","document.go")])
p("C11","Array operations act on the value sequence exactly as on a list",
 "NewArray, Append, Set, Delete, Extend, Lookup and Len act as list operations on the value sequence: indices in range address exactly that value, Set replaces only that index, Delete removes only that index and returns it, out-of-range lookups report an out-of-bounds error and never panic, out-of-range Delete returns nil and changes nothing.",
 ["inputs","histories"],"all arrays and all indices",
 "Boundary indices and the untouched remainder of the sequence are not settled by three-element tests.",
 ["array.go","element.go"],[("Append/Set/Delete/Lookup/Extend","array.go"),("elemsFromValues","element.go")])
p("C12","Integer constructors never lose or change a value",
 "The width-choosing integer constructors (Int and Interface for every Go integer type, and the integer slice constructors) produce an int32 or int64 whose numeric value equals the argument; an unsigned value that does not fit int64 becomes null (or an error from the error-returning variant), never a different number.",
 ["inputs"],"all values of int, int8..int64, uint, uint8..uint64",
 "The narrowing decision has boundaries at both ends of the int32 range and at 2^63; tests only probe small positive values.",
 ["constructor.go","x_constructor.go"],[("EC.Int / VC.Int","x_constructor.go"),("EC.Interface / ECE.Interface integer cases","constructor.go")])
p("C13","Equality of values is decided by type and encoded bytes",
 "Comparing two values or elements is symmetric and never panics on readable values: elements are equal exactly when their keys, type bytes and encoded value bytes are equal, whether each side holds raw bytes or a built sub-document.",
 ["inputs"],"all pairs of values/elements",
 "Tests compare a handful of pairs; truncation of the compared range or a missing type comparison shows only for particular contents.",
 ["value.go","element.go","x_core.go","x_value.go"],[("Value.Equal/docToBytes","value.go"),("checkEqualVal/readValue","x_core.go, x_value.go")])
p("C14","128-bit decimal arithmetic and its encoding halves are exact",
 "The 128-bit helpers behind Decimal128 formatting and parsing are exact: dividing (h,l) by a 32-bit divisor yields the true quotient and a remainder below the divisor, multiply-add yields the true 128-bit result and the true overflow word, and the high/low words given to a Decimal128 are the ones it returns.",
 ["inputs"],"all 128-bit significands, all divisors and multipliers",
 "Carry propagation across four 32-bit limbs depends on specific limb values; the tests print a few decimals.",
 ["types/decimal.go"],[("divmod/muladd","types/decimal.go"),("NewDecimal128/GetBytes","types/decimal.go")])
p("C15","Object ids and JSON-facing hex round-trip and layout are exact",
 "An ObjectID's hex form is 24 lowercase hex digits that parse back to the same id; parsing rejects everything that does not decode to exactly twelve bytes; a generated id holds the big-endian time, the process-unique bytes and the low 24 bits of a counter that increases by one per call.",
 ["inputs","histories"],"all 12-byte ids, all strings, all counter values",
 "Byte placement for all ids and counter wrap are not reached by sampling.",
 ["types/objectid.go"],[("Hex/ObjectIDFromHex/IsZero","types/objectid.go"),("putUint24/NewObjectID","types/objectid.go")])
p("C16","JSON string and key output is always valid and lossless",
 "For every Go string, the JSON writer emits a quoted JSON string that contains no raw control characters, unescaped quotes or unescaped backslashes and that a JSON parser decodes to the original (with invalid UTF-8 replaced by U+FFFD); this holds for string values and for object keys.",
 ["inputs"],"all byte strings",
 "Escaping has per-byte and per-rune cases; tests use plain ASCII.",
 ["jsonx/write.go","jsonx/marhsal.go"],[("writeJSONString","jsonx/write.go"),("Document/Value MarshalJSON","jsonx/marhsal.go")])
p("C17","Wire scalars and strings are encoded little-endian and decode to themselves",
 "Every int32 and int64 written to a wire message is four or eight little-endian bytes that read back to the same number; a C string read from a buffer is exactly the bytes before the first NUL, and a buffer with no NUL is an error.",
 ["inputs"],"all int32/int64 values, all buffers",
 "Sign extension and byte order must hold for all 2^32/2^64 values.",
 ["x/mrpc/mongowire/wireutil.go"],[("readInt32/readInt64/encodeInt32/encodeInt64/readCString","x/mrpc/mongowire/wireutil.go")])
p("C18","A serialized wire message declares its true length and its exact fields",
 "For every message, the serialized bytes have a header whose size field equals the total number of bytes, whose request id, response id and op code are the message's, followed by the op's fields in protocol order with the values they were built with; parsing those bytes gives back a message with equal fields.",
 ["inputs"],"all messages of all op kinds, all namespaces without NUL, all flags/ids/documents",
 "The computed size and the emitted bytes come from separate code per op kind; tests build one message per kind.",
 ["x/mrpc/mongowire"],[("Serialize of each message","x/mrpc/mongowire/wire_*.go"),("parse*Message","x/mrpc/mongowire/wire_*.go"),("MessageHeader.WriteTo","x/mrpc/mongowire/header.go")])
p("C19","Parsing a wire message body never panics or hangs",
 "For every op code and every body, parsing a message returns a message or an error in finitely many steps, without panicking and without reading outside the body.",
 ["inputs"],"all op codes, all bodies including truncated and hostile lengths and counts",
 "The crash inputs are specific counts, sizes and truncation points inside the network-supplied body.",
 ["x/mrpc/mongowire"],[("MessageHeader.Parse","x/mrpc/mongowire/header.go"),("parse*Message/parseMsgBody","x/mrpc/mongowire/wire_*.go")])
p("C20","Namespaces split at the first dot and op scopes validate by kind",
 "A namespace splits at its first dot into database and collection that re-join to it; it is a command namespace exactly when the collection part starts with '$'; an operation scope is accepted exactly when its op kind is a request kind with the context and command names that kind requires, and the registry returns the handler registered for the exact scope or else for the scope without context.",
 ["inputs","histories"],"all strings, all scopes, all registrations",
 "Tests use a few names; leading/trailing/multiple dots and the full kind-by-field matrix are not covered.",
 ["x/mrpc/mongowire/namespace.go","x/mrpc/mongowire/scope.go","x/mrpc/registry.go"],[("NamespaceToDB/NamespaceToCollection/NamespaceIsCommand","x/mrpc/mongowire/namespace.go"),("OpScope.Validate","x/mrpc/mongowire/scope.go"),("OperationRegistry.Add/Get","x/mrpc/registry.go")])
p("C21","FTDC delta coding is lossless for every series",
 "For every sequence of samples of a metric, storing the differences (wrapping 64-bit) and summing them back from the starting value reproduces every sample exactly, and the zero-run/varint payload decodes to exactly the stored differences for every pattern of zeros and all metrics and sample counts.",
 ["inputs"],"all metric counts, sample counts, values and zero patterns",
 "Zero runs that end a metric, span metrics or end the chunk, and wrap-around differences need particular patterns.",
 ["x/ftdc/util.go","x/ftdc/collector_better.go","x/ftdc/read.go","x/ftdc/bson_extract.go"],[("undelta/encodeValue/encodeSizeValue/getOffset","x/ftdc/util.go"),("betterCollector.Add/getPayload","x/ftdc/collector_better.go"),("readChunks","x/ftdc/read.go"),("extractDelta","x/ftdc/bson_extract.go")])
p("C22","FTDC restores every numeric value with its original type",
 "Flattening a document into metrics and restoring the document from the metric values yields, for every numeric, boolean, date and timestamp field at any depth, the original type and value, in the original order; extraction, series headers and restoration consume the same number of metric slots per field, and each series is named by the path of its field.",
 ["inputs"],"all documents of metric types, all values",
 "Type-specific branches in four separate functions must agree for every type and value; tests cover mostly integers.",
 ["x/ftdc/bson_extract.go","x/ftdc/bson_metric.go","x/ftdc/bson_restore.go","x/ftdc/bson_matrix.go","x/ftdc/bson_hash.go"],[("extractMetricsFromValue","x/ftdc/bson_extract.go"),("metricForType","x/ftdc/bson_metric.go"),("restoreElement/restoreFlat","x/ftdc/bson_restore.go"),("metricKeyHashValue","x/ftdc/bson_hash.go")])
p("C23","FTDC collectors respect capacity, count samples exactly and flush without loss",
 "A base collector accepts exactly one reference plus its configured number of samples, then refuses; its reported sample count is the number accepted; a refused sample changes nothing; reset empties it; the batching, streaming and dynamic wrappers emit every accepted sample exactly once in order.",
 ["histories","inputs"],"all capacities, all sequences of Add/Reset/Resolve, all schema-change points",
 "Capacity and schema-change boundaries combine with history; tests use a few sizes.",
 ["x/ftdc/collector_better.go","x/ftdc/collector_batch.go","x/ftdc/collector_dynamic.go","x/ftdc/collector_streaming.go"],[("betterCollector.Add/Info/Reset","x/ftdc/collector_better.go"),("batchCollector.Add","x/ftdc/collector_batch.go"),("dynamicCollector.Add","x/ftdc/collector_dynamic.go"),("streamingCollector.Add","x/ftdc/collector_streaming.go")])
p("C24","Performance events accumulate exactly and survive document conversion",
 "Adding one performance event to another sums every counter and timer and takes gauges, timestamp and id from the newer event (id incremented when unset); converting an event to a document and back preserves every field (timestamps to the millisecond).",
 ["inputs"],"all events",
 "A field mixed up or dropped is visible only for events where the two fields differ.",
 ["x/ftdc/events/performance.go"],[("Performance.Add","x/ftdc/events/performance.go"),("MarshalDocument/UnmarshalDocument","x/ftdc/events/performance.go")])
for x in P:
    assert len(x["title"])<=80,x["id"]
    print(json.dumps(x))
