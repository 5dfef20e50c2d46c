# constructors: one element, fresh, whose bytes are the encoding of the argument.
package birch

def cstrAt(w, at, s) = (forall i in 0..len(s) :: w[at+i] == s[i]) && w[at+len(s)] == 0
def strAt(w, at, s) = le32(w, at) == u32(len(s)+1) && cstrAt(w, at+4, s)
# e is a freshly built element: type t, the key, and n value bytes
def mk(e, key, t, n) = fresh(e) && fresh(e.value) && fresh(e.value.data) && e.value.start == 0 && e.value.offset == len(key)+2
   && len(e.value.data) == len(key)+2+n && e.value.data[0] == t && cstrAt(e.value.data, 1, key)
def nod(e) = e.value.d == nil
def at(key) = len(key)+2
def small(n) = n < pow2(31)-32

func (ElementConstructor).Double(ec, key, f) (e)
property C03
requires small(len(key))
ensures shape: mk(e, key, 1, 8) && nod(e)
ensures val: le64(e.value.data, at(key)) == f

func (ElementConstructor).String(ec, key, s) (e)
property C03
requires small(len(key)+len(s))
ensures shape: mk(e, key, 2, len(s)+5) && nod(e)
ensures val: strAt(e.value.data, at(key), s)

func (ElementConstructor).JavaScript(ec, key, s) (e)
property C03
requires small(len(key)+len(s))
ensures shape: mk(e, key, 13, len(s)+5) && nod(e)
ensures val: strAt(e.value.data, at(key), s)

func (ElementConstructor).Symbol(ec, key, s) (e)
property C03
requires small(len(key)+len(s))
ensures shape: mk(e, key, 14, len(s)+5) && nod(e)
ensures val: strAt(e.value.data, at(key), s)

func (ElementConstructor).SubDocument(ec, key, d) (e)
property C03
requires small(len(key))
ensures shape: mk(e, key, 3, 0) && e.value.d == d

func (ElementConstructor).SubDocumentFromReader(ec, key, r) (e)
property C03
requires small(len(key)+len(r))
ensures shape: mk(e, key, 3, len(r)) && nod(e)
ensures val: forall i in 0..len(r) :: e.value.data[at(key)+i] == r[i]

func (ElementConstructor).Array(ec, key, a) (e)
property C03
requires small(len(key)) && a != nil
ensures shape: mk(e, key, 4, 0) && e.value.d == a.doc

func (ElementConstructor).BinaryWithSubtype(ec, key, b, t) (e)
property C03
requires small(len(key)+len(b))
ensures shape: mk(e, key, 5, t == 2 ? len(b)+9 : len(b)+5) && nod(e)
ensures len: le32(e.value.data, at(key)) == (t == 2 ? len(b)+4 : len(b)) && e.value.data[at(key)+4] == t && (t == 2 ==> le32(e.value.data, at(key)+5) == len(b))
ensures val: forall i in 0..len(b) :: e.value.data[at(key)+(t == 2 ? 9 : 5)+i] == b[i]

func (ElementConstructor).Binary(ec, key, b) (e)
property C03
requires small(len(key)+len(b))
ensures shape: mk(e, key, 5, len(b)+5) && nod(e)
ensures len: le32(e.value.data, at(key)) == len(b) && e.value.data[at(key)+4] == 0
ensures val: forall i in 0..len(b) :: e.value.data[at(key)+5+i] == b[i]

func (ElementConstructor).Undefined(ec, key) (e)
property C03
requires small(len(key))
ensures shape: mk(e, key, 6, 0) && nod(e)

func (ElementConstructor).Null(ec, key) (e)
property C03
requires small(len(key))
ensures shape: mk(e, key, 10, 0) && nod(e)

func (ElementConstructor).MinKey(ec, key) (e)
property C03
requires small(len(key))
ensures shape: mk(e, key, 255, 0) && nod(e)

func (ElementConstructor).MaxKey(ec, key) (e)
property C03
requires small(len(key))
ensures shape: mk(e, key, 127, 0) && nod(e)

func (ElementConstructor).ObjectID(ec, key, oid) (e)
property C03
requires small(len(key))
ensures shape: mk(e, key, 7, 12) && nod(e)
ensures val: forall i in 0..12 :: e.value.data[at(key)+i] == oid[i]

func (ElementConstructor).Boolean(ec, key, b) (e)
property C03
requires small(len(key))
ensures shape: mk(e, key, 8, 1) && nod(e)
ensures val: e.value.data[at(key)] == (b ? 1 : 0)

func (ElementConstructor).DateTime(ec, key, v) (e)
property C03
requires small(len(key))
ensures shape: mk(e, key, 9, 8) && nod(e)
ensures val: le64(e.value.data, at(key)) == u64(v)

func (ElementConstructor).Time(ec, key, t) (e)
property C03
requires small(len(key))
ensures shape: mk(e, key, 9, 8) && nod(e)
ensures val: i64(le64(e.value.data, at(key))) == i64(sec(t)*1000 + nano(t)/1000000)
ensures nano: nano(t) >= 0 && nano(t) < 1000000000

func (ElementConstructor).Regex(ec, key, p, o) (e)
property C03
requires small(len(key)+len(p)+len(o))
ensures shape: mk(e, key, 11, len(p)+len(o)+2) && nod(e)
ensures val: cstrAt(e.value.data, at(key), p) && cstrAt(e.value.data, at(key)+len(p)+1, o)

func (ElementConstructor).DBPointer(ec, key, s, oid) (e)
property C03
requires small(len(key)+len(s))
ensures shape: mk(e, key, 12, len(s)+17) && nod(e)
ensures val: strAt(e.value.data, at(key), s) && (forall i in 0..12 :: e.value.data[at(key)+len(s)+5+i] == oid[i])

func (ElementConstructor).CodeWithScope(ec, key, s, d) (e)
property C03
requires small(len(key)+len(s))
ensures shape: mk(e, key, 15, len(s)+9) && e.value.d == d
ensures val: strAt(e.value.data, at(key)+4, s)

func (ElementConstructor).Int32(ec, key, v) (e)
property C03 C12
requires small(len(key))
ensures shape: mk(e, key, 16, 4) && nod(e)
ensures val: le32(e.value.data, at(key)) == u32(v)

func (ElementConstructor).Timestamp(ec, key, t, i) (e)
property C03
requires small(len(key))
ensures shape: mk(e, key, 17, 8) && nod(e)
ensures val: le32(e.value.data, at(key)) == i && le32(e.value.data, at(key)+4) == t

func (ElementConstructor).Int64(ec, key, v) (e)
property C03 C12
requires small(len(key))
ensures shape: mk(e, key, 18, 8) && nod(e)
ensures val: le64(e.value.data, at(key)) == u64(v)

func (ElementConstructor).Decimal128(ec, key, d) (e)
property C03
requires small(len(key))
ensures shape: mk(e, key, 19, 16) && nod(e)
ensures val: le64(e.value.data, at(key)) == d.l && le64(e.value.data, at(key)+8) == d.h

# integers choose a width but keep their value (C12)
def intVal(e, key, v) = (mk(e, key, 16, 4) && nod(e) && le32(e.value.data, at(key)) == u32(v) && v >= -pow2(31) && v < pow2(31))
    || (mk(e, key, 18, 8) && nod(e) && le64(e.value.data, at(key)) == u64(v) && v < pow2(63))

func (ElementConstructor).Int(ec, key, v) (e)
property C12
requires small(len(key))
ensures val: intVal(e, key, v)

func (ElementConstructor).Duration(ec, key, v) (e)
property C12
requires small(len(key))
ensures val: mk(e, key, 18, 8) && nod(e) && le64(e.value.data, at(key)) == u64(v)

def isInteger(v) = is(v,"int") || is(v,"int8") || is(v,"int16") || is(v,"int32") || is(v,"int64") || is(v,"uint") || is(v,"uint8") || is(v,"uint16") || is(v,"uint32") || is(v,"uint64")

func (ElementConstructor).Interface(ec, key, value) (e)
property C12
decreases 0
requires small(len(key))
requires isInteger(value)
ensures int: is(value,"int") ==> intVal(e, key, as(value,"int"))
ensures int8: is(value,"int8") ==> intVal(e, key, as(value,"int8"))
ensures int16: is(value,"int16") ==> intVal(e, key, as(value,"int16"))
ensures int32: is(value,"int32") ==> intVal(e, key, as(value,"int32"))
ensures int64: is(value,"int64") ==> intVal(e, key, as(value,"int64"))
ensures uint8: is(value,"uint8") ==> intVal(e, key, as(value,"uint8"))
ensures uint16: is(value,"uint16") ==> intVal(e, key, as(value,"uint16"))
ensures uint32: is(value,"uint32") ==> intVal(e, key, as(value,"uint32"))
ensures uint: is(value,"uint") ==> (as(value,"uint") < pow2(63) ? intVal(e, key, as(value,"uint")) : mk(e, key, 10, 0))
ensures uint64: is(value,"uint64") ==> (as(value,"uint64") < pow2(63) ? intVal(e, key, as(value,"uint64")) : mk(e, key, 10, 0))

func (ElementConstructorError).Interface(ec, key, value) (e, err)
property C12
decreases 1
requires small(len(key))
requires isInteger(value)
ensures int: is(value,"int") ==> err == nil && intVal(e, key, as(value,"int"))
ensures int8: is(value,"int8") ==> err == nil && intVal(e, key, as(value,"int8"))
ensures int16: is(value,"int16") ==> err == nil && intVal(e, key, as(value,"int16"))
ensures int32: is(value,"int32") ==> err == nil && intVal(e, key, as(value,"int32"))
ensures int64: is(value,"int64") ==> err == nil && intVal(e, key, as(value,"int64"))
ensures uint8: is(value,"uint8") ==> err == nil && intVal(e, key, as(value,"uint8"))
ensures uint16: is(value,"uint16") ==> err == nil && intVal(e, key, as(value,"uint16"))
ensures uint32: is(value,"uint32") ==> err == nil && intVal(e, key, as(value,"uint32"))
ensures uint: is(value,"uint") ==> (as(value,"uint") < pow2(63) ? err == nil && intVal(e, key, as(value,"uint")) : err != nil)
ensures uint64: is(value,"uint64") ==> (as(value,"uint64") < pow2(63) ? err == nil && intVal(e, key, as(value,"uint64")) : err != nil)

# value constructors
def mkv(v, t, n) = fresh(v) && fresh(v.data) && v.start == 0 && v.offset == 2 && len(v.data) == 2+n && v.data[0] == t && v.data[1] == 0
def intV(v, i) = v.d == nil && ((mkv(v, 16, 4) && le32(v.data, 2) == u32(i) && i >= -pow2(31) && i < pow2(31)) || (mkv(v, 18, 8) && le64(v.data, 2) == u64(i) && i < pow2(63)))

func (ValueConstructor).Int(vc, i) (v)
property C12
ensures intV(v, i)

func (ValueConstructor).Interface(vc, value) (v)
property C12
requires isInteger(value)
decreases 2
ensures int: is(value,"int") ==> intV(v, as(value,"int"))
ensures int8: is(value,"int8") ==> intV(v, as(value,"int8"))
ensures int16: is(value,"int16") ==> intV(v, as(value,"int16"))
ensures int32: is(value,"int32") ==> intV(v, as(value,"int32"))
ensures int64: is(value,"int64") ==> intV(v, as(value,"int64"))
ensures uint8: is(value,"uint8") ==> intV(v, as(value,"uint8"))
ensures uint16: is(value,"uint16") ==> intV(v, as(value,"uint16"))
ensures uint32: is(value,"uint32") ==> intV(v, as(value,"uint32"))
ensures uint: is(value,"uint") ==> (as(value,"uint") < pow2(63) ? intV(v, as(value,"uint")) : mkv(v, 10, 0))
ensures uint64: is(value,"uint64") ==> (as(value,"uint64") < pow2(63) ? intV(v, as(value,"uint64")) : mkv(v, 10, 0))

func (ValueConstructorError).Interface(vc, value) (v, err)
property C12
requires isInteger(value)
decreases 2
ensures int: is(value,"int") ==> err == nil && intV(v, as(value,"int"))
ensures int8: is(value,"int8") ==> err == nil && intV(v, as(value,"int8"))
ensures int16: is(value,"int16") ==> err == nil && intV(v, as(value,"int16"))
ensures int32: is(value,"int32") ==> err == nil && intV(v, as(value,"int32"))
ensures int64: is(value,"int64") ==> err == nil && intV(v, as(value,"int64"))
ensures uint8: is(value,"uint8") ==> err == nil && intV(v, as(value,"uint8"))
ensures uint16: is(value,"uint16") ==> err == nil && intV(v, as(value,"uint16"))
ensures uint32: is(value,"uint32") ==> err == nil && intV(v, as(value,"uint32"))
ensures uint: is(value,"uint") ==> (as(value,"uint") < pow2(63) ? err == nil && intV(v, as(value,"uint")) : err != nil)
ensures uint64: is(value,"uint64") ==> (as(value,"uint64") < pow2(63) ? err == nil && intV(v, as(value,"uint64")) : err != nil)

func (ValueConstructor).Int64|(ValueConstructor).Duration(vc, i) (v)
property C12 C03
ensures v.d == nil && mkv(v, 18, 8) && le64(v.data, 2) == u64(i)

func (ValueConstructor).Int32(vc, i) (v)
property C12 C03
ensures v.d == nil && mkv(v, 16, 4) && le32(v.data, 2) == u32(i)

func (ValueConstructor).DateTime(vc, i) (v)
property C03
ensures v.d == nil && mkv(v, 9, 8) && le64(v.data, 2) == u64(i)

func (ValueConstructor).Time(vc, t) (v)
property C03
ensures v.d == nil && mkv(v, 9, 8) && i64(le64(v.data, 2)) == i64(sec(t)*1000 + nano(t)/1000000)

func (ValueConstructor).Double(vc, f) (v)
property C03
ensures v.d == nil && mkv(v, 1, 8) && le64(v.data, 2) == f

func (ValueConstructor).String(vc, s) (v)
property C03
requires small(len(s))
ensures v.d == nil && mkv(v, 2, len(s)+5) && strAt(v.data, 2, s)

func (ValueConstructor).JavaScript(vc, s) (v)
property C03
requires small(len(s))
ensures v.d == nil && mkv(v, 13, len(s)+5) && strAt(v.data, 2, s)

func (ValueConstructor).Symbol(vc, s) (v)
property C03
requires small(len(s))
ensures v.d == nil && mkv(v, 14, len(s)+5) && strAt(v.data, 2, s)

func (ValueConstructor).Document(vc, d) (v)
property C03
ensures v.d == d && mkv(v, 3, 0)

func (ValueConstructor).DocumentFromReader(vc, r) (v)
property C03
requires small(len(r))
ensures v.d == nil && mkv(v, 3, len(r)) && (forall i in 0..len(r) :: v.data[2+i] == r[i])

func (ValueConstructor).Array(vc, a) (v)
property C03
requires a != nil
ensures v.d == a.doc && mkv(v, 4, 0)

func (ValueConstructor).BinaryWithSubtype(vc, b, t) (v)
property C03
requires small(len(b))
ensures shape: v.d == nil && mkv(v, 5, t == 2 ? len(b)+9 : len(b)+5)
ensures len: le32(v.data, 2) == (t == 2 ? len(b)+4 : len(b)) && v.data[6] == t && (t == 2 ==> le32(v.data, 7) == len(b))
ensures val: forall i in 0..len(b) :: v.data[2+(t == 2 ? 9 : 5)+i] == b[i]

func (ValueConstructor).Binary(vc, b) (v)
property C03
requires small(len(b))
ensures shape: v.d == nil && mkv(v, 5, len(b)+5) && le32(v.data, 2) == len(b) && v.data[6] == 0
ensures val: forall i in 0..len(b) :: v.data[7+i] == b[i]

func (ValueConstructor).Undefined(vc) (v)
property C03
ensures v.d == nil && mkv(v, 6, 0)

func (ValueConstructor).Null(vc) (v)
property C03
ensures v.d == nil && mkv(v, 10, 0)

func (ValueConstructor).MinKey(vc) (v)
property C03
ensures v.d == nil && mkv(v, 255, 0)

func (ValueConstructor).MaxKey(vc) (v)
property C03
ensures v.d == nil && mkv(v, 127, 0)

func (ValueConstructor).ObjectID(vc, oid) (v)
property C03
ensures v.d == nil && mkv(v, 7, 12) && (forall i in 0..12 :: v.data[2+i] == oid[i])

func (ValueConstructor).Boolean(vc, b) (v)
property C03
ensures v.d == nil && mkv(v, 8, 1) && v.data[2] == (b ? 1 : 0)

func (ValueConstructor).Regex(vc, p, o) (v)
property C03
requires small(len(p)+len(o))
ensures v.d == nil && mkv(v, 11, len(p)+len(o)+2) && cstrAt(v.data, 2, p) && cstrAt(v.data, 3+len(p), o)

func (ValueConstructor).DBPointer(vc, s, oid) (v)
property C03
requires small(len(s))
ensures v.d == nil && mkv(v, 12, len(s)+17) && strAt(v.data, 2, s) && (forall i in 0..12 :: v.data[7+len(s)+i] == oid[i])

func (ValueConstructor).CodeWithScope(vc, s, d) (v)
property C03
requires small(len(s))
ensures v.d == d && mkv(v, 15, len(s)+9) && strAt(v.data, 6, s)

func (ValueConstructor).Timestamp(vc, t, i) (v)
property C03
ensures v.d == nil && mkv(v, 17, 8) && le32(v.data, 2) == i && le32(v.data, 6) == t

func (ValueConstructor).Decimal128(vc, d) (v)
property C03
ensures v.d == nil && mkv(v, 19, 16) && le64(v.data, 2) == d.l && le64(v.data, 10) == d.h

# a date of whole milliseconds reads back as the same time
lemma timeRound [C03]: forall ms:int :: i64((ms - ms%1000)/1000*1000 + (ms%1000)*1000000/1000000) == i64(ms)
