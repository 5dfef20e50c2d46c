# typed accessors of a value (C03, C04)
package birch

def uninit(v) = v == nil || v.offset == 0 || v.data == nil
def ty(v) = v.data[v.start]
def L(v) = len(v.data)
def i32at(w, o) = i32(le32(w, o))
# what size-only validation establishes about a value, per type (values built by the constructors satisfy it too)
def strOk(w, o, n) = o+4 <= n && i32at(w, o) >= 1 && o+4+i32at(w, o) <= n
def sized(v) = v.start < v.offset && v.offset <= L(v) && L(v) < pow2(31) - 32
  && (ty(v) == 1 || ty(v) == 9 || ty(v) == 17 || ty(v) == 18 ==> v.offset+8 <= L(v))
  && (ty(v) == 2 || ty(v) == 13 || ty(v) == 14 ==> strOk(v.data, v.offset, L(v)))
  && (ty(v) == 5 ==> v.offset+5 <= L(v) && i32at(v.data, v.offset) >= 0 && v.offset+5+i32at(v.data, v.offset) <= L(v)
        && (v.data[v.offset+4] == 2 ==> i32at(v.data, v.offset) >= 4 && i32at(v.data, v.offset+5) == i32at(v.data, v.offset) - 4))
  && (ty(v) == 7 ==> v.offset+12 <= L(v))
  && (ty(v) == 8 ==> v.offset+1 <= L(v))
  && (ty(v) == 11 ==> twoNul(v.data, v.offset, L(v)))
  && (ty(v) == 12 ==> strOk(v.data, v.offset, L(v)) && v.offset+4+i32at(v.data, v.offset)+12 <= L(v))
  && (ty(v) == 16 ==> v.offset+4 <= L(v))
  && (ty(v) == 19 ==> v.offset+16 <= L(v))
def twoNul(w, o, n) = exists j in o..n :: w[j] == 0 && (exists i in o..j :: w[i] == 0)
def rd(v) = uninit(v) || sized(v)
# the string of length-prefixed text at o
def lstr(s, w, o) = len(s) == i32at(w, o)-1 && (forall i in 0..len(s) :: s[i] == w[o+4+i])

func (*Value).Type(v) (r)
property C03 C04
requires uninit(v) || v.start < L(v)
panics uninit(v)
ensures r == ty(v)

def noKey(e) = e == nil || e.value == nil || uninit(e.value)
def keyed(e) = noKey(e) || e.value.start+2 <= e.value.offset && e.value.offset <= L(e.value)
def keyOf(e) = noKey(e) ? "" : str(e.value.data[e.value.start+1:e.value.offset-1])

func (*Element).Key(e) (r)
property C03 C09
requires keyed(e)
ensures r == keyOf(e)
ensures key: !noKey(e) ==> len(r) == e.value.offset-e.value.start-2 && (forall i in 0..len(r) :: r[i] == e.value.data[e.value.start+1+i])
noalloc

func (*Element).Value(e) (r)
property C03
requires e != nil
ensures r == e.value

func (*Value).Double(v) (r)
property C03 C04
requires rd(v)
panics uninit(v) || ty(v) != 1
ensures r == le64(v.data, v.offset)

func (*Value).DoubleOK(v) (r, ok)
property C03 C04
requires rd(v)
ensures ok: ok == !(uninit(v) || ty(v) != 1)
ensures val: ok ==> r == le64(v.data, v.offset)

func (*Value).DateTime(v) (r)
property C03 C04
requires rd(v)
panics uninit(v) || ty(v) != 9
ensures r == i64(le64(v.data, v.offset))

func (*Value).DateTimeOK(v) (r, ok)
property C03 C04
requires rd(v)
ensures ok: ok == !(uninit(v) || ty(v) != 9)
ensures val: ok ==> r == i64(le64(v.data, v.offset))

func (*Value).Int64(v) (r)
property C03 C04
requires rd(v)
panics uninit(v) || ty(v) != 18
ensures r == i64(le64(v.data, v.offset))

func (*Value).Int64OK(v) (r, ok)
property C03 C04
requires rd(v)
ensures ok: ok == !(uninit(v) || ty(v) != 18)
ensures val: ok ==> r == i64(le64(v.data, v.offset))

func (*Value).Int32(v) (r)
property C03 C04
requires rd(v)
panics uninit(v) || ty(v) != 16
ensures r == i32at(v.data, v.offset)

func (*Value).Int32OK(v) (r, ok)
property C03 C04
requires rd(v)
ensures ok: ok == !(uninit(v) || ty(v) != 16)
ensures val: ok ==> r == i32at(v.data, v.offset)

func (*Value).Int(v) (r)
property C03 C04
requires !uninit(v) && sized(v)
panics ty(v) != 16 && ty(v) != 18
ensures r == (ty(v) == 16 ? i32at(v.data, v.offset) : i64(le64(v.data, v.offset)))

func (*Value).IntOK(v) (r, ok)
property C03 C04
requires rd(v)
ensures ok: ok == !(uninit(v) || (ty(v) != 16 && ty(v) != 18))
ensures val: ok ==> r == (ty(v) == 16 ? i32at(v.data, v.offset) : i64(le64(v.data, v.offset)))

func (*Value).StringValue(v) (r)
property C03 C04
requires rd(v)
panics uninit(v) || ty(v) != 2
ensures lstr(r, v.data, v.offset)

func (*Value).StringValueOK(v) (r, ok)
property C03 C04
requires rd(v)
ensures ok: ok == !(uninit(v) || ty(v) != 2)
ensures val: ok ==> lstr(r, v.data, v.offset)

func (*Value).JavaScript(v) (r)
property C03 C04
requires rd(v)
panics uninit(v) || ty(v) != 13
ensures lstr(r, v.data, v.offset)

func (*Value).JavaScriptOK(v) (r, ok)
property C03 C04
requires rd(v)
ensures ok: ok == !(uninit(v) || ty(v) != 13)
ensures val: ok ==> lstr(r, v.data, v.offset)

func (*Value).Symbol(v) (r)
property C03 C04
requires rd(v)
panics uninit(v) || ty(v) != 14
ensures lstr(r, v.data, v.offset)

func (*Value).Binary(v) (t, b)
property C03 C04
requires rd(v)
panics uninit(v) || ty(v) != 5
ensures t: t == v.data[v.offset+4]
ensures b: len(b) == (t == 2 ? i32at(v.data, v.offset)-4 : i32at(v.data, v.offset)) && (forall i in 0..len(b) :: b[i] == v.data[v.offset+(t == 2 ? 9 : 5)+i])
ensures fresh: fresh(b) || len(b) == 0

func (*Value).BinaryOK(v) (t, b, ok)
property C03 C04
requires rd(v)
ensures ok: ok == !(uninit(v) || ty(v) != 5)
ensures t: ok ==> t == v.data[v.offset+4]
ensures b: ok ==> len(b) == (t == 2 ? i32at(v.data, v.offset)-4 : i32at(v.data, v.offset)) && (forall i in 0..len(b) :: b[i] == v.data[v.offset+(t == 2 ? 9 : 5)+i])

func (*Value).ObjectID(v) (r)
property C03 C04
requires rd(v)
panics uninit(v) || ty(v) != 7
ensures forall i in 0..12 :: r[i] == v.data[v.offset+i]

func (*Value).ObjectIDOK(v) (r, ok)
property C03 C04
requires rd(v)
ensures ok: ok == !(uninit(v) || ty(v) != 7)
ensures val: ok ==> (forall i in 0..12 :: r[i] == v.data[v.offset+i])

func (*Value).Boolean(v) (r)
property C03 C04
requires rd(v)
panics uninit(v) || ty(v) != 8
ensures r == (v.data[v.offset] == 1)

func (*Value).BooleanOK(v) (r, ok)
property C03 C04
requires rd(v)
ensures ok: ok == !(uninit(v) || ty(v) != 8)
ensures val: ok ==> r == (v.data[v.offset] == 1)

# pattern p and options o are the texts before the first and the second NUL
def regexIs(p, o, w, at) = (forall i in 0..len(p) :: p[i] == w[at+i] && p[i] != 0) && w[at+len(p)] == 0
  && (forall i in 0..len(o) :: o[i] == w[at+len(p)+1+i] && o[i] != 0) && w[at+len(p)+1+len(o)] == 0
def noNul(w, a, b) = forall i in a..b :: w[i] != 0

func (*Value).Regex(v) (p, o)
property C03 C04
requires rd(v)
panics uninit(v) || ty(v) != 11
ensures regexIs(p, o, v.data, v.offset)
loopdecr L(v) - $i
inv noNul(v.data, v.offset, $i)
inv noNul(v.data, ostart, $i)
inv exists j in $i..L(v) :: v.data[j] == 0
inv exists j in $i..L(v) :: v.data[j] == 0 && (exists i in $i..j :: v.data[i] == 0)

func (*Value).DBPointer(v) (s, oid)
property C03 C04
requires rd(v)
panics uninit(v) || ty(v) != 12
ensures s: lstr(s, v.data, v.offset)
ensures oid: forall i in 0..12 :: oid[i] == v.data[v.offset+4+i32at(v.data, v.offset)+i]

func (*Value).DBPointerOK(v) (s, oid, ok)
property C03 C04
requires rd(v)
ensures ok: ok == !(uninit(v) || ty(v) != 12)
ensures s: ok ==> lstr(s, v.data, v.offset)
ensures oid: ok ==> (forall i in 0..12 :: oid[i] == v.data[v.offset+4+i32at(v.data, v.offset)+i])

func (*Value).Timestamp(v) (t, i)
property C03 C04
requires rd(v)
panics uninit(v) || ty(v) != 17
ensures t == le32(v.data, v.offset+4) && i == le32(v.data, v.offset)

func (*Value).TimestampOK(v) (t, i, ok)
property C03 C04
requires rd(v)
ensures ok: ok == !(uninit(v) || ty(v) != 17)
ensures val: ok ==> t == le32(v.data, v.offset+4) && i == le32(v.data, v.offset)

func (*Value).Decimal128(v) (r)
property C03 C04
requires rd(v)
panics uninit(v) || ty(v) != 19
ensures r.l == le64(v.data, v.offset) && r.h == le64(v.data, v.offset+8)

func (*Value).Decimal128OK(v) (r, ok)
property C03 C04
requires rd(v)
ensures ok: ok == !(uninit(v) || ty(v) != 19)
ensures val: ok ==> r.l == le64(v.data, v.offset) && r.h == le64(v.data, v.offset+8)

# t is the time ms milliseconds after the epoch
def atms(t, ms) = sec(t) == (ms - ms%1000)/1000 && nano(t) == (ms%1000)*1000000

func (*Value).Time(v) (r)
property C03 C04
requires rd(v)
panics uninit(v) || ty(v) != 9
ensures atms(r, i64(le64(v.data, v.offset)))

func (*Value).TimeOK(v) (r, ok)
property C03 C04
requires rd(v)
ensures ok: ok == !(uninit(v) || ty(v) != 9)
ensures val: ok ==> atms(r, i64(le64(v.data, v.offset)))
