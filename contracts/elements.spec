# elements: the byte-level encoders. C01 = exact bytes, C02 = frame / no panic.
package elements

def fits(s, w, n) = s + n <= len(w)
def disj(a, b) = arr(a) != arr(b) || off(a)+len(a) <= off(b) || off(b)+len(b) <= off(a)
# writer bytes [at, at+len(str)) hold the string followed by a zero byte
def cstrAt(w, at, s) = (forall i in 0..len(s) :: w[at+i] == s[i]) && w[at+len(s)] == 0
def strAt(w, at, s) = le32(w, at) == u32(len(s)+1) && cstrAt(w, at+4, s)
def bytesAt(w, at, b) = forall i in 0..len(b) :: w[at+i] == old(b[i])
def oidAt(w, at, o) = forall i in 0..12 :: w[at+i] == o[i]

func (BSONByteNS).Encode(ns, start, writer, t) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, 1) ==> err == nil && n == 1 && writer[start] == t
ensures small: !fits(start, writer, 1) ==> err == ErrTooSmall && n == 0
modifies writer[start..start+1]
noalloc

func (BooleanNS).Encode(ns, start, writer, b) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, 1) ==> err == nil && n == 1 && writer[start] == (b ? 1 : 0)
ensures small: !fits(start, writer, 1) ==> err == ErrTooSmall && n == 0
modifies writer[start..start+1]
noalloc

func encodeUint32(start, writer, u) (n, err)
property C01 C02
helper
requires start < pow2(62)
ensures ok: fits(start, writer, 4) ==> err == nil && n == 4 && le32(writer, start) == u
ensures small: !fits(start, writer, 4) ==> err == ErrTooSmall && n == 0
modifies writer[start..start+4]
noalloc

func encodeUint64(start, writer, u) (n, err)
property C01 C02
helper
requires start < pow2(62)
ensures ok: fits(start, writer, 8) ==> err == nil && n == 8 && le64(writer, start) == u
ensures small: !fits(start, writer, 8) ==> err == ErrTooSmall && n == 0
modifies writer[start..start+8]
noalloc

func encodeByteSlice(start, writer, b) (n, err)
property C01 C02
helper
requires start < pow2(62)
ensures ok: fits(start, writer, len(b)) ==> err == nil && n == len(b) && bytesAt(writer, start, b)
ensures small: !fits(start, writer, len(b)) ==> err == ErrTooSmall && n == 0
modifies writer[start..start+len(b)]
noalloc

func (Int32NS).Encode(ns, start, writer, v) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, 4) ==> err == nil && n == 4 && le32(writer, start) == u32(v)
ensures small: !fits(start, writer, 4) ==> err == ErrTooSmall && n == 0
modifies writer[start..start+4]

func (Int64NS).Encode|(DatetimeNS).Encode(ns, start, writer, v) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, 8) ==> err == nil && n == 8 && le64(writer, start) == u64(v)
ensures small: !fits(start, writer, 8) ==> err == ErrTooSmall && n == 0
modifies writer[start..start+8]

# a double travels as its IEEE bit pattern
func (DoubleNS).Encode(ns, start, writer, v) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, 8) ==> err == nil && n == 8 && le64(writer, start) == v
ensures small: !fits(start, writer, 8) ==> err == ErrTooSmall && n == 0
modifies writer[start..start+8]

func (TimestampNS).Encode(ns, start, writer, t, i) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, 8) ==> err == nil && n == 8 && le32(writer, start) == i && le32(writer, start+4) == t
ensures small: !fits(start, writer, 8) ==> err == ErrTooSmall
modifies writer[start..start+8]

func (Decimal128NS).Encode(ns, start, writer, d) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, 16) ==> err == nil && n == 16 && le64(writer, start) == d.l && le64(writer, start+8) == d.h
ensures small: !fits(start, writer, 16) ==> err == ErrTooSmall
modifies writer[start..start+16]

func (CStringNS).Encode(ns, start, writer, s) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(s)+1) ==> err == nil && n == len(s)+1 && cstrAt(writer, start, s)
ensures small: !fits(start, writer, len(s)+1) ==> err == ErrTooSmall && n == 0
modifies writer[start..start+len(s)+1]

func (StringNS).Encode|(JavaScriptNS).Encode|(SymbolNS).Encode(ns, start, writer, s) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(s)+5) ==> err == nil && n == len(s)+5 && strAt(writer, start, s)
ensures small: !fits(start, writer, len(s)+5) ==> err == ErrTooSmall
modifies writer[start..start+len(s)+5]

func (ObjectIDNS).Encode(ns, start, writer, oid) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, 12) ==> err == nil && n == 12 && oidAt(writer, start, oid)
ensures small: !fits(start, writer, 12) ==> err == ErrTooSmall && n == 0
modifies writer[start..start+12]

func (DocumentNS).Encode|(ArrayNS).Encode(ns, start, writer, b) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(b)) ==> err == nil && n == len(b) && bytesAt(writer, start, b)
ensures small: !fits(start, writer, len(b)) ==> err == ErrTooSmall && n == 0
modifies writer[start..start+len(b)]

func (BinNS).encodeSubtype2(ns, start, writer, b) (n, err)
property C01 C02
helper
requires start < pow2(62)
ensures ok: fits(start, writer, len(b)+9) ==> err == nil && n == len(b)+9 && le32(writer, start) == u32(len(b)+4) && writer[start+4] == 2 && le32(writer, start+5) == u32(len(b)) && (disj(b, writer) ==> bytesAt(writer, start+9, b))
ensures small: !fits(start, writer, len(b)+9) ==> err == ErrTooSmall
modifies writer[start..start+len(b)+9]

def binLen(b, t) = t == 2 ? len(b)+9 : len(b)+5
def binAt(w, at, b, t) = t == 2 ?
   le32(w, at) == u32(len(b)+4) && w[at+4] == 2 && le32(w, at+5) == u32(len(b)) && bytesAt(w, at+9, b) :
   le32(w, at) == u32(len(b)) && w[at+4] == t && bytesAt(w, at+5, b)

func (BinNS).Encode(ns, start, writer, b, t) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, binLen(b, t)) ==> err == nil && n == binLen(b, t)
ensures bytes: fits(start, writer, binLen(b, t)) && disj(b, writer) ==> binAt(writer, start, b, t)
ensures small: !fits(start, writer, binLen(b, t)) ==> err == ErrTooSmall
modifies writer[start..start+binLen(b, t)]

func (RegexNS).Encode(ns, start, writer, p, o) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(p)+len(o)+2) ==> err == nil && n == len(p)+len(o)+2
     && cstrAt(writer, start, p) && cstrAt(writer, start+len(p)+1, o)
ensures small: !fits(start, writer, len(p)+len(o)+2) ==> err == ErrTooSmall
modifies writer[start..start+len(p)+len(o)+2]

func (DBPointerNS).Encode(ns, start, writer, s, oid) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(s)+17) ==> err == nil && n == len(s)+17 && strAt(writer, start, s) && oidAt(writer, start+len(s)+5, oid)
ensures small: !fits(start, writer, len(s)+17) ==> err == ErrTooSmall
modifies writer[start..start+len(s)+17]

func (CodeWithScopeNS).Encode(ns, start, writer, s, b) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(s)+len(b)+9) ==> err == nil && n == len(s)+len(b)+9
   && le32(writer, start) == u32(len(s)+len(b)+9) && strAt(writer, start+4, s) && (disj(b, writer) ==> bytesAt(writer, start+9+len(s), b))
ensures small: !fits(start, writer, len(s)+len(b)+9) ==> err == ErrTooSmall
modifies writer[start..start+len(s)+len(b)+9]

# whole elements: type byte, key, zero byte, value
def elemAt(w, at, t, k) = w[at] == t && cstrAt(w, at+1, k)

func (DoubleNS).Element(ns, start, writer, key, v) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(key)+10) ==> err == nil && n == len(key)+10 && elemAt(writer, start, 1, key) && le64(writer, start+len(key)+2) == v
ensures small: !fits(start, writer, len(key)+10) ==> err == ErrTooSmall
modifies writer[start..start+len(key)+10]

func (StringNS).Element(ns, start, writer, key, s) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(key)+2+len(s)+5) ==> err == nil && n == len(key)+2+len(s)+5 && elemAt(writer, start, 2, key) && strAt(writer, start+len(key)+2, s)
ensures small: !fits(start, writer, len(key)+2+len(s)+5) ==> err == ErrTooSmall
modifies writer[start..start+len(key)+2+len(s)+5]

func (JavaScriptNS).Element(ns, start, writer, key, s) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(key)+2+len(s)+5) ==> err == nil && n == len(key)+2+len(s)+5 && elemAt(writer, start, 13, key) && strAt(writer, start+len(key)+2, s)
ensures small: !fits(start, writer, len(key)+2+len(s)+5) ==> err == ErrTooSmall
modifies writer[start..start+len(key)+2+len(s)+5]

func (SymbolNS).Element(ns, start, writer, key, s) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(key)+2+len(s)+5) ==> err == nil && n == len(key)+2+len(s)+5 && elemAt(writer, start, 14, key) && strAt(writer, start+len(key)+2, s)
ensures small: !fits(start, writer, len(key)+2+len(s)+5) ==> err == ErrTooSmall
modifies writer[start..start+len(key)+2+len(s)+5]

func (DocumentNS).Element(ns, start, writer, key, b) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(key)+2+len(b)) ==> err == nil && n == len(key)+2+len(b) && elemAt(writer, start, 3, key)
ensures bytes: fits(start, writer, len(key)+2+len(b)) && disj(b, writer) ==> bytesAt(writer, start+len(key)+2, b)
ensures small: !fits(start, writer, len(key)+2+len(b)) ==> err == ErrTooSmall
modifies writer[start..start+len(key)+2+len(b)]

func (ArrayNS).Element(ns, start, writer, key, b) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(key)+2+len(b)) ==> err == nil && n == len(key)+2+len(b) && elemAt(writer, start, 4, key)
ensures bytes: fits(start, writer, len(key)+2+len(b)) && disj(b, writer) ==> bytesAt(writer, start+len(key)+2, b)
ensures small: !fits(start, writer, len(key)+2+len(b)) ==> err == ErrTooSmall
modifies writer[start..start+len(key)+2+len(b)]

func (BinNS).Element(ns, start, writer, key, b, t) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(key)+2+binLen(b,t)) ==> err == nil && n == len(key)+2+binLen(b,t) && elemAt(writer, start, 5, key)
ensures bytes: fits(start, writer, len(key)+2+binLen(b,t)) && disj(b, writer) ==> binAt(writer, start+len(key)+2, b, t)
ensures small: !fits(start, writer, len(key)+2+binLen(b,t)) ==> err == ErrTooSmall
modifies writer[start..start+len(key)+2+binLen(b,t)]

func (ObjectIDNS).Element(ns, start, writer, key, oid) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(key)+14) ==> err == nil && n == len(key)+14 && elemAt(writer, start, 7, key) && oidAt(writer, start+len(key)+2, oid)
ensures small: !fits(start, writer, len(key)+14) ==> err == ErrTooSmall
modifies writer[start..start+len(key)+14]

func (BooleanNS).Element(ns, start, writer, key, b) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(key)+3) ==> err == nil && n == len(key)+3 && elemAt(writer, start, 8, key) && writer[start+len(key)+2] == (b ? 1 : 0)
ensures small: !fits(start, writer, len(key)+3) ==> err == ErrTooSmall
modifies writer[start..start+len(key)+3]

func (DatetimeNS).Element(ns, start, writer, key, v) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(key)+10) ==> err == nil && n == len(key)+10 && elemAt(writer, start, 9, key) && le64(writer, start+len(key)+2) == u64(v)
ensures small: !fits(start, writer, len(key)+10) ==> err == ErrTooSmall
modifies writer[start..start+len(key)+10]

func (RegexNS).Element(ns, start, writer, key, p, o) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(key)+len(p)+len(o)+4) ==> err == nil && n == len(key)+len(p)+len(o)+4
    && elemAt(writer, start, 11, key) && cstrAt(writer, start+len(key)+2, p) && cstrAt(writer, start+len(key)+len(p)+3, o)
ensures small: !fits(start, writer, len(key)+len(p)+len(o)+4) ==> err == ErrTooSmall
modifies writer[start..start+len(key)+len(p)+len(o)+4]

func (DBPointerNS).Element(ns, start, writer, key, s, oid) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(key)+len(s)+19) ==> err == nil && n == len(key)+len(s)+19
    && elemAt(writer, start, 12, key) && strAt(writer, start+len(key)+2, s) && oidAt(writer, start+len(key)+len(s)+7, oid)
ensures small: !fits(start, writer, len(key)+len(s)+19) ==> err == ErrTooSmall
modifies writer[start..start+len(key)+len(s)+19]

func (CodeWithScopeNS).Element(ns, start, writer, key, s, b) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(key)+len(s)+len(b)+11) ==> err == nil && n == len(key)+len(s)+len(b)+11
   && elemAt(writer, start, 15, key) && le32(writer, start+len(key)+2) == u32(len(s)+len(b)+9) && strAt(writer, start+len(key)+6, s)
ensures bytes: fits(start, writer, len(key)+len(s)+len(b)+11) && disj(b, writer) ==> bytesAt(writer, start+len(key)+11+len(s), b)
ensures small: !fits(start, writer, len(key)+len(s)+len(b)+11) ==> err == ErrTooSmall
modifies writer[start..start+len(key)+len(s)+len(b)+11]

func (Int32NS).Element(ns, start, writer, key, v) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(key)+6) ==> err == nil && n == len(key)+6 && elemAt(writer, start, 16, key) && le32(writer, start+len(key)+2) == u32(v)
ensures small: !fits(start, writer, len(key)+6) ==> err == ErrTooSmall
modifies writer[start..start+len(key)+6]

func (TimestampNS).Element(ns, start, writer, key, t, i) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(key)+10) ==> err == nil && n == len(key)+10 && elemAt(writer, start, 17, key) && le32(writer, start+len(key)+2) == i && le32(writer, start+len(key)+6) == t
ensures small: !fits(start, writer, len(key)+10) ==> err == ErrTooSmall
modifies writer[start..start+len(key)+10]

func (Int64NS).Element(ns, start, writer, key, v) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(key)+10) ==> err == nil && n == len(key)+10 && elemAt(writer, start, 18, key) && le64(writer, start+len(key)+2) == u64(v)
ensures small: !fits(start, writer, len(key)+10) ==> err == ErrTooSmall
modifies writer[start..start+len(key)+10]

func (Decimal128NS).Element(ns, start, writer, key, d) (n, err)
property C01 C02
requires start < pow2(62)
ensures ok: fits(start, writer, len(key)+18) ==> err == nil && n == len(key)+18 && elemAt(writer, start, 19, key) && le64(writer, start+len(key)+2) == d.l && le64(writer, start+len(key)+10) == d.h
ensures small: !fits(start, writer, len(key)+18) ==> err == ErrTooSmall
modifies writer[start..start+len(key)+18]
