# reading bytes as BSON (C05, C06)
package birch

def known(t) = t <= 19 && t >= 1 || t == 127 || t == 255
def vlen(w, t, o) = t == 1 || t == 9 || t == 17 || t == 18 ? 8 : (t == 2 || t == 13 || t == 14 ? 4+i32at(w, o) : (t == 3 || t == 4 || t == 15 ? i32at(w, o) : (t == 5 ? 5+i32at(w, o) : (t == 7 ? 12 : (t == 8 ? 1 : (t == 12 ? 16+i32at(w, o) : (t == 16 ? 4 : (t == 19 ? 16 : 0))))))))
# two C strings of n bytes together at byte o of memory m
def rx(m, o, n) = n >= 2 && m[o+n-1] == 0 && (exists i in o..o+n-1 :: m[i] == 0 && (forall j in o..i :: m[j] != 0) && (forall j in i+1..o+n-1 :: m[j] != 0))
pred isrx(m mem, o int, n int) = rx(m, o, n)
# no NUL in lo..hi
pred nonul(m mem, lo int, hi int) = forall j in lo..hi :: m[j] != 0
# length of the encoding of the value of type t at byte o of memory m: vlen, and for a regular expression its two C strings
fun enc(m mem, t int, o int) int
# a value of type t is encoded at byte o of memory m, going by its lengths, terminators and what size-only validation checks
pred isval(m mem, t int, o int) = known(t)
  && (t == 2 || t == 13 || t == 14 || t == 12 ==> i32at(m, o) >= 1)
  && (t == 3 || t == 4 ==> i32at(m, o) >= 5)
  && (t == 5 ==> i32at(m, o) >= 0 && !(m[o+4] > 5 && m[o+4] < 128) && (m[o+4] == 2 ==> i32at(m, o) >= 4 && i32at(m, o+5) == i32at(m, o)-4))
  && (t == 8 ==> m[o] <= 1)
  && (t == 15 ==> i32at(m, o) >= 4)
  && (t == 11 ? isrx(m, o, enc(m, t, o)) : enc(m, t, o) == vlen(m, t, o))
# what full validation checks besides
def full(w, t, o) = (t == 2 || t == 13 || t == 14 || t == 12 ==> w[o+4+i32at(w, o)-1] == 0)
  && (t == 15 ==> i32at(w, o) >= 14 && i32at(w, o+4) >= 1 && i32at(w, o+4) <= i32at(w, o)-13 && w[o+8+i32at(w, o+4)-1] == 0 && i32at(w, o+8+i32at(w, o+4)) == i32at(w, o)-8-i32at(w, o+4))

func readi32(b) (r)
property C05 C06
requires len(b) >= 4
ensures r == i32(le32(b, 0))

func (Reader).validateKey(r, pos, end) (n, err)
property C05
requires pos <= end && end <= len(r)
ensures notdone: err != errValidateDone
ensures found: (err == nil) == (exists i in pos..end :: r[i] == 0)
ensures val: err == nil ==> n >= 1 && pos+n <= end && r[pos+n-1] == 0 && (forall i in pos..pos+n-1 :: r[i] != 0)
ensures bound: n <= end - pos
inv forall i in old(pos)..pos :: r[i] != 0
inv pos == old(pos) + total
inv pos <= end

func newReaderIterator(r) (itr, err)
property C05
ensures when: (err == nil) == (len(r) >= 5 && i32at(r, 0) >= 0 && i32at(r, 0) <= len(r))
ensures made: err == nil ==> fresh(itr) && itr.r == r && itr.pos == 4 && itr.end == i32at(r, 0) && isnil(itr.err)

# document graphs: okd(d) says that d and everything below it is well shaped and that the graph has no cycle (rank)
heapreads github.com/tychoish/birch.Document github.com/tychoish/birch.Element github.com/tychoish/birch.Value []*github.com/tychoish/birch.Element []uint8
heapfun okd(d int) bool
heapfun rank(d int) int
# sizes: a value's, a document's, and the first k elements of a document or array
heapfun vsz(v int) int
heapfun dsz(d int) int
heapfun asz(d int) int
heapfun psum(d int, k int) int
heapfun asum(d int, k int) int
def shape(v) = v.data != nil ==> v.start < v.offset && v.offset <= L(v) && L(v) < pow2(31)-32
def okv(v) = shape(v) && (v.d != nil ==> okd(v.d) && (v.data != nil ==> ty(v) == 3 || ty(v) == 4 || ty(v) == 15))
# flat(d): every element of d holds raw bytes, as in a document that was just read
def flate(e) = e != nil && e.value != nil && e.value.d == nil && shape(e.value)
def flat(d) = forall i in 0..len(d.elems) :: flate(d.elems[i])
def oke(e) = e == nil || e.value == nil || okv(e.value)
def deep(v) = v.d == nil ? 2*L(v) : pow2(49) + 4*rank(v.d) + 2
def esz(e) = e.value.offset - e.value.start + vsz(e.value)
def rsz(v) = enc(mem(v.data), ty(v), off(v.data)+v.offset)
def isv(v) = isval(mem(v.data), ty(v), off(v.data)+v.offset)
def raw(v) = v.data != nil && v.d == nil

func (*Value).validate(v, sizeOnly) (n, err)
property C05 C06 C07
requires v != nil && okv(v)
unfold v.d != nil ==> rank(v.d) >= 0
unfold v.d != nil && okd(v.d) && v.data != nil && ty(v) == 4 ==> (forall i in 0..len(v.d.elems) :: v.d.elems[i] != nil && v.d.elems[i].value != nil)
unfold raw(v) ==> vsz(v) == rsz(v)
unfold raw(v) && ty(v) == 11 ==> (forall k in 0..L(v)-v.offset+1 :: rx(v.data, v.offset, k) ==> rsz(v) == k)
unfold raw(v) && ty(v) != 11 ==> rsz(v) == vlen(v.data, ty(v), v.offset)
reveal isval isrx
unfold v.data != nil && v.d != nil ==> (ty(v) == 3 ==> vsz(v) == dsz(v.d)) && (ty(v) == 4 ==> vsz(v) == asz(v.d)) && (ty(v) == 15 ==> vsz(v) == 8 + i32at(v.data, v.offset+4) + dsz(v.d))
ensures init: v.data == nil ==> err != nil
ensures bound: raw(v) && err == nil ==> n <= L(v)
ensures notdone: err != errValidateDone
ensures extent: raw(v) && err == nil ==> v.offset + n <= L(v) && isv(v)
ensures full: raw(v) && err == nil && !sizeOnly ==> full(v.data, ty(v), v.offset)
ensures sized: raw(v) && err == nil ==> sized(v)
ensures size: raw(v) && err == nil ==> n == rsz(v) && n == vsz(v)
ensures deep: v.data != nil && v.d != nil && err == nil ==> n == u32(vsz(v))
inv forall j in init($i)..$i :: v.data[j] != 0
decreases deep(v)

func (*Element).validateKey(e) (n, err)
property C06 C07
requires e != nil && e.value != nil && okv(e.value)
ensures notdone: err != errValidateDone
ensures when: (err == nil) == (e.value.data != nil && e.value.offset >= e.value.start+2 && e.value.data[e.value.offset-1] == 0 && nonul(mem(e.value.data), off(e.value.data)+e.value.start+1, off(e.value.data)+e.value.offset-1))
reveal nonul
ensures val: err == nil ==> n == e.value.offset - e.value.start - 1
inv forall i in e.value.start+1..pos :: e.value.data[i] != 0
inv pos == e.value.start + 1 + total

func (*Element).Validate(e) (n, err)
property C06 C07
requires oke(e)
unfold e != nil && e.value != nil && e.value.d != nil ==> rank(e.value.d) >= 0
ensures nil: e == nil || e.value == nil || e.value.data == nil ==> err != nil
ensures size: err == nil ==> n == u32(esz(e))
ensures notdone: err != errValidateDone
ensures key: err == nil ==> keyed(e) && e.value.data[e.value.offset-1] == 0 && nonul(mem(e.value.data), off(e.value.data)+e.value.start+1, off(e.value.data)+e.value.offset-1)
reveal nonul
ensures extent: err == nil && raw(e.value) ==> n == e.value.offset - e.value.start + rsz(e.value) && e.value.start + n <= L(e.value) && isv(e.value) && full(e.value.data, ty(e.value), e.value.offset)
decreases e == nil || e.value == nil ? 0 : deep(e.value) + 1

# lnk(d) is linked(d), lpos(d, k) the byte after element k-1 (4 for k = 0)
heapfun lnk(d int) bool
heapfun lpos(d int, k int) int
def linked(d) = flat(d) && (len(d.elems) > 0 ==> d.elems[0].value.start == 4) && (forall i in 0..len(d.elems) :: eend(d.elems[i]) < pow2(31)) && (forall i in 0..len(d.elems) :: forall j in 0..len(d.elems) :: j == i+1 ==> d.elems[j].value.start == eend(d.elems[i]))
func (*Document).Validate(d) (n, err)
property C07
requires d != nil ==> okd(d) || flat(d)
unfold d != nil && okd(d) ==> (forall i in 0..len(d.elems) :: oke(d.elems[i]) && (d.elems[i] != nil && d.elems[i].value != nil && d.elems[i].value.d != nil ==> rank(d.elems[i].value.d) < rank(d)))
unfold d != nil ==> rank(d) >= 0
unfold d != nil ==> psum(d, 0) == 0 && (forall k in 0..len(d.elems) :: psum(d, k+1) == psum(d, k) + esz(d.elems[k])) && dsz(d) == 5 + psum(d, len(d.elems))
ensures nil: d == nil ==> err != nil
ensures notdone: err != errValidateDone
ensures size: err == nil ==> n == u32(dsz(d))
inv size == u32(5 + psum(d, $k))
# a document whose elements lie one after the other from byte 4 up to byte p has p+1 bytes
unfold d != nil && lnk(d) ==> lpos(d, 0) == 4 && (forall k in 0..len(d.elems) :: flate(d.elems[k]) && d.elems[k].value.start == lpos(d, k) && eend(d.elems[k]) == lpos(d, k+1) && eend(d.elems[k]) < pow2(31))
ensures span: err == nil && d != nil && lnk(d) ==> n == lpos(d, len(d.elems)) + 1
inv lnk(d) ==> size == lpos(d, $k) + 1
decreases pow2(49) + 4*rank(d)

func (*Array).Validate(a) (n, err)
property C07
requires a != nil && a.doc != nil && okd(a.doc)
requires forall i in 0..len(a.doc.elems) :: a.doc.elems[i] != nil && a.doc.elems[i].value != nil
unfold okd(a.doc) ==> (forall i in 0..len(a.doc.elems) :: oke(a.doc.elems[i]) && (a.doc.elems[i] != nil && a.doc.elems[i].value != nil && a.doc.elems[i].value.d != nil ==> rank(a.doc.elems[i].value.d) < rank(a.doc))) && rank(a.doc) >= 0
unfold asum(a.doc, 0) == 0 && (forall k in 0..len(a.doc.elems) :: asum(a.doc, k+1) == asum(a.doc, k) + 2 + len(itoa(k)) + vsz(a.doc.elems[k].value)) && asz(a.doc) == 5 + asum(a.doc, len(a.doc.elems))
ensures size: err == nil ==> n == u32(asz(a.doc))
ensures notdone: err != errValidateDone
inv size == u32(5 + asum(a.doc, $k))
decreases pow2(49) + 4*rank(a.doc) + 1

func (*readerIterator).Next(itr) (ok)
property C05 C08
requires itr != nil && itr.end <= len(itr.r) && len(itr.r) < pow2(31)-32 && itr.pos >= 4 && itr.pos <= len(itr.r) && isnil(itr.err)
modifies itr.pos, itr.elem, itr.err
ensures more: ok ==> isnil(itr.err) && itr.pos > old(itr.pos) && itr.pos <= len(itr.r) && fresh(itr.elem) && fresh(itr.elem.value)
ensures elem: ok ==> itr.elem.value.data == itr.r && itr.elem.value.start == old(itr.pos) && itr.elem.value.d == nil && sized(itr.elem.value) && keyed(itr.elem) && itr.elem.value.offset + rsz(itr.elem.value) == itr.pos && itr.r[itr.elem.value.offset-1] == 0 && nonul(mem(itr.r), off(itr.r)+itr.elem.value.start+1, off(itr.r)+itr.elem.value.offset-1)
reveal nonul
ensures type: ok ==> itr.r[itr.elem.value.start] != 0
ensures extent: ok ==> isv(itr.elem.value)
decreases 2*len(itr.r)+1
ensures last: !ok && isnil(itr.err) ==> itr.pos == old(itr.pos) && itr.pos + 1 == itr.end && itr.r[itr.pos] == 0

func (Reader).Validate(r) (n, err)
property C05 C06
reveal isval
requires len(r) < pow2(31)-32
ensures notdone: err != errValidateDone
ensures size: err == nil ==> len(r) >= 5 && n == i32at(r, 0) && n <= len(r) && r[n-1] == 0
inv pos <= len(r)
inv end == i32at(r, 0)
inv pos >= 4
decreases 2*len(r)+1

# the elements of d are the consecutive encoded elements of b, from byte 4 up to byte p
def rawe(e, b) = flate(e) && e.value.data == b && keyed(e) && b[e.value.offset-1] == 0 && b[e.value.start] != 0 && nonul(mem(b), off(b)+e.value.start+1, off(b)+e.value.offset-1) && isv(e.value) && eend(e) <= len(b)
def eend(e) = e.value.offset + rsz(e.value)
def chain(d, b, p) = (forall i in 0..len(d.elems) :: rawe(d.elems[i], b))
  && (len(d.elems) == 0 ? p == 4 : d.elems[0].value.start == 4 && eend(d.elems[len(d.elems)-1]) == p)
  && (forall i in 0..len(d.elems) :: forall j in 0..len(d.elems) :: j == i+1 ==> d.elems[j].value.start == eend(d.elems[i]))

func (*Document).UnmarshalBSON(d, b) (err)
property C05 C08
requires d != nil && len(b) < pow2(31)-32
modifies d.elems, d.cacheValid
ensures cache: !d.cacheValid
ensures flat: flat(d) && fresh(d.elems)
ensures len: err == nil ==> len(b) >= 5 && i32at(b, 0) >= 5 && i32at(b, 0) <= len(b) && b[i32at(b, 0)-1] == 0
ensures elems: err == nil ==> chain(d, b, i32at(b, 0)-1)
inv 4 <= $i && $i <= len(b)
inv fresh(d.elems) && flat(d)
decreases 2*len(b)+2
inv forall i in 0..len(d.elems) :: d.elems[i].value.data == b
inv forall i in 0..len(d.elems) :: keyed(d.elems[i])
inv forall i in 0..len(d.elems) :: b[d.elems[i].value.offset-1] == 0
inv forall i in 0..len(d.elems) :: b[d.elems[i].value.start] != 0
inv forall i in 0..len(d.elems) :: nonul(mem(b), off(b)+d.elems[i].value.start+1, off(b)+d.elems[i].value.offset-1)
inv forall i in 0..len(d.elems) :: isv(d.elems[i].value)
inv forall i in 0..len(d.elems) :: eend(d.elems[i]) <= len(b)
inv len(d.elems) == 0 ? $i == 4 : d.elems[0].value.start == 4
inv len(d.elems) > 0 ==> eend(d.elems[len(d.elems)-1]) == $i
inv forall i in 0..len(d.elems) :: forall j in 0..len(d.elems) :: j == i+1 ==> d.elems[j].value.start == eend(d.elems[i])

func ReadDocument(b) (d, err)
property C05 C08
requires len(b) < pow2(31)-32
ensures fail: err != nil ==> d == nil
ensures flat: err == nil ==> fresh(d) && flat(d) && fresh(d.elems)
ensures len: err == nil ==> len(b) >= 5 && i32at(b, 0) >= 5 && i32at(b, 0) <= len(b) && b[i32at(b, 0)-1] == 0
ensures elems: err == nil ==> chain(d, b, i32at(b, 0)-1)
unfoldpost err == nil && linked(d) ==> lnk(d) && lpos(d, 0) == 4 && (len(d.elems) > 0 ==> lpos(d, len(d.elems)) == eend(d.elems[len(d.elems)-1]))
ensures span: err == nil ==> lnk(d) && lpos(d, len(d.elems)) == i32at(b, 0)-1
decreases 2*len(b)+3

# embedded documents are read on first use and kept
func (*Value).MutableDocument(v) (d)
property C05 C08
requires uninit(v) || v.start < v.offset && v.offset <= L(v) && L(v) < pow2(31)-32
modifies v.d
panics uninit(v) || ty(v) != 3
maypanic v.d == nil
ensures d == v.d && d != nil
ensures same: old(v.d) != nil ==> d == old(v.d)
ensures read: old(v.d) == nil ==> fresh(d) && fresh(d.elems) && flat(d)
decreases uninit(v) ? 0 : 2*L(v)+4

# looking up an index or a key path; readElements runs the caller's function on each element
func (Reader).ElementAt(r, index) (e, err)
property C05
reveal isval
requires len(r) < pow2(31)-32
ensures found: err == nil ==> e != nil && e.value != nil && e.value.data == r && e.value.d == nil && sized(e.value)
ensures none: err != nil ==> e == nil
inv pos <= len(r)
inv end == i32at(r, 0)
inv pos >= 4
decreases 2*len(r)+1

func (Reader).RecursiveLookup(r, key) (e, err)
property C05
reveal isval
requires len(r) < pow2(31)-32
inv pos <= len(r)
inv end == i32at(r, 0)
inv pos >= 4
decreases 2*len(r)+1

# reading from a stream
func NewFromIOReader(r) (out, err)
property C05
ensures nil: isnil(r) ==> err != nil
ensures read: err == nil ==> fresh(out) && len(out) >= 4 && i32at(out, 0) == len(out)

func (*Document).ReadFrom(d, r) (n, err)
property C05
requires d != nil && !isnil(r)
modifies d.elems, d.cacheValid
ensures count: n >= 0
ensures flat: err == nil ==> flat(d) && fresh(d.elems) && !d.cacheValid
ensures one: err == nil ==> (forall i in 0..len(d.elems) :: d.elems[i].value.data == d.elems[0].value.data)
ensures whole: err == nil && len(d.elems) > 0 ==> n == len(d.elems[0].value.data)
ensures last: err == nil && len(d.elems) > 0 ==> eend(d.elems[len(d.elems)-1]) == n-1
ensures first: err == nil && len(d.elems) > 0 ==> d.elems[0].value.start == 4
ensures next: err == nil ==> (forall i in 0..len(d.elems) :: forall j in 0..len(d.elems) :: j == i+1 ==> d.elems[j].value.start == eend(d.elems[i]))
ensures raw: err == nil ==> (forall i in 0..len(d.elems) :: rawe(d.elems[i], d.elems[i].value.data))

# looking up a key path in a Document: rdd(d) says that d and every document embedded below it can be read
heapfun rdd(d int) bool
def readable(d) = forall i in 0..len(d.elems) :: d.elems[i] != nil && d.elems[i].value != nil && keyed(d.elems[i]) && shape(d.elems[i].value)
def unread(d) = forall i in 0..len(d.elems) :: d.elems[i].value.d == nil

func (*Document).Search(d, keys) (e, err)
property C05 C09
requires d != nil ==> readable(d) && (unread(d) || rdd(d))
unfold d != nil && rdd(d) ==> (forall i in 0..len(d.elems) :: d.elems[i].value.d != nil ==> readable(d.elems[i].value.d) && rdd(d.elems[i].value.d))
modifies all("Value", "d")
epochs
decreases len(keys)
ensures none: (e == nil) == (err != nil)
ensures first: d != nil && len(keys) == 1 ==> (forall k in 0..len(d.elems) :: first(d.elems, k, keys[0]) ==> e == d.elems[k])
ensures absent: d != nil && len(keys) > 0 && absent(d.elems, keys[0]) ==> e == nil

func (*Array).findElementForStrKey(a, key) (e)
property C05 C09
requires a != nil ==> a.doc != nil && readable(a.doc) && (unread(a.doc) || rdd(a.doc))
unfold a != nil && rdd(a.doc) ==> (forall i in 0..len(a.doc.elems) :: a.doc.elems[i].value.d != nil ==> readable(a.doc.elems[i].value.d) && rdd(a.doc.elems[i].value.d))
modifies all("Value", "d")
epochs
decreases len(key)
