# equality of values (C13)
package birch

# the n1 bytes at o1 of memory m1 are the n2 bytes at o2 of memory m2
def same0(m1, o1, n1, m2, o2, n2) = n1 == n2 && (forall i in 0..n1 :: m1[o1+i] == m2[o2+i])
pred same(m1 mem, o1 int, n1 int, m2 mem, o2 int, n2 int) = same0(m1, o1, n1, m2, o2, n2)

# b starts with a whole value of type t
def starts(b, t) = len(b) < pow2(31)-32 && isval(mem(b), t, off(b)) && enc(mem(b), t, off(b)) <= len(b)

func readValue(src, t) (v, rem, ok)
property C13
reveal isval isrx
unfold t == 11 ==> (forall k in 0..len(src)+1 :: rx(src, 0, k) ==> enc(mem(src), t, off(src)) == k)
ensures part: ok ==> len(v) <= len(src) && v == src[:len(v)]
ensures valid: starts(src, t) ==> ok && len(v) == enc(mem(src), t, off(src))

func checkEqualVal(t1, t2, v1, v2) (r)
property C13
reveal same
ensures type: t1 != t2 ==> !r
ensures bytes: t1 == t2 && starts(v1, t1) && starts(v2, t2) ==> r == same(mem(v1), off(v1), enc(mem(v1), t1, off(v1)), mem(v2), off(v2), enc(mem(v2), t2, off(v2)))

# v holds one whole encoded value
def whole(v) = raw(v) && v.start < v.offset && v.offset <= L(v) && isv(v) && v.offset + rsz(v) <= L(v) && L(v) < pow2(31)-32
def bytesof(v, o) = same(mem(v.data), off(v.data)+v.offset, rsz(v), mem(o.data), off(o.data)+o.offset, rsz(o))

func (*Value).Equal(v, o) (r)
property C13
requires v != nil && o != nil ==> whole(v) && whole(o)
ensures nil: v == nil || o == nil ==> r == (v == nil && o == nil)
ensures same: v != nil && o != nil ==> r == (ty(v) == ty(o) && bytesof(v, o))

func (*Element).Equal(e, o) (r)
property C13
requires e != nil ==> e.value != nil && keyed(e) && whole(e.value)
requires o != nil ==> o.value != nil && keyed(o) && whole(o.value)
ensures nil: e == nil || o == nil ==> r == (e == nil && o == nil)
ensures same: e != nil && o != nil ==> r == (keyOf(e) == keyOf(o) && ty(e.value) == ty(o.value) && bytesof(e.value, o.value))

# equality does not depend on the order of its arguments
lemma samesym [C13]: forall a:mem :: forall i:int :: forall n:int :: forall b:mem :: forall j:int :: forall m:int :: same0(a, i, n, b, j, m) == same0(b, j, m, a, i, n)
