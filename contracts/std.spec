# assumed contracts on the standard library and on dependencies (reported as assumptions)
package fmt

func Errorf(format, a) (err)
extern
ensures err != nil

func Sprintf(format, a) (s)
extern
ensures format == "%s" && len(a) == 1 && is(a[0], "string") ==> s == as(a[0], "string")

func Sprint(a) (s)
extern

package time

func Now() (t)
extern

package strconv

fun itoa(n int) str

func Itoa(i) (s)
extern
ensures len(s) > 0 && len(s) <= 20 && s == itoa(i)

package strings

func EqualFold(s, t) (r)
extern

package bytes

func Equal(a, b) (r)
extern
ensures r == (len(a) == len(b) && (forall i in 0..len(a) :: a[i] == b[i]))

package encoding/binary

func (bigEndian).PutUint32(e, b, v)
extern
requires len(b) >= 4
modifies b[0..4]
ensures be32(b, 0) == v

package sync/atomic

func AddUint32(p, d) (n)
extern
modifies *p
ensures *p == u32(old(*p) + d) && n == *p

package encoding/hex

def hexc(n) = n < 10 ? 48+n : 87+n
def hexv(c) = c >= 97 ? c-87 : (c >= 65 ? c-55 : c-48)
def isHex(c) = (c >= 48 && c <= 57) || (c >= 65 && c <= 70) || (c >= 97 && c <= 102)

func EncodeToString(src) (s)
extern
ensures len(s) == 2*len(src) && (forall j in 0..2*len(src) :: s[j] == hexc(j%2 == 0 ? src[j/2]/16 : src[j/2]%16))

func DecodeString(s) (b, err)
extern
ensures fresh(b)
ensures (err == nil) == (len(s)%2 == 0 && (forall i in 0..len(s) :: isHex(s[i])))
ensures err == nil ==> len(s) == 2*len(b) && (forall i in 0..len(b) :: b[i] == 16*hexv(s[2*i]) + hexv(s[2*i+1]))

package strings

func IndexByte(s, c) (i)
extern
ensures i >= 0-1 && i < len(s)
ensures i >= 0 ==> s[i] == c
ensures forall j in 0..(i < 0 ? len(s) : i) :: s[j] != c

package sync

func (*RWMutex).RLock|(*RWMutex).RUnlock|(*RWMutex).Lock|(*RWMutex).Unlock|(*Mutex).Lock|(*Mutex).Unlock(m)
extern
requires m != nil

package bytes

func IndexByte(b, c) (i)
extern
ensures i >= 0-1 && i < len(b)
ensures i >= 0 ==> b[i] == c
ensures forall j in 0..(i < 0 ? len(b) : i) :: b[j] != c

package encoding/binary

# the j-th group of seven bits of x
def dig(x, j) = (j == 0 ? x : (j == 1 ? x/128 : (j == 2 ? x/16384 : (j == 3 ? x/2097152 : (j == 4 ? x/268435456 : (j == 5 ? x/34359738368 : (j == 6 ? x/4398046511104 : (j == 7 ? x/562949953421312 : (j == 8 ? x/72057594037927936 : (j == 9 ? x/9223372036854775808 : 0))))))))))
# the n bytes at o of memory m are the varint of x: groups of seven bits from the lowest, all but the last with the high bit
def uvarint(m, o, n, x) = n >= 1 && n <= 10 && (forall j in 0..n-1 :: m[o+j] == 128 + dig(x, j)%128) && m[o+n-1] == dig(x, n-1) && dig(x, n-1) < 128

func PutUvarint(buf, x) (n)
property C21
requires len(buf) >= 10
modifies buf[0..10]
ensures val: uvarint(mem(buf), off(buf), n, x)
inv x == dig(old(x), $i)
inv $i <= 9
inv forall j in 0..$i :: buf[j] == 128 + dig(old(x), j)%128

package time

# seconds since the epoch and nanoseconds within the second
fun tsec(w int, e int) int
fun tnano(w int, e int) int
def sec(t) = tsec(t.wall, t.ext)
def nano(t) = tnano(t.wall, t.ext)

func (Time).Unix(t) (s)
extern
ensures s == sec(t)

func (Time).Nanosecond(t) (s)
extern
ensures s == nano(t) && s >= 0 && s < 1000000000

func (Time).UnixMilli(t) (s)
extern
ensures nano(t) >= 0 && nano(t) < 1000000000 && s == i64(sec(t)*1000 + nano(t)/1000000)

func (Time).IsZero(t) (r)
extern

func Unix(s, n) (t)
extern
requires n > 0-1000000000 && n < 1000000000
ensures n >= 0 ==> sec(t) == s && nano(t) == n
ensures n < 0 ==> sec(t) == s-1 && nano(t) == n+1000000000

package strings

func Join(elems, sep) (s)
extern

package io

func ReadFull(r, buf) (n, err)
extern
requires !isnil(r)
modifies buf[0..len(buf)]
ensures n >= 0 && n <= len(buf) && (err == nil) == (n == len(buf))
# a length read from a stream is below 2^31-32 (larger documents are not covered)
ensures len(buf) == 4 ==> i32at(buf, 0) < pow2(31)-32

package fun/adt

# buffer pools (of slices of bytes): a buffer taken from the pool is used by nobody else, one that is put back may be overwritten at any time
func (*Pool).Get(p) (b)
extern
ensures fresh(b) && len(b) == 0

func (*Pool).Put(p, b)
extern
modifies b[0..cap(b)]

package strconv

func Atoi(s) (n, err)
extern
