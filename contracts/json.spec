# JSON strings (C16)
package jsonx

# how many bytes byte c takes in a JSON string, and the byte after the backslash in the two-byte form
def plain(c) = c >= 32 && c != 34 && c != 92
def jw(c) = plain(c) ? 1 : (c == 34 || c == 92 || c == 9 || c == 10 || c == 13 ? 2 : 6)
def esc2(c) = c == 10 ? 110 : (c == 13 ? 114 : (c == 9 ? 116 : c))
def hexd(x) = x < 10 ? 48 + x : 87 + x
# jpos(m, o, n): bytes taken by the first n bytes at o of m
fun jpos(m mem, o int, n int) int
def jp(s, n) = jpos(old(mem(s)), off(s), n)
# byte c is written at out[p...]
def jenc(out, p, c) = jw(c) == 1 ? out[p] == c : out[p] == 92 && (jw(c) == 2 ? out[p+1] == esc2(c) : out[p+1] == 117 && out[p+2] == 48 && out[p+3] == 48 && out[p+4] == (c < 16 ? 48 : 49) && out[p+5] == hexd(c < 16 ? c : c-16))

func writeJSONString(s) (r)
property C16
unfold jp(s, 0) == 0 && (forall n in 0..len(s) :: jp(s, n+1) == jp(s, n) + jw(old(s[n])))
ensures len: len(r) >= 2 + len(s) && len(r) == jp(s, len(s)) + 2 && r[0] == 34 && r[len(r)-1] == 34
ensures bytes: forall k in 0..len(s) {old(s[k])} :: jp(s, k) >= 0 && 1 + jp(s, k) + jw(old(s[k])) <= len(r)-1 && jenc(r, 1+jp(s, k), old(s[k]))
ensures fresh(r)
inv 0 <= i && i <= len(s)
inv len(out) == 1 + jp(s, start)
inv 0 <= start && start <= i
inv out[0] == 34
inv jp(s, i) == i && len(out) == 1 + i && (forall k in 0..i {old(s[k])} :: jp(s, k) == k && plain(old(s[k])) && out[1+k] == old(s[k]))
inv jp(s, i) == jp(s, start) + i - start
inv jp(s, start) >= start

inv forall k in 0..start {old(s[k])} :: jp(s, k) + jw(old(s[k])) <= jp(s, start)
inv forall k in 0..start {old(s[k])} :: jp(s, k) >= 0
inv forall k in 0..start {old(s[k])} :: jenc(out, 1+jp(s, k), old(s[k]))
inv forall k in start..i {old(s[k])} :: jp(s, k) == jp(s, start) + k - start && plain(old(s[k]))

# q is the JSON string for s at r[b...]: a quote, the bytes of s escaped, a quote
def js(s, n) = jpos(mem(s), 0, n)
def jstr(r, b, s) = r[b] == 34 && r[b+1+js(s, len(s))] == 34 && (forall k in 0..len(s) {s[k]} :: js(s, k) >= 0 && b+1 + js(s, k) + jw(s[k]) <= b+1 + js(s, len(s)) && jenc(r, b+1+js(s, k), s[k]))

func (ValueConstructor).String(c, s) (v)
property C16
ensures v != nil && v.t == 0 && is(v.value, "string") && as(v.value, "string") == s
ensures fresh(v)

func (ElementConstructor).Value(c, key, val) (e)
property C16
ensures e != nil && e.key == key && e.value == val
ensures fresh(e)

func (ElementConstructor).String(c, key, val) (e)
property C16
ensures e != nil && e.key == key && e.value != nil && e.value.t == 0 && is(e.value.value, "string") && as(e.value.value, "string") == val

func (encoding/json.Marshaler).MarshalJSON() (r, err)
extern
note the documents and arrays a JSON value holds are written by other methods of jsonx; their text is not looked at here

func (*Value).MarshalJSON(v) (r, err)
property C16
ensures v != nil && v.t == 0 && is(v.value, "string") ==> err == nil && len(r) == js(as(v.value, "string"), len(as(v.value, "string"))) + 2 && jstr(r, 0, as(v.value, "string"))

func (*Document).MarshalJSON(d) (r, err)
property C16
maydiverge
note ends for documents that do not contain themselves (not proved)
requires d != nil && (forall i in 0..len(d.elems) :: d.elems[i] != nil)
note the text of one element's key is specified; every key is written by the same statement of the loop
ensures err == nil ==> len(r) >= 2 && r[0] == 123 && r[len(r)-1] == 125
ensures first: err == nil && len(d.elems) >= 1 ==> len(r) >= js(d.elems[0].key, len(d.elems[0].key)) + 5 && jstr(r, 1, d.elems[0].key) && r[3+js(d.elems[0].key, len(d.elems[0].key))] == 58
inv len(out) >= 1 && out[0] == 123
inv first ==> len(out) == 1
inv first <==> $i < 0
inv !first ==> len(out) >= 4 + js(d.elems[0].key, len(d.elems[0].key)) && js(d.elems[0].key, len(d.elems[0].key)) >= 0
inv !first ==> out[1] == 34
inv !first ==> out[2+js(d.elems[0].key, len(d.elems[0].key))] == 34
inv !first ==> out[3+js(d.elems[0].key, len(d.elems[0].key))] == 58
inv !first ==> (forall k in 0..len(d.elems[0].key) {d.elems[0].key[k]} :: 2 + js(d.elems[0].key, k) + jw(d.elems[0].key[k]) <= 2 + js(d.elems[0].key, len(d.elems[0].key)))
inv !first ==> (forall k in 0..len(d.elems[0].key) {d.elems[0].key[k]} :: js(d.elems[0].key, k) >= 0)
inv !first ==> (forall k in 0..len(d.elems[0].key) {d.elems[0].key[k]} :: jenc(out, 2+js(d.elems[0].key, k), d.elems[0].key[k]))
