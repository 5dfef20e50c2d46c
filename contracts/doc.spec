# documents and arrays as ordered lists of elements (C09, C10, C11)
package birch

def keyedAll(s) = forall i in 0..len(s) :: keyed(s[i])
def sameOrLater(elems, d) = arr(elems) != arr(d.elems) || off(elems)+len(elems) <= off(d.elems)+len(d.elems)
def someNil(elems) = exists i in 0..len(elems) :: elems[i] == nil
# k is the first element of s with the key
def first(s, k, key) = keyOf(s[k]) == key && (forall j in 0..k :: keyOf(s[j]) != key)
def absent(s, key) = forall j in 0..len(s) :: keyOf(s[j]) != key
# m maps each key of s to its first element, and has no other keys
def mapOf(m, s) = (forall i in 0..len(s) :: has(m, keyOf(s[i]))) && (forall i in 0..len(s) :: first(s, i, keyOf(s[i])) ==> m[keyOf(s[i])] == s[i])
   && (forall k:str :: has(m, k) ==> (exists i in 0..len(s) :: keyOf(s[i]) == k))
def cacheOk(d) = d.cacheValid ==> mapOf(d.cache, d.elems)
def kept(d) = old(cacheOk(d)) ==> cacheOk(d)

func (*Document).Append(d, elems) (r)
property C09 C10 C11
requires d != nil
requires sameOrLater(elems, d)
panics someNil(elems)
ensures self: r == d
ensures len: len(d.elems) == old(len(d.elems)) + len(elems)
ensures kept: forall i in 0..old(len(d.elems)) :: d.elems[i] == old(d.elems[i])
ensures added: forall i in 0..len(elems) :: d.elems[old(len(d.elems))+i] == old(elems[i])
ensures cache: kept(d)
ensures place: arr(d.elems) == old(arr(d.elems)) && off(d.elems) == old(off(d.elems)) || fresh(d.elems)
modifies d.elems, d.cacheValid, d.elems[len(d.elems)..cap(d.elems)]
inv len(d.elems) == old(len(d.elems)) + $k
inv forall i in 0..old(len(d.elems)) :: d.elems[i] == old(d.elems[i])
inv forall i in 0..$k :: d.elems[old(len(d.elems))+i] == old(elems[i])
inv forall i in 0..$k :: old(elems[i]) != nil
inv forall i in 0..len(elems) :: elems[i] == old(elems[i])
inv arr(d.elems) == old(arr(d.elems)) ==> off(d.elems) == old(off(d.elems)) && cap(d.elems) == old(cap(d.elems))

func (*Document).Extend(d, d2) (r)
property C09 C10
requires d != nil && d2 != nil
requires sameOrLater(d2.elems, d)
panics someNil(d2.elems)
ensures self: r == d
ensures len: len(d.elems) == old(len(d.elems)) + old(len(d2.elems))
ensures kept: forall i in 0..old(len(d.elems)) :: d.elems[i] == old(d.elems[i])
ensures added: forall i in 0..old(len(d2.elems)) :: d.elems[old(len(d.elems))+i] == old(d2.elems[i])
ensures cache: kept(d)
modifies d.elems, d.cacheValid, d.elems[len(d.elems)..cap(d.elems)]

func (*Document).Len(d) (n)
property C09
requires d != nil
ensures n == len(d.elems)

func (DocumentConstructor).Make(dc, n) (d)
property C09 C11
requires n >= 0 && n <= pow2(45)
ensures fresh(d) && len(d.elems) == 0 && cacheOk(d) && fresh(d.elems)

func (DocumentConstructor).Elements(dc, elems) (d)
property C09
panics someNil(elems)
ensures fresh(d) && len(d.elems) == len(elems) && (forall i in 0..len(elems) :: d.elems[i] == elems[i]) && cacheOk(d) && fresh(d.elems)

func (*Document).Copy(d) (r)
property C09
requires d != nil
ensures shape: fresh(r) && len(r.elems) == len(d.elems)
ensures vals: forall i in 0..len(d.elems) :: r.elems[i] == d.elems[i]
ensures own: (fresh(r.elems) || cap(r.elems) == 0) && cacheOk(r)

func (*Document).Set(d, elem) (r)
property C09 C10
requires d != nil && keyedAll(d.elems) && keyed(elem)
panics elem == nil
ensures self: r == d
ensures replaced: forall k in 0..old(len(d.elems)) :: old(first(d.elems, k, keyOf(elem))) ==> len(d.elems) == old(len(d.elems)) && d.elems[k] == elem && (forall i in 0..old(len(d.elems)) :: i != k ==> d.elems[i] == old(d.elems[i]))
ensures appended: old(absent(d.elems, keyOf(elem))) ==> len(d.elems) == old(len(d.elems)) + 1 && d.elems[old(len(d.elems))] == elem && (forall i in 0..old(len(d.elems)) :: d.elems[i] == old(d.elems[i]))
ensures cache: kept(d)
modifies d.elems, d.cacheValid, d.elems[0..cap(d.elems)]
inv forall j in 0..$k :: keyOf(d.elems[j]) != keyOf(elem)

func (*Document).Delete(d, key) (r)
property C09 C10
requires d != nil && keyedAll(d.elems)
ensures found: forall k in 0..old(len(d.elems)) :: old(first(d.elems, k, key)) ==> r == old(d.elems[k]) && len(d.elems) == old(len(d.elems)) - 1 && (forall i in 0..k :: d.elems[i] == old(d.elems[i])) && (forall i in k..len(d.elems) :: d.elems[i] == old(d.elems[i+1]))
ensures absent: old(absent(d.elems, key)) ==> r == nil && len(d.elems) == old(len(d.elems)) && (forall i in 0..len(d.elems) :: d.elems[i] == old(d.elems[i]))
ensures cache: kept(d)
modifies d.elems, d.cacheValid, d.elems[0..len(d.elems)]
inv forall j in 0..$k :: keyOf(d.elems[j]) != key

func (*Document).ElementAt(d, index) (r)
property C09
requires d != nil && index < len(d.elems)
ensures r == d.elems[index]

func (*Document).ElementAtOK(d, index) (r, ok)
property C09 C11
requires d != nil
ensures ok: ok == (index < len(d.elems))
ensures val: ok ==> r == d.elems[index]
ensures none: !ok ==> r == nil

func (*Document).Reset(d)
property C09 C10
requires d != nil
ensures len: len(d.elems) == 0
ensures cleared: forall i in 0..old(len(d.elems)) :: old(d.elems)[i] == nil
ensures cache: kept(d)
modifies d.elems, d.cacheValid, d.elems[0..len(d.elems)]
inv forall i in 0..$k :: d.elems[i] == nil

func (*Document).findElemForKey|(*Document).LookupElement(d, key) (r)
property C09
requires d != nil && keyedAll(d.elems)
ensures one: r != nil ==> (exists k in 0..len(d.elems) :: r == d.elems[k])
ensures found: forall k in 0..len(d.elems) :: first(d.elems, k, key) ==> r == d.elems[k]
ensures absent: absent(d.elems, key) ==> r == nil
inv forall j in 0..$k :: keyOf(d.elems[j]) != key

func (*Document).Lookup(d, key) (r)
property C09
requires d != nil && keyedAll(d.elems)
ensures found: forall k in 0..len(d.elems) :: first(d.elems, k, key) && d.elems[k] != nil ==> r == d.elems[k].value
ensures absent: absent(d.elems, key) ==> r == nil

func (*Document).LookupElementErr(d, key) (r, err)
property C09
requires d != nil && keyedAll(d.elems)
ensures found: forall k in 0..len(d.elems) :: first(d.elems, k, key) && d.elems[k] != nil ==> r == d.elems[k] && err == nil
ensures absent: absent(d.elems, key) ==> r == nil && err != nil

func (*Document).LookupErr(d, key) (r, err)
property C09
requires d != nil && keyedAll(d.elems)
ensures found: forall k in 0..len(d.elems) :: first(d.elems, k, key) && d.elems[k] != nil ==> r == d.elems[k].value && err == nil
ensures absent: absent(d.elems, key) ==> r == nil && err != nil

func (*Document).refreshCache(d)
property C10
requires d != nil && keyedAll(d.elems)
requires cacheOk(d)
ensures valid: d.cacheValid && mapOf(d.cache, d.elems)
modifies d.cache, d.cacheValid
inv forall i in 0..$k :: has(out, keyOf(d.elems[i]))
inv forall i in 0..$k :: first(d.elems, i, keyOf(d.elems[i])) ==> out[keyOf(d.elems[i])] == d.elems[i]
inv forall k:str :: has(out, k) ==> (exists i in 0..$k :: keyOf(d.elems[i]) == k)

func (*Document).Map(d) (r)
property C10
requires d != nil && keyedAll(d.elems)
requires cacheOk(d)
ensures map: mapOf(r, d.elems)
ensures own: fresh(r)
modifies d.cache, d.cacheValid

func (DocumentMap).Copy(dm) (r)
property C10
ensures same: forall k:str :: has(r, k) == has(dm, k) && (has(dm, k) ==> r[k] == dm[k])
ensures own: fresh(r)
inv forall k:str :: has(out, k) == seen(k) && (seen(k) ==> out[k] == dm[k])

func NewArray(values) (a)
property C11 C12
ensures fresh(a) && fresh(a.doc)
ensures len: len(a.doc.elems) == len(values)
ensures vals: forall i in 0..len(values) :: a.doc.elems[i] != nil && fresh(a.doc.elems[i]) && a.doc.elems[i].value == values[i]
ensures own: fresh(a.doc.elems) || cap(a.doc.elems) == 0
inv len(doc.elems) == $k
inv fresh(doc.elems)
inv forall i in 0..$k :: doc.elems[i] != nil && fresh(doc.elems[i]) && doc.elems[i].value == values[i]

func MakeArray(size) (a)
property C11
requires size >= 0 && size <= pow2(45)
ensures fresh(a) && fresh(a.doc) && len(a.doc.elems) == 0 && fresh(a.doc.elems)

# an array built by this package: a document whose elements are not nil
def wfArr(a) = a != nil && a.doc != nil && (forall i in 0..len(a.doc.elems) :: a.doc.elems[i] != nil)

func (*Array).Len(a) (n)
property C11
requires a != nil && a.doc != nil
ensures n == len(a.doc.elems)

func (*Array).Reset(a)
property C11
requires a != nil && a.doc != nil
ensures len(a.doc.elems) == 0
modifies a.doc.elems, a.doc.cacheValid, a.doc.elems[0..len(a.doc.elems)]

func (*Array).Lookup(a, index) (v, err)
property C11
requires wfArr(a)
ensures in: index < len(a.doc.elems) ==> err == nil && v == a.doc.elems[index].value
ensures out: index >= len(a.doc.elems) ==> err != nil && v == nil

func (*Array).LookupElemdent(a, index) (v, err)
property C11
requires wfArr(a)
ensures in: index < len(a.doc.elems) ==> err == nil && v == a.doc.elems[index]
ensures out: index >= len(a.doc.elems) ==> err != nil && v == nil

func elemsFromValues(values) (r)
property C11
ensures len: len(r) == len(values) && fresh(r)
ensures vals: forall i in 0..len(values) :: (values[i] == nil ? r[i] == nil : r[i] != nil && fresh(r[i]) && r[i].value == values[i])
inv forall i in 0..$k :: (values[i] == nil ? elems[i] == nil : elems[i] != nil && fresh(elems[i]) && elems[i].value == values[i])

func (*Array).Append(a, values) (r)
property C11
requires a != nil && a.doc != nil
panics someNil(values)
ensures self: r == a
ensures len: len(a.doc.elems) == old(len(a.doc.elems)) + len(values)
ensures kept: forall i in 0..old(len(a.doc.elems)) :: a.doc.elems[i] == old(a.doc.elems[i])
ensures added: forall i in 0..len(values) :: a.doc.elems[old(len(a.doc.elems))+i] != nil && a.doc.elems[old(len(a.doc.elems))+i].value == values[i]
ensures place: arr(a.doc.elems) == old(arr(a.doc.elems)) && off(a.doc.elems) == old(off(a.doc.elems)) || fresh(a.doc.elems)
modifies a.doc.elems, a.doc.cacheValid, a.doc.elems[len(a.doc.elems)..cap(a.doc.elems)]

func (*Array).Set(a, index, value) (r)
property C11
requires a != nil && a.doc != nil
panics index >= len(a.doc.elems)
ensures self: r == a
ensures set: len(a.doc.elems) == old(len(a.doc.elems)) && a.doc.elems[index] != nil && a.doc.elems[index].value == value
ensures kept: forall i in 0..old(len(a.doc.elems)) :: i != index ==> a.doc.elems[i] == old(a.doc.elems[i])
ensures cache: kept(a.doc)
modifies a.doc.elems, a.doc.cacheValid, a.doc.elems[0..len(a.doc.elems)]

func (*Array).Extend(a, b) (r)
property C11
requires a != nil && a.doc != nil && wfArr(b) && sameOrLater(b.doc.elems, a.doc)
ensures self: r == a
ensures len: len(a.doc.elems) == old(len(a.doc.elems)) + old(len(b.doc.elems))
ensures kept: forall i in 0..old(len(a.doc.elems)) :: a.doc.elems[i] == old(a.doc.elems[i])
ensures added: forall i in 0..old(len(b.doc.elems)) :: a.doc.elems[old(len(a.doc.elems))+i] == old(b.doc.elems[i])
modifies a.doc.elems, a.doc.cacheValid, a.doc.elems[len(a.doc.elems)..cap(a.doc.elems)]

func (*Array).ExtendFromDocument(a, d) (r)
property C11
requires a != nil && a.doc != nil && d != nil && sameOrLater(d.elems, a.doc)
panics someNil(d.elems)
ensures self: r == a
ensures len: len(a.doc.elems) == old(len(a.doc.elems)) + old(len(d.elems))
ensures kept: forall i in 0..old(len(a.doc.elems)) :: a.doc.elems[i] == old(a.doc.elems[i])
ensures added: forall i in 0..old(len(d.elems)) :: a.doc.elems[old(len(a.doc.elems))+i] == old(d.elems[i])
modifies a.doc.elems, a.doc.cacheValid, a.doc.elems[len(a.doc.elems)..cap(a.doc.elems)]

func (*Array).Delete(a, index) (v)
property C11
requires wfArr(a)
ensures in: index < old(len(a.doc.elems)) ==> v == old(a.doc.elems[index].value) && len(a.doc.elems) == old(len(a.doc.elems)) - 1 && (forall i in 0..index :: a.doc.elems[i] == old(a.doc.elems[i])) && (forall i in index..len(a.doc.elems) :: a.doc.elems[i] == old(a.doc.elems[i+1]))
ensures out: index >= old(len(a.doc.elems)) ==> v == nil && len(a.doc.elems) == old(len(a.doc.elems)) && (forall i in 0..len(a.doc.elems) :: a.doc.elems[i] == old(a.doc.elems[i]))
ensures cache: kept(a.doc)
modifies a.doc.elems, a.doc.cacheValid, a.doc.elems[0..len(a.doc.elems)]
