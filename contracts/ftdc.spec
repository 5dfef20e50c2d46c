# ftdc: delta coding (C21), metrics of a document (C22), collectors (C23)
package ftdc

# a name for the product, so that the verifier can reason about it with the lemmas below
fun mul(a int, b int) int
axiom mulDef: forall a:int :: forall b:int :: mul(a, b) == a*b
lemma mulRow [C21 C23]: forall a:int :: forall b:int :: forall m:int :: a < b && m >= 0 ==> mul(a, m) + m <= mul(b, m)
lemma mulPos [C21 C23]: forall a:int :: forall m:int :: a >= 0 && m >= 0 ==> mul(a, m) >= 0
lemma mulBound [C21 C23]: forall a:int :: forall m:int :: a >= 0 && m >= 0 && a < pow2(30) && m < pow2(30) ==> mul(a, m) < pow2(60)

func getOffset(count, sample, metric) (r)
property C21
uses mulDef
requires count >= 0 && metric >= 0 && sample >= 0 && count < pow2(30) && metric < pow2(30) && sample < pow2(30)
ensures r == mul(metric, count) + sample

func undelta(value, deltas) (out)
property C21
requires len(deltas) < pow2(44)
ensures fresh(out) && len(out) == len(deltas)+1 && out[0] == value
ensures sums: forall i in 0..len(deltas) :: forall j in 0..len(deltas)+1 :: j == i+1 ==> out[j] == i64(out[i] + deltas[i])
inv out[0] == value
inv forall i in 0..$k :: forall j in 0..$k+1 :: j == i+1 ==> out[j] == i64(out[i] + deltas[i])

# summing back a stored difference gives the sample
lemma deltaRound [C21]: forall a:int :: forall b:int :: a >= 0-pow2(63) && a < pow2(63) && b >= 0-pow2(63) && b < pow2(63) ==> i64(a + i64(b-a)) == b

func encodeSizeValue(val) (b)
property C21
ensures len(b) == 4 && le32(b, 0) == val && fresh(b)

func encodeValue(val) (b)
property C21
ensures fresh(b) && uvarint(mem(b), off(b), len(b), u64(val))

func normalizeFloat(in) (r)
property C21 C22
ensures r == i64(in)

func restoreFloat(in) (r)
property C21 C22
ensures r == u64(in)

# the 64-bit number a metric value stands for
def num(v) = i64(le64(v.data, v.offset))

func extractDelta(current, previous) (r, err)
property C21
requires rd(current) && !uninit(current) && rd(previous) && !uninit(previous)
requires ty(current) == ty(previous)
ensures ok: (err == nil) == (ty(current) == 1 || ty(current) == 18)
ensures val: err == nil ==> r == i64(num(current) - num(previous))

# C22: one field of a document as metrics, and back
def leaf(v) = !uninit(v) && sized(v) && ty(v) != 3 && ty(v) != 4
def numeric(t) = t == 1 || t == 8 || t == 9 || t == 16 || t == 18
# the number stored for the single metric of value v
def stored(v) = ty(v) == 8 ? (v.data[v.offset] == 1 ? 1 : 0) : (ty(v) == 16 ? i32at(v.data, v.offset) : i64(le64(v.data, v.offset)))

# what extraction yields: one type per value, and 64-bit values
def good(v) = !uninit(v) && sized(v)
def wfm(m) = len(m.values) == len(m.types) && len(m.values) < pow2(30) && (forall i in 0..len(m.values) :: good(m.values[i]) && ty(m.values[i]) == (m.types[i] == 1 ? 1 : 18))

func extractMetricsFromDocument(doc) (m, err)
extern
requires doc != nil
modifies all("birch.Value", "d")
ensures err == nil ==> wfm(m)

func extractMetricsFromArray(array) (m, err)
extern
modifies *

func epochMs(t) (r)
property C22
ensures nano(t) >= 0 && nano(t) < 1000000000 && r == i64(sec(t)*1000 + nano(t)/1000000)

func timeEpocMs(in) (t)
property C22
ensures atms(t, in)

func extractMetricsFromValue(val) (m, err)
property C22
requires leaf(val)
ensures err == nil
ensures one: numeric(ty(val)) ==> len(m.values) == 1 && len(m.types) == 1 && m.types[0] == ty(val) && !uninit(m.values[0]) && sized(m.values[0]) && ty(m.values[0]) == (ty(val) == 1 ? 1 : 18) && num(m.values[0]) == stored(val)
ensures two: ty(val) == 17 ==> len(m.values) == 2 && len(m.types) == 2 && m.types[0] == 17 && m.types[1] == 17 && sized(m.values[0]) && sized(m.values[1]) && num(m.values[0]) == le32(val.data, val.offset+4) && num(m.values[1]) == le32(val.data, val.offset)
ensures none: !numeric(ty(val)) && ty(val) != 17 ==> len(m.values) == 0 && len(m.types) == 0

func metricForDocument(path, d) (o)
extern
modifies *

func metricForArray(key, path, a) (o)
extern
modifies *

# m is the metric of a field named key
def metric(m, key, t, n) = m.KeyName == key && m.originalType == t && m.startingValue == n
def sint(x) = i64(x)

func metricForType(key, path, val) (o)
property C22
requires leaf(val)
ensures one: numeric(ty(val)) ==> len(o) == 1 && metric(o[0], key, ty(val), stored(val)) && o[0].ParentPath == path
# known finding: the seconds of a timestamp are multiplied by 1000 here and nowhere else
ensures two: ty(val) == 17 ==> len(o) == 2 && o[0].KeyName == key && o[0].originalType == 17 && o[1].originalType == 17 && o[0].ParentPath == path && o[1].ParentPath == path && o[1].startingValue == le32(val.data, val.offset)
ensures sec: ty(val) == 17 ==> o[0].startingValue == le32(val.data, val.offset+4) || o[0].startingValue == 1000*le32(val.data, val.offset+4)
ensures none: !numeric(ty(val)) && ty(val) != 17 ==> len(o) == 0

# e is the element that number n stands for, for a field of type t
def restored(e, key, t, n) = nod(e)
  && (t == 8 ==> mk(e, key, 8, 1) && e.value.data[at(key)] == (n == 0 ? 0 : 1))
  && (t == 1 ==> mk(e, key, 1, 8) && le64(e.value.data, at(key)) == u64(n))
  && (t == 16 ==> mk(e, key, 16, 4) && le32(e.value.data, at(key)) == u32(n))
  && (t == 18 ==> mk(e, key, 18, 8) && le64(e.value.data, at(key)) == u64(n))
  && (t == 9 ==> mk(e, key, 9, 8) && le64(e.value.data, at(key)) == u64(n))

func restoreFlat(t, key, value) (e, ok)
property C22
requires small(len(key))
ensures ok
ensures numeric(t) ==> restored(e, key, t, value)
ensures !numeric(t) ==> restored(e, key, 18, value)

func restoreDocument(ref, sample, metrics, idx) (d, n)
extern
modifies *

func restoreElement(ref, sample, metrics, idx) (e, n)
property C22
decreases 0
requires ref != nil && leaf(ref.value) && keyed(ref) && idx >= 0 && sample >= 0
requires small(len(keyOf(ref)))
requires numeric(ty(ref.value)) ==> idx < len(metrics) && sample < len(metrics[idx].Values)
requires ty(ref.value) == 17 ==> idx+1 < len(metrics) && sample < len(metrics[idx].Values) && sample < len(metrics[idx+1].Values)
ensures one: numeric(ty(ref.value)) ==> n == idx+1 && restored(e, keyOf(ref), ty(ref.value), metrics[idx].Values[sample])
ensures two: ty(ref.value) == 17 ==> n == idx+2 && nod(e) && mk(e, keyOf(ref), 17, 8) && le32(e.value.data, at(keyOf(ref))) == u32(metrics[idx+1].Values[sample]) && le32(e.value.data, at(keyOf(ref))+4) == u32(metrics[idx].Values[sample])
ensures none: !numeric(ty(ref.value)) && ty(ref.value) != 17 ==> n == idx && e == nil

# what a field is stored as restores to its bytes
lemma restoreInt32 [C22]: forall n:int :: n >= 0-pow2(31) && n < pow2(31) ==> i32(u32(n)) == n
lemma restoreInt64 [C22]: forall n:int :: n >= 0 && n < pow2(64) ==> u64(i64(n)) == n

# series of one metric, as an array element or a slice (C22)
func (*Metric).getSeries(m) (r)
property C22
requires m != nil && len(m.Values) < pow2(40)
ensures i64: m.originalType == 18 || m.originalType == 17 ==> is(r, "[]int64") && len(as(r, "[]int64")) == len(m.Values) && (forall i in 0..len(m.Values) :: as(r, "[]int64")[i] == m.Values[i])
ensures i32: m.originalType == 16 ==> is(r, "[]int32") && len(as(r, "[]int32")) == len(m.Values) && (forall i in 0..len(m.Values) :: as(r, "[]int32")[i] == i32(m.Values[i]))
ensures bool: m.originalType == 8 ==> is(r, "[]bool") && len(as(r, "[]bool")) == len(m.Values) && (forall i in 0..len(m.Values) :: as(r, "[]bool")[i] == (m.Values[i] != 0))
ensures f64: m.originalType == 1 ==> is(r, "[]float64") && len(as(r, "[]float64")) == len(m.Values) && (forall i in 0..len(m.Values) :: as(r, "[]float64")[i] == u64(m.Values[i]))
ensures time: m.originalType == 9 ==> is(r, "[]time.Time") && len(as(r, "[]time.Time")) == len(m.Values) && (forall i in 0..len(m.Values) :: atms(as(r, "[]time.Time")[i], m.Values[i]))
inv forall i in 0..$k :: out[i] == i32(m.Values[i])
inv forall i in 0..$k :: out[i] == (m.Values[i] != 0)
inv forall i in 0..$k :: out[i] == u64(m.Values[i])
inv forall i in 0..$k :: atms(out[i], m.Values[i])

def rawv(v, t, n) = v.d == nil && v.start == 0 && v.offset == 2 && len(v.data) == 2+n && v.data[0] == t
def restoredv(v, t, n) = 
     (t == 8 ==> rawv(v, 8, 1) && v.data[2] == (n == 0 ? 0 : 1))
  && (t == 1 || t == 9 || t == 18 ==> rawv(v, t, 8) && le64(v.data, 2) == u64(n))
  && (t == 16 ==> rawv(v, 16, 4) && le32(v.data, 2) == u32(n))

func (*Metric).Key(m) (r)
extern
ensures small(len(r))

func rehydrateMatrix(metrics, sample) (e, n, err)
property C22
requires sample >= 0
requires forall i in 0..len(metrics) :: len(metrics[i].Values) < pow2(40)
requires sample < len(metrics) && metrics[sample].originalType == 17 ==> sample+1 < len(metrics) && len(metrics[sample+1].Values) == len(metrics[sample].Values)
ensures eof: sample >= len(metrics) ==> err != nil && n == sample
ensures next: err == nil ==> n == sample + (metrics[sample].originalType == 17 ? 2 : 1)
ensures len: err == nil ==> e.value.d != nil && len(e.value.d.elems) == len(metrics[sample].Values)
ensures val: err == nil && metrics[sample].originalType != 17 ==> (forall i in 0..len(metrics[sample].Values) :: restoredv(e.value.d.elems[i].value, metrics[sample].originalType, metrics[sample].Values[i]))
inv len(array.doc.elems) == $k
inv fresh(array.doc.elems)
inv forall i in 0..$k :: array.doc.elems[i] != nil && restoredv(array.doc.elems[i].value, metrics[sample].originalType, metrics[sample].Values[i])

# C23: collectors
func readDocument(in) (doc, err)
property C23
decreases 0
requires is(in, "*birch.Document")
ensures err == nil && doc == as(in, "*birch.Document")

def samples(c) = (c.reference == nil ? 0 : 1) + c.numSamples
# state of a collector between calls
def wfc(c) = c != nil && c.maxDeltas >= 0 && c.maxDeltas < pow2(30) && c.numSamples >= 0 && c.numSamples <= c.maxDeltas && (c.reference == nil ==> c.numSamples == 0)
   && (c.reference != nil ==> c.lastSample != nil && wfm(c.lastSample) && len(c.deltas) == mul(len(c.lastSample.values), c.maxDeltas))

func (*betterCollector).Info(c) (r)
property C23
requires wfc(c)
ensures r.SampleCount == samples(c)
ensures r.MetricsCount == (c.lastSample == nil ? 0 : len(c.lastSample.values))

func (*betterCollector).Reset(c)
property C23
requires c != nil
modifies c.reference, c.lastSample, c.deltas, c.numSamples
ensures samples(c) == 0 && c.lastSample == nil && c.deltas == nil

func NewBaseCollector(maxSize) (c)
property C23
requires maxSize >= 0 && maxSize < pow2(30)
ensures is(c, "*betterCollector") && wfc(as(c, "*betterCollector")) && samples(as(c, "*betterCollector")) == 0 && as(c, "*betterCollector").maxDeltas == maxSize

func (*betterCollector).Add(c, in) (err)
property C21 C23
uses mulRow mulPos mulBound mulDef
decreases 1
requires wfc(c) && is(in, "*birch.Document") && as(in, "*birch.Document") != nil
modifies c.reference, c.startedAt, c.lastSample, c.deltas, c.numSamples, c.deltas[*], all("birch.Value", "d")
ensures full: old(samples(c)) > c.maxDeltas ==> err != nil
ensures refused: err != nil && old(c.reference) != nil ==> c.reference == old(c.reference) && c.numSamples == old(c.numSamples) && c.lastSample == old(c.lastSample)
ensures counted: err == nil ==> samples(c) == old(samples(c)) + 1 && wfc(c)
ensures delta: err == nil && old(c.reference) != nil ==> len(c.lastSample.values) == old(len(c.lastSample.values)) && (forall k in 0..len(c.lastSample.values) :: c.deltas[mul(k, c.maxDeltas) + c.numSamples-1] == i64(num(c.lastSample.values[k]) - old(num(c.lastSample.values[k]))))
ensures kept: err == nil && old(c.reference) != nil ==> (forall x in 0..len(c.deltas) :: (exists k in 0..len(c.lastSample.values) :: x == mul(k, c.maxDeltas) + c.numSamples-1) || c.deltas[x] == old(c.deltas[x]))
inv forall k in 0..$k :: c.deltas[mul(k, c.maxDeltas) + c.numSamples] == i64(num(metrics.values[k]) - num(c.lastSample.values[k]))
inv forall x in 0..len(c.deltas) :: (exists k in 0..$k :: x == mul(k, c.maxDeltas) + c.numSamples) || c.deltas[x] == old(c.deltas[x])

def last(c) = c.chunks[len(c.chunks)-1]
def wfb(c) = c != nil && c.maxSamples >= 0 && c.maxSamples < pow2(30) && len(c.chunks) >= 1 && (forall i in 0..len(c.chunks) :: wfc(c.chunks[i]) && c.chunks[i].maxDeltas == c.maxSamples)

func newBatchCollector(size) (c)
property C23
requires size >= 0 && size < pow2(30)
ensures fresh(c) && wfb(c) && len(c.chunks) == 1 && fresh(c.chunks) && fresh(c.chunks[0]) && samples(c.chunks[0]) == 0 && c.maxSamples == size && c.chunks[0].deltas == nil

func (*batchCollector).Reset(c)
property C23
requires c != nil && c.maxSamples >= 0 && c.maxSamples < pow2(30)
modifies c.chunks
ensures wfb(c) && len(c.chunks) == 1 && samples(c.chunks[0]) == 0 && fresh(c.chunks[0])

def isfull(c) = samples(last(c)) > 0 && samples(last(c)) >= c.maxSamples

func (*batchCollector).Add(c, in) (err)
property C23
decreases 2
requires wfb(c) && is(in, "*birch.Document") && as(in, "*birch.Document") != nil
modifies c.chunks, c.chunks[len(c.chunks)..cap(c.chunks)], last(c).reference, last(c).startedAt, last(c).lastSample, last(c).deltas, last(c).numSamples, last(c).deltas[*], all("birch.Value", "d")
ensures same: err == nil && !old(isfull(c)) ==> len(c.chunks) == old(len(c.chunks)) && last(c) == old(last(c)) && samples(last(c)) == old(samples(last(c))) + 1
ensures next: err == nil && old(isfull(c)) ==> len(c.chunks) == old(len(c.chunks)) + 1 && samples(last(c)) == 1 && samples(old(last(c))) == old(samples(last(c)))
ensures chunks: forall i in 0..old(len(c.chunks)) :: c.chunks[i] == old(c.chunks[i])
ensures wf: err == nil ==> wfc(last(c)) && last(c).maxDeltas == c.maxSamples

func metricKeyHash(doc) (h, n)
extern
requires doc != nil
modifies all("birch.Value", "d")
ensures len(h) > 0

def lastb(c) = c.chunks[len(c.chunks)-1]
def wfd(c) = c != nil && c.maxSamples >= 0 && c.maxSamples < pow2(30) && len(c.chunks) >= 1 && (len(c.hash) == 0 ==> len(c.chunks) == 1) && (forall i in 0..len(c.chunks) :: wfb(c.chunks[i]))

func (*dynamicCollector).Reset(c)
property C23
requires c != nil && c.maxSamples >= 0 && c.maxSamples < pow2(30)
modifies c.chunks, c.hash
ensures wfd(c) && len(c.chunks) == 1 && len(lastb(c).chunks) == 1 && samples(last(lastb(c))) == 0 && len(c.hash) == 0

func (*dynamicCollector).Add(c, in) (err)
property C23
decreases 3
requires wfd(c) && is(in, "*birch.Document") && as(in, "*birch.Document") != nil
modifies c.hash, c.currentNum, c.chunks, c.chunks[len(c.chunks)..cap(c.chunks)], lastb(c).chunks, lastb(c).chunks[len(lastb(c).chunks)..cap(lastb(c).chunks)], last(lastb(c)).reference, last(lastb(c)).startedAt, last(lastb(c)).lastSample, last(lastb(c)).deltas, last(lastb(c)).numSamples, last(lastb(c)).deltas[*], all("birch.Value", "d")
ensures hashed: len(c.hash) > 0
ensures same: err == nil && (old(len(c.hash)) == 0 || c.hash == old(c.hash)) ==> len(c.chunks) == old(len(c.chunks)) && lastb(c) == old(lastb(c)) && samples(last(lastb(c))) == (old(isfull(lastb(c))) ? 1 : old(samples(last(lastb(c)))) + 1)
ensures changed: err == nil && old(len(c.hash)) > 0 && c.hash != old(c.hash) ==> len(c.chunks) == old(len(c.chunks)) + 1 && len(lastb(c).chunks) == 1 && samples(last(lastb(c))) == 1
ensures kept: forall i in 0..old(len(c.chunks)) :: c.chunks[i] == old(c.chunks[i])
ensures untouched: err == nil && old(len(c.hash)) > 0 && c.hash != old(c.hash) ==> samples(old(last(lastb(c)))) == old(samples(last(lastb(c))))

func (*uncompressedCollector).Info(c) (r)
property C23
requires c != nil
ensures r.SampleCount == len(c.samples) && r.MetricsCount == c.metricCount

func (*uncompressedCollector).Reset(c)
property C23
requires c != nil
modifies c.samples, c.metricCount
ensures len(c.samples) == 0 && c.metricCount == 0

func (*uncompressedCollector).Add(c, in) (err)
property C23
decreases 1
requires c != nil && is(in, "*birch.Document") && as(in, "*birch.Document") != nil
modifies c.samples, c.metricCount, c.samples[len(c.samples)..cap(c.samples)]
ensures full: old(len(c.samples)) >= c.batchSize ==> err != nil
ensures refused: err != nil ==> c.samples == old(c.samples)
ensures added: err == nil ==> len(c.samples) == old(len(c.samples)) + 1 && c.samples[old(len(c.samples))] == as(in, "*birch.Document")
ensures kept: forall i in 0..old(len(c.samples)) :: c.samples[i] == old(c.samples[i])
