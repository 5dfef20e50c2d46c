# performance events (C24)
package ftdc/events

func (*Performance).Add(p, in)
property C24
requires p != nil && in != nil && p != in
modifies *p, in.ID
ensures id: in.ID == (old(in.ID) == 0 ? i64(old(p.ID)+1) : old(in.ID)) && p.ID == in.ID
ensures time: p.Timestamp == in.Timestamp
ensures counters: p.Counters.Number == i64(old(p.Counters.Number) + in.Counters.Number) && p.Counters.Operations == i64(old(p.Counters.Operations) + in.Counters.Operations) && p.Counters.Size == i64(old(p.Counters.Size) + in.Counters.Size) && p.Counters.Errors == i64(old(p.Counters.Errors) + in.Counters.Errors)
ensures timers: p.Timers.Duration == i64(old(p.Timers.Duration) + in.Timers.Duration) && p.Timers.Total == i64(old(p.Timers.Total) + in.Timers.Total)
ensures gauges: p.Gauges.State == in.Gauges.State && p.Gauges.Workers == in.Gauges.Workers && p.Gauges.Failed == in.Gauges.Failed

# e is an int64 element
def i64elem(e, key, v) = e != nil && nod(e) && mk(e, key, 18, 8) && i64(le64(e.value.data, at(key))) == v

func (*Performance).MarshalDocument(p) (d, err)
property C24
requires p != nil
ensures err == nil && len(d.elems) == 5
ensures ts: mk(d.elems[0], "ts", 9, 8) && i64(le64(d.elems[0].value.data, at("ts"))) == i64(sec(p.Timestamp)*1000 + nano(p.Timestamp)/1000000)
ensures id: i64elem(d.elems[1], "id", p.ID)
ensures subs: mk(d.elems[2], "counters", 3, 0) && mk(d.elems[3], "timers", 3, 0) && mk(d.elems[4], "gauges", 3, 0)
ensures counters: len(d.elems[2].value.d.elems) == 4 && i64elem(d.elems[2].value.d.elems[0], "n", p.Counters.Number) && i64elem(d.elems[2].value.d.elems[1], "ops", p.Counters.Operations) && i64elem(d.elems[2].value.d.elems[2], "size", p.Counters.Size) && i64elem(d.elems[2].value.d.elems[3], "errors", p.Counters.Errors)
ensures timers: len(d.elems[3].value.d.elems) == 2 && i64elem(d.elems[3].value.d.elems[0], "dur", p.Timers.Duration) && i64elem(d.elems[3].value.d.elems[1], "total", p.Timers.Total)
ensures gauges: len(d.elems[4].value.d.elems) == 3 && i64elem(d.elems[4].value.d.elems[0], "state", p.Gauges.State) && i64elem(d.elems[4].value.d.elems[1], "workers", p.Gauges.Workers) && mk(d.elems[4].value.d.elems[2], "failed", 8, 1) && d.elems[4].value.d.elems[2].value.data[at("failed")] == (p.Gauges.Failed ? 1 : 0)

# reading back what MarshalDocument writes
def keyIs(e, k) = e.value.offset == e.value.start + len(k) + 2 && (forall i in 0..len(k) :: e.value.data[e.value.start+1+i] == k[i])
def good1(e, k, t) = e != nil && e.value != nil && e.value.offset > 0 && e.value.data != nil && sized(e.value) && keyIs(e, k) && ty(e.value) == t
def bool1(e) = e.value.data[e.value.offset] == 1

func (*PerformanceCounters).UnmarshalDocument(p, doc) (err)
property C24
requires p != nil && doc != nil && len(doc.elems) == 4
requires good1(doc.elems[0], "n", 18)
requires good1(doc.elems[1], "ops", 18)
requires good1(doc.elems[2], "size", 18)
requires good1(doc.elems[3], "errors", 18)
modifies *p
ensures err == nil
ensures n: p.Number == num(doc.elems[0].value)
inv $k > 0 ==> p.Number == num(doc.elems[0].value)
ensures ops: p.Operations == num(doc.elems[1].value)
inv $k > 1 ==> p.Operations == num(doc.elems[1].value)
ensures size: p.Size == num(doc.elems[2].value)
inv $k > 2 ==> p.Size == num(doc.elems[2].value)
ensures errors: p.Errors == num(doc.elems[3].value)
inv $k > 3 ==> p.Errors == num(doc.elems[3].value)

func (*PerformanceTimers).UnmarshalDocument(p, doc) (err)
property C24
requires p != nil && doc != nil && len(doc.elems) == 2
requires good1(doc.elems[0], "dur", 18)
requires good1(doc.elems[1], "total", 18)
modifies *p
ensures err == nil
ensures dur: p.Duration == num(doc.elems[0].value)
inv $k > 0 ==> p.Duration == num(doc.elems[0].value)
ensures total: p.Total == num(doc.elems[1].value)
inv $k > 1 ==> p.Total == num(doc.elems[1].value)

func (*PerformanceGauges).UnmarshalDocument(p, doc) (err)
property C24
requires p != nil && doc != nil && len(doc.elems) == 3
requires good1(doc.elems[0], "state", 18)
requires good1(doc.elems[1], "workers", 18)
requires good1(doc.elems[2], "failed", 8)
modifies *p
ensures err == nil
ensures state: p.State == num(doc.elems[0].value)
inv $k > 0 ==> p.State == num(doc.elems[0].value)
ensures workers: p.Workers == num(doc.elems[1].value)
inv $k > 1 ==> p.Workers == num(doc.elems[1].value)
ensures failed: p.Failed == bool1(doc.elems[2])
inv $k > 2 ==> p.Failed == bool1(doc.elems[2])
