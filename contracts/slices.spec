# slice constructors: an array element holding one value per input, in order
package birch

def vI64(v, x) = v != nil && v.data != nil && v.start == 0 && v.offset == 2 && len(v.data) == 10 && v.data[0] == 18 && le64(v.data, 2) == u64(x) && v.d == nil
def vI32(v, x) = v != nil && v.data != nil && v.start == 0 && v.offset == 2 && len(v.data) == 6 && v.data[0] == 16 && le32(v.data, 2) == u32(x) && v.d == nil
def vInt(v, x) = vI64(v, x) || (x >= -pow2(31) && x < pow2(31) && vI32(v, x))
def vDbl(v, x) = v != nil && v.data != nil && v.start == 0 && v.offset == 2 && len(v.data) == 10 && v.data[0] == 1 && le64(v.data, 2) == x && v.d == nil
def arrayEl(e, key, n) = mk(e, key, 4, 0) && e.value.d != nil && len(e.value.d.elems) == n

func (ElementConstructor).SliceInt(ec, key, in) (e)
property C12
requires small(len(key))
ensures shape: arrayEl(e, key, len(in))
ensures vals: forall i in 0..len(in) :: e.value.d.elems[i] != nil && vInt(e.value.d.elems[i].value, in[i])
inv forall i in 0..$k :: vals[i] != nil && fresh(vals[i]) && fresh(vals[i].data) && vInt(vals[i], in[i])

func (ElementConstructor).SliceInt64|(ElementConstructor).SliceDuration(ec, key, in) (e)
property C12
requires small(len(key))
ensures shape: arrayEl(e, key, len(in))
ensures vals: forall i in 0..len(in) :: e.value.d.elems[i] != nil && vI64(e.value.d.elems[i].value, in[i])
inv forall i in 0..$k :: vals[i] != nil && fresh(vals[i]) && fresh(vals[i].data) && vI64(vals[i], in[i])

func (ElementConstructor).SliceInt32(ec, key, in) (e)
property C12
requires small(len(key))
ensures shape: arrayEl(e, key, len(in))
ensures vals: forall i in 0..len(in) :: e.value.d.elems[i] != nil && vI32(e.value.d.elems[i].value, in[i])
inv forall i in 0..$k :: vals[i] != nil && fresh(vals[i]) && fresh(vals[i].data) && vI32(vals[i], in[i])

func (ElementConstructor).SliceFloat64(ec, key, in) (e)
property C03
requires small(len(key))
ensures shape: arrayEl(e, key, len(in))
ensures vals: forall i in 0..len(in) :: e.value.d.elems[i] != nil && vDbl(e.value.d.elems[i].value, in[i])
inv forall i in 0..$k :: vals[i] != nil && fresh(vals[i]) && fresh(vals[i].data) && vDbl(vals[i], in[i])

func (ValueConstructor).SliceInt(vc, in) (v)
property C12
ensures v.d != nil && mkv(v, 4, 0) && len(v.d.elems) == len(in) && (forall i in 0..len(in) :: v.d.elems[i] != nil && vInt(v.d.elems[i].value, in[i]))

func (ValueConstructor).SliceInt64|(ValueConstructor).SliceDuration(vc, in) (v)
property C12
ensures v.d != nil && mkv(v, 4, 0) && len(v.d.elems) == len(in) && (forall i in 0..len(in) :: v.d.elems[i] != nil && vI64(v.d.elems[i].value, in[i]))

func (ValueConstructor).SliceInt32(vc, in) (v)
property C12
ensures v.d != nil && mkv(v, 4, 0) && len(v.d.elems) == len(in) && (forall i in 0..len(in) :: v.d.elems[i] != nil && vI32(v.d.elems[i].value, in[i]))
