package types

def hexc(n) = n < 10 ? 48+n : 87+n
def hexv(c) = c >= 97 ? c-87 : (c >= 65 ? c-55 : c-48)
def isHex(c) = (c >= 48 && c <= 57) || (c >= 65 && c <= 70) || (c >= 97 && c <= 102)

func NewObjectID() (id)
property C15
modifies *
ensures unique: forall i in 0..5 :: id[4+i] == old(processUnique[i])
ensures step: objectIDCounter == u32(old(objectIDCounter)+1)
ensures low24: id[9]*65536 + id[10]*256 + id[11] == objectIDCounter % 16777216

func putUint24(b, v)
property C15
requires len(b) >= 3
modifies b[0..3]
ensures b[0]*65536 + b[1]*256 + b[2] == v % 16777216

func (ObjectID).Hex(id) (s)
property C15
ensures digits: len(s) == 24 && (forall j in 0..24 :: s[j] == hexc(j%2 == 0 ? id[j/2]/16 : id[j/2]%16))

func (ObjectID).IsZero(id) (z)
property C15
requires forall i in 0..12 :: NilObjectID[i] == 0
ensures z == (forall i in 0..12 :: id[i] == 0)

func ObjectIDFromHex(s) (id, err)
property C15
ensures reject: (err == nil) == (len(s) == 24 && (forall i in 0..24 :: isHex(s[i])))
ensures val: err == nil ==> (forall i in 0..12 :: id[i] == 16*hexv(s[2*i]) + hexv(s[2*i+1]))

func MustObjectIDFromHex(s) (id)
property C15
panics !(len(s) == 24 && (forall i in 0..24 :: isHex(s[i])))
ensures val: forall i in 0..12 :: id[i] == 16*hexv(s[2*i]) + hexv(s[2*i+1])

lemma hexRound [C15]: forall n:int :: 0 <= n && n < 256 ==> isHex(hexc(n/16)) && isHex(hexc(n%16)) && 16*hexv(hexc(n/16)) + hexv(hexc(n%16)) == n
