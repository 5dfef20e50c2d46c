T = '''package types
import "testing"
func TestSeededDemo(t *testing.T) {
%s
}
'''
BUGS = [
dict(id='s14-muladd-carry', property='C14', needs='digits whose chunk addition carries out of the lowest 32-bit word into a word with overlapping low bits',
 what='the multiply-add drops carries: parsed decimals are off by a multiple of 2^32',
 edits=[('types/decimal.go','	b = b&(1<<32-1) + a>>32\n','	b = b&(1<<32-1) | a>>32\n')], pkg='types', test=T%'''	for i := uint32(1); i != 0 && i < 1<<31; i += 99991 {
		h, l, o := muladd(0, 0x1_ffff_ffff, 1, i)
		if o != 0 || h != 0 || l != 0x1_ffff_ffff+uint64(i) { t.Fatal(h, l, o, i) }
	}'''),
dict(id='s15-divmod-low', property='C14', needs='a low word whose bit 31 is set (more than 9 digits)',
 what='dividing drops bit 31 of the third word, so long decimals format wrongly',
 edits=[('types/decimal.go','	b := ar<<32 + h&(1<<32-1)\n','	b := ar<<32 + h&(1<<31-1)\n')], pkg='types', test=T%'''	if h, l, r := divmod(0x80000001, 0, 1); h != 0x80000001 || l != 0 || r != 0 { t.Fatal(h, l, r) }'''),
dict(id='s16-hex-longer', property='C15', needs='hex text of more than 24 digits',
 what='ObjectIDFromHex accepts over-long text and drops the rest',
 edits=[('types/objectid.go','	if len(b) != 12 {\n','	if len(b) < 12 {\n')], pkg='types', test=T%'''	if _, err := ObjectIDFromHex("00112233445566778899aabbcc"); err == nil { t.Fatal("accepted") }'''),
dict(id='s17-iszero-tail', property='C15', needs='an id whose first eight bytes are zero',
 what='IsZero looks at the first eight bytes only',
 edits=[('types/objectid.go','	return bytes.Equal(id[:], NilObjectID[:])\n','	return bytes.Equal(id[:8], NilObjectID[:8])\n')], pkg='types', test=T%'''	if (ObjectID{11: 1}).IsZero() { t.Fatal("zero") }'''),
]
