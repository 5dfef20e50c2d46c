BUGS = [
dict(id='s01-binary2-len', property='C01', needs='a Binary of the old subtype 2 whose payload is at least 64 KiB long',
 what='the inner length of a subtype-2 binary is truncated to 16 bits, so the encoded element does not describe its payload',
 edits=[('elements/elements.go', '''	n, err = Int32.Encode(start, writer, int32(len(b)))
	start += uint(n)
	total += n

	if err != nil {
		return total, err
	}

	total += copy(writer[start:], b)''', '''	n, err = Int32.Encode(start, writer, int32(uint16(len(b))))
	start += uint(n)
	total += n

	if err != nil {
		return total, err
	}

	total += copy(writer[start:], b)''')], pkg='elements', test='''package elements
import ("testing";"encoding/binary")
func TestSeededDemo(t *testing.T) {
	b := make([]byte, 70000)
	w := make([]byte, 80000)
	n, err := Binary.Encode(3, w, b, 2)
	if err != nil || n != len(b)+9 { t.Fatal(n, err) }
	if binary.LittleEndian.Uint32(w[3:]) != 70004 || binary.LittleEndian.Uint32(w[8:]) != 70000 { t.Fatal("bad length") }
}
'''),
dict(id='s02-regex-small', property='C02', needs='a destination exactly one byte too short for the element, at a non-zero start offset',
 what='String.Encode writes past what it reports / panics instead of returning ErrTooSmall when the destination is one byte short',
 edits=[('elements/elements.go', '''	if len(writer) < int(start+1)+len(str) {
		return 0, ErrTooSmall
	}

	end''', '''	if len(writer) < int(start)+len(str) {
		return 0, ErrTooSmall
	}

	end''')], pkg='elements', test='''package elements
import "testing"
func TestSeededDemo(t *testing.T) {
	for n := 0; n < 12; n++ {
	func() {
		defer func() { if r := recover(); r != nil { t.Fatal("panic", r) } }()
		w := make([]byte, n)
		k, err := CString.Encode(2, w, "abcd")
		if (err == nil) != (n >= 7) || (err == nil && k != 5) { t.Fatal(n, k, err) }
	}()
	}
}
'''),
dict(id='s03-cws-len', property='C01', needs='a code string that contains non-ASCII characters in a JavaScript-with-scope element',
 what='the total length of a code-with-scope value counts characters instead of bytes',
 edits=[('elements/elements.go', '9+int32(len(code))+int32(len(doc))', '9+int32(len([]rune(code)))+int32(len(doc))')], pkg='elements', test='''package elements
import ("testing";"encoding/binary")
func TestSeededDemo(t *testing.T) {
	w := make([]byte, 100)
	n, err := CodeWithScope.Encode(1, w, "h\\u00e9\\u4e16", []byte{5,0,0,0,0})
	if err != nil { t.Fatal(err) }
	if int(binary.LittleEndian.Uint32(w[1:])) != n { t.Fatal("length", n, w[:20]) }
}
'''),
]
