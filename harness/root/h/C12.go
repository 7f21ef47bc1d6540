package h

import (
	"github.com/youthlin/t/translator"
	"github.com/youthlin/t/zzverif/sym"
)

const allocMax = 1 << 27

func read32(b []byte, at int, big bool) uint64 {
	if big {
		return uint64(b[at])<<24 | uint64(b[at+1])<<16 | uint64(b[at+2])<<8 | uint64(b[at+3])
	}
	return uint64(b[at+3])<<24 | uint64(b[at+2])<<16 | uint64(b[at+1])<<8 | uint64(b[at])
}

// c12check reads an image: it gives a catalogue or an error, and an error when
// anything in the image is invalid or outside of it.
func c12check(b []byte) {
	sym.AllocLimit(allocMax)
	var f *translator.File
	var err error
	sym.MeasureAlloc(func() { f, err = translator.ReadMo(b) })
	sym.ObserveBool("error", err != nil)
	sym.Assert((f == nil) == (err != nil), "neither a catalogue nor an error, or both")
	if err != nil {
		return
	}
	// accepted: so nothing may be invalid or outside the file
	if len(b) < 28 {
		sym.Fail("truncated header accepted")
		return
	}
	le := sym.And(b[0] == 0xde, b[1] == 0x12, b[2] == 0x04, b[3] == 0x95)
	be := sym.And(b[0] == 0x95, b[1] == 0x04, b[2] == 0x12, b[3] == 0xde)
	sym.Assert(sym.Or(le, be), "wrong magic number accepted")
	big := b[0] == 0x95
	rev := read32(b, 4, big)
	sym.Assert(sym.Or(rev == 0, rev == 1, rev == 0x10000, rev == 0x10001), "wrong revision accepted")
	n := read32(b, 8, big)
	sym.Assert(n <= uint64(len(b))/8, "more messages than fit accepted")
	for k := 0; k < 2; k++ {
		t := read32(b, 12+4*k, big)
		sym.Assert(sym.Or(n == 0, t+8*n <= uint64(len(b))), "table outside the file accepted")
		for i := uint64(0); i < n; i++ {
			at := int(t + 8*i)
			sym.Assert(read32(b, at, big)+read32(b, at+4, big) <= uint64(len(b)), "string outside the file accepted")
		}
	}
	// what was accepted can be used
	f.Lang()
	f.X("", "x")
	f.XN64("c", "x", "y", 3)
	f.SortedEntry()
}

// field stores a 32-bit value that may be anything: small values one by one,
// the rest as one symbolic value.
func field(b []byte, at int, big bool, small int) {
	v := sym.Uint32()
	if v <= uint32(small) {
		v = uint32(sym.Fix(int(v)))
	}
	put32(b, at, v, big)
}

func moBase(n int, big bool) []byte {
	b := make([]byte, n)
	put32(b, 0, 0x950412de, big)
	return b
}

// H_C12_short: every byte string too short for a header.
func H_C12_short() {
	c12check(sym.Bytes(sym.Choose(28)))
}

// H_C12_magic: any magic number and revision.
func H_C12_magic() {
	b := make([]byte, 28+sym.Choose(2))
	for i := 0; i < 8; i++ {
		b[i] = sym.Byte()
	}
	c12check(b)
}

// H_C12_tables: any number of messages and any table offsets.
func H_C12_tables() {
	l := 28 + 16
	if sym.Thorough() {
		l += 1 + 8*sym.Choose(2)
	}
	big := sym.Choose(2) == 1
	b := moBase(l, big)
	field(b, 8, big, l/8+1)
	field(b, 12, big, l+1)
	field(b, 16, big, l+1)
	c12check(b)
}

// H_C12_strings: any lengths and offsets of one of the two strings of a message.
func H_C12_strings() {
	const l = 28 + 16 + 2
	big := sym.Choose(2) == 1
	b := moBase(l, big)
	put32(b, 8, 1, big)
	put32(b, 12, 28, big)
	put32(b, 16, 36, big)
	for i := 44; i < l; i++ {
		b[i] = sym.Byte()
	}
	good, bad := 28, 36
	if sym.Choose(2) == 1 {
		good, bad = bad, good
	}
	ends := [][2]uint32{{2, l - 2}, {l, 0}, {0, l}}[sym.Choose(2+b2int(sym.Thorough()))]
	put32(b, good, ends[0], big)
	put32(b, good+4, ends[1], big)
	field(b, bad, big, l+1)
	field(b, bad+4, big, l+1)
	c12check(b)
}

// H_C12_second: the same for the second of two messages.
func H_C12_second() {
	const l = 28 + 32 + 2
	big := sym.Choose(2) == 1
	b := moBase(l, big)
	put32(b, 8, 2, big)
	put32(b, 12, 28, big)
	put32(b, 16, 44, big)
	b[l-2], b[l-1] = sym.Byte(), sym.Byte()
	for i := 28; i < 60; i += 8 {
		put32(b, i, 1, big)
		put32(b, i+4, l-2, big)
	}
	bad := 28 + 8 + 16*sym.Choose(2)
	field(b, bad, big, l+1)
	field(b, bad+4, big, l+1)
	c12check(b)
}

// H_C12_content: arbitrary bytes as ids and translations.
func H_C12_content() {
	k := 3
	if sym.Thorough() {
		k = 5
	}
	l := 28 + 16 + k
	big := sym.Choose(2) == 1
	b := moBase(l, big)
	put32(b, 8, 1, big)
	put32(b, 12, 28, big)
	put32(b, 16, 36, big)
	for i := 44; i < l; i++ {
		b[i] = sym.Byte()
	}
	cut := sym.Choose(k + 1)
	put32(b, 28, uint32(cut), big)
	put32(b, 32, 44, big)
	put32(b, 36, uint32(k-cut), big)
	put32(b, 40, uint32(44+cut), big)
	c12check(b)
}

// H_C12_truncated: every prefix of a well-formed file.
func H_C12_truncated() {
	ms := []*msg{{str: header2}, {id: "a", str: "x"}, {ctx: "c", id: "a", id2: "as", plural: true, strN: []string{"y", "z"}}}
	b := moImage(ms, sym.Choose(2) == 1, moOrders[sym.Choose(len(moOrders))], 0, false)
	c12check(b[:sym.Choose(len(b)+1)])
}
