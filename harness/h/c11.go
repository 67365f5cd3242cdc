package h

import (
	"github.com/zbdba/db-recovery/recovery/utils"
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// around places an encoding between arbitrary bytes.
func around(enc []byte) ([]byte, uint64) {
	n := []int{0, 1, 3}[sym.Choose("before", 3)]
	m := []int{0, 1, 5}[sym.Choose("after", 3)]
	b := append(sym.Bytes("before", n), enc...)
	return append(b, sym.Bytes("after", m)...), uint64(n)
}

// Every 32-bit number: value, size consumed and computed size.
func C11_compressed() {
	v := sym.U32("v")
	enc := comp(v)
	b, pos := around(enc)
	got, size, err := utils.MatchParseCompressed(b, pos)
	sym.Assert(err == nil, "decoding failed")
	sym.Assert(got == uint64(v), "value")
	sym.Assert(size == uint64(len(enc)), "bytes consumed")
	n, err := utils.MatchGetCompressedSize(uint64(v))
	sym.Assert(err == nil && n == uint64(len(enc)), "size of the encoding")
}

// Every 64-bit number in the form used for transaction ids.
func C11_u64() {
	v := sym.U64("v")
	enc := comp64(v)
	b, pos := around(enc)
	p := pos
	got := utils.MatchUllReadComPressed(b, &p)
	sym.Assert(got == v, "value")
	sym.Assert(p == pos+uint64(len(enc)), "bytes consumed")
}

// Every 64-bit number in the much-compressed form.
func C11_much() {
	v := sym.U64("v")
	enc := much(v)
	b := append(append([]byte{}, enc...), sym.Bytes("after", []int{0, 1, 5}[sym.Choose("after", 3)])...)
	got, err := utils.MatchUllReadMuchCompressed(b)
	sym.Assert(err == nil, "decoding failed")
	sym.Assert(got == v, "value")
	sym.Assert(utils.MachUllGetMuchCompressedSize(v) == uint64(len(enc)), "size of the encoding")
}

// Two encodings one behind the other: each is decoded on its own.
func C11_sequence() {
	v, w := sym.U32("v"), sym.U64("w")
	b := append(comp(v), comp64(w)...)
	var pos uint64
	got, size, err := utils.MatchParseCompressed(b, pos)
	sym.Assert(err == nil && got == uint64(v), "first value")
	pos += size
	g := utils.MatchUllReadComPressed(b, &pos)
	sym.Assert(g == w && pos == uint64(len(b)), "second value")
}

// A number cut off before its end is not decoded to a wrong value with success.
func C11_cut() {
	v := sym.U32("v")
	sym.Assume(v >= 0x10000000)
	enc := comp(v)
	_, _, err := utils.MatchParseCompressed(enc[:4], 0)
	sym.Assert(err != nil, "a number that is cut off was accepted")
}
