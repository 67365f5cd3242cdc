package h

import (
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// One integer column of every size, any stored value.
func c01int(size int, unsigned bool) {
	types := map[int]int{1: tTiny, 2: tShort, 3: tInt24, 4: tLong, 8: tLonglong}
	t := idTable(intCol(types[size], size, unsigned))
	raw := sym.Bytes("raw", size)
	var u uint64
	for _, b := range raw {
		u = u<<8 | uint64(b)
	}
	stored := make([]byte, size)
	copy(stored, raw)
	if !unsigned {
		stored[0] ^= 0x80
	}
	row := oneRow(t, formats(), []Val{val(0, 0, 0, 7), {B: stored}})
	wantUint(row[0], 7, "id")
	if unsigned {
		wantUint(row[1], u, "unsigned integer")
	} else {
		sh := uint(64 - 8*size)
		wantInt(row[1], int64(u<<sh)>>sh, "signed integer")
	}
}

func C01_tinyint()    { c01int(1, false) }
func C01_tinyintU()   { c01int(1, true) }
func C01_smallint()   { c01int(2, false) }
func C01_smallintU()  { c01int(2, true) }
func C01_mediumint()  { c01int(3, false) }
func C01_mediumintU() { c01int(3, true) }
func C01_int()        { c01int(4, false) }
func C01_intU()       { c01int(4, true) }
func C01_bigint()     { c01int(8, false) }
func C01_bigintU()    { c01int(8, true) }

// BIT columns of every byte length.
func c01bit(n int) {
	t := idTable(bitCol(8 * n))
	raw := sym.Bytes("raw", n)
	var u uint64
	for _, b := range raw {
		u = u<<8 | uint64(b)
	}
	row := oneRow(t, formats(), []Val{val(0, 0, 0, 7), {B: raw}})
	wantUint(row[0], 7, "id")
	wantBit(row[1], u, "bit value")
}

func C01_bit8()  { c01bit(1) }
func C01_bit16() { c01bit(2) }
func C01_bit24() { c01bit(3) }
func C01_bit32() { c01bit(4) }
func C01_bit40() { c01bit(5) }
func C01_bit48() { c01bit(6) }
func C01_bit56() { c01bit(7) }
func C01_bit64() { c01bit(8) }

func C01_enum1() { c01enum(1) }
func C01_enum2() { c01enum(2) }
func c01enum(n int) {
	t := idTable(enumCol(n))
	raw := sym.Bytes("raw", n)
	var u uint64
	for _, b := range raw {
		u = u<<8 | uint64(b)
	}
	row := oneRow(t, formats(), []Val{val(0, 0, 0, 7), {B: raw}})
	wantUint(row[1], u, "enumeration value")
}

// The bits of a float are stored in little-endian order.
func C01_float() {
	t := idTable(floatCol())
	bits := sym.U32("bits")
	sym.Assume(bits>>23&255 != 255)
	raw := []byte{byte(bits), byte(bits >> 8), byte(bits >> 16), byte(bits >> 24)}
	row := oneRow(t, formats(), []Val{val(0, 0, 0, 7), {B: raw}})
	v, ok := sym.ParseFloat32(text(row[1]))
	sym.Assert(ok, "float: not a number")
	sym.Assert(v == bits, "float value")
}

func C01_double() {
	t := idTable(doubleCol())
	bits := sym.U64("bits")
	sym.Assume(bits>>52&2047 != 2047)
	raw := make([]byte, 8)
	for i := range raw {
		raw[i] = byte(bits >> uint(8*i))
	}
	row := oneRow(t, formats(), []Val{val(0, 0, 0, 7), {B: raw}})
	v, ok := sym.ParseFloat64(text(row[1]))
	sym.Assert(ok, "double: not a number")
	sym.Assert(v == bits, "double value")
}

// All numeric types side by side: no value influences another one, whatever
// the position of the column.
func C01_together() {
	t := idTable(tinyint(false), bigint(true), mediumint(false), bitCol(64), smallint(true), doubleCol(), integer(false))
	b := sym.Bytes("raw", 1+8+3+8+2+8+4)
	cut := func(n int) Val {
		v := Val{B: b[:n]}
		b = b[n:]
		return v
	}
	vals := []Val{val(0, 0, 0, 7), cut(1), cut(8), cut(3), cut(8), cut(2), cut(8), cut(4)}
	sym.Assume(vals[6].B[7]&0x7f != 0x7f)
	row := oneRow(t, formats(), vals)
	signed := func(v Val) int64 {
		n := uint(len(v.B))
		return int64((num(v.B)^1<<(8*n-1))<<(64-8*n)) >> (64 - 8*n)
	}
	wantUint(row[0], 7, "id")
	wantInt(row[1], signed(vals[1]), "tinyint")
	wantUint(row[2], num(vals[2].B), "bigint unsigned")
	wantInt(row[3], signed(vals[3]), "mediumint")
	wantBit(row[4], num(vals[4].B), "bit(64)")
	wantUint(row[5], num(vals[5].B), "smallint unsigned")
	d, ok := sym.ParseFloat64(text(row[6]))
	var bits uint64
	for i := 7; i >= 0; i-- {
		bits = bits<<8 | uint64(vals[6].B[i])
	}
	sym.Assert(ok && d == bits, "double")
	wantInt(row[7], signed(vals[7]), "int")
}
