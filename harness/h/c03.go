package h

import (
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// wantChar: the literal is the value, except that trailing blanks may be gone.
func wantChar(l Lit, b []byte, what string) {
	s := l.B
	if l.Kind == "hex" {
		s = string(l.Raw)
	} else if l.Kind != "str" {
		sym.Fail(what + ": a " + l.Kind + " literal")
	}
	if len(s) > len(b) {
		sym.Fail(what + ": longer than stored")
	}
	sym.Assert(s == string(b[:len(s)]), what)
	for _, c := range b[len(s):] {
		sym.Assert(c == ' ', what+": lost more than trailing blanks")
	}
}

func c03kinds() []Col {
	return []Col{
		varcharLatin(20), varcharUtf8(60), varcharUtf8(300), textCol(), varcharLatin(300),
		varbinaryCol(20), varbinaryCol(300), blobCol(),
	}
}

// Every kind of variable-length column, short values of arbitrary bytes.
func c03short(c Col) {
	n := sym.Choose("len", 3)
	b := sym.Bytes("b", n)
	compact := formats()
	t := idTable(c, smallint(true))
	row := oneRow(t, compact, []Val{val(0, 0, 0, 7), {B: b}, val(1, 2)})
	wantText(row[1], b, "value")
	wantUint(row[2], 0x102, "following column")
}

func C03_varcharLatin()    { c03short(varcharLatin(20)) }
func C03_varcharLatinBig() { c03short(varcharLatin(300)) }
func C03_varcharUtf8()     { c03short(varcharUtf8(60)) }
func C03_varcharUtf8Big()  { c03short(varcharUtf8(300)) }
func C03_text()            { c03short(textCol()) }
func C03_varbinary()       { c03bin(varbinaryCol(20)) }
func C03_varbinaryBig()    { c03bin(varbinaryCol(300)) }
func C03_blob()            { c03bin(blobCol()) }

// Binary values: arbitrary bytes, more of them (hexadecimal text needs no escapes).
func c03bin(c Col) {
	n := []int{0, 1, 2, 5, 16}[sym.Choose("len", 5)]
	b := sym.Bytes("b", n)
	compact := formats()
	t := idTable(c, smallint(true))
	row := oneRow(t, compact, []Val{val(0, 0, 0, 7), {B: b}, val(1, 2)})
	wantHex(row[1], b, "binary value")
	wantUint(row[2], 0x102, "following column")
}

func wantHex(l Lit, b []byte, what string) {
	if l.Kind != "hex" {
		sym.Fail(what + ": a " + l.Kind + " literal")
	}
	sym.Assert(string(l.Raw) == string(b), what)
}

// Long values around the limits of the length bytes.
func C03_long() {
	c := c03kinds()[sym.Choose("kind", 8)]
	lens := []int{126, 127, 128, 129, 255, 256, 257, 300}
	n := lens[sym.Choose("len", len(lens))]
	if c.MType != mBlob && n > c.Len {
		sym.Assume(false)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('A' + i%57)
		if b[i] == '\\' {
			b[i] = '%'
		}
	}
	b[0] = byte(sym.Range("first", 'A', 'Z'))
	b[n-1] = byte(sym.Range("last", 'a', 'z'))
	compact := formats()
	t := idTable(c, smallint(true))
	row := oneRow(t, compact, []Val{val(0, 0, 0, 7), {B: b}, val(1, 2)})
	if c.PType&fBinary != 0 {
		wantHex(row[1], b, "long binary value")
	} else {
		wantText(row[1], b, "long value")
	}
	wantUint(row[2], 0x102, "following column")
}

// A value that fills most of a page. (The server moves values to other pages
// before a row grows beyond half a page, so 12000 bytes are beyond its rows.)
func C03_pageful() {
	c := []Col{textCol(), blobCol(), varcharLatin(16000), varcharUtf8(16000), varbinaryCol(16000)}[sym.Choose("kind", 5)]
	n := []int{1000, 2047, 2048, 4095, 4096, 8000, 8191, 8192, 12000}[sym.Choose("len", 9)]
	b := make([]byte, n)
	for i := range b {
		b[i] = 'x'
	}
	b[n-1] = byte(sym.Range("last", 'a', 'z'))
	compact := formats()
	t := idTable(c, smallint(true))
	row := oneRow(t, compact, []Val{val(0, 0, 0, 7), {B: b}, val(1, 2)})
	if c.PType&fBinary != 0 {
		wantHex(row[1], b, "long binary value")
	} else {
		wantText(row[1], b, "long value")
	}
	wantUint(row[2], 0x102, "following column")
}

// CHAR(4): two arbitrary bytes anywhere, blanks elsewhere.
func c03char(c Col, pad int) {
	b := []byte("    ")
	at := sym.Choose("at", 3)
	copy(b[at:], sym.Bytes("b", 2))
	compact := formats()
	stored := append([]byte{}, b...)
	if c.MType == mMysql && !compact {
		// in REDUNDANT rows a multi-byte CHAR has its maximal size
		for len(stored) < c.Len {
			stored = append(stored, ' ')
		}
	}
	t := idTable(c, smallint(true))
	row := oneRow(t, compact, []Val{val(0, 0, 0, 7), {B: stored}, val(1, 2)})
	wantChar(row[1], stored, "CHAR value")
	wantUint(row[2], 0x102, "following column")
}

func C03_charLatin() { c03char(charLatin(4), 0) }
func C03_charUtf8()  { c03char(charUtf8(12), 0) }

// BINARY(n): always the full length.
func C03_binary() {
	n := []int{1, 3, 8, 20}[sym.Choose("len", 4)]
	b := sym.Bytes("b", n)
	compact := formats()
	t := idTable(binaryCol(n), smallint(true))
	row := oneRow(t, compact, []Val{val(0, 0, 0, 7), {B: b}, val(1, 2)})
	wantHex(row[1], b, "binary value")
	wantUint(row[2], 0x102, "following column")
}

// A text value keeps its bytes next to a binary one and the other way round, over
// several rows of one page.
func C03_mixedRows() {
	a, b := sym.Bytes("a", 2), sym.Bytes("b", 2)
	x, y := byte(sym.Range("x", 'a', 'z')), byte(sym.Range("y", 'a', 'z'))
	compact := formats()
	t := idTable(varbinaryCol(20), varcharLatin(20), blobCol(), textCol())
	rows := tableRows(t, compact, [][]Val{
		{val(0, 0, 0, 1), {B: a}, val(x, y), {B: b}, val(y)},
		{val(0, 0, 0, 2), {B: b[:1]}, val(y), {B: a}, val(x, x)},
	})
	sym.Assert(len(rows) == 2, "two rows stored, but not two statements")
	wantHex(rows[0][1], a, "varbinary")
	wantText(rows[0][2], []byte{x, y}, "varchar")
	wantHex(rows[0][3], b, "blob")
	wantText(rows[0][4], []byte{y}, "text")
	wantHex(rows[1][1], b[:1], "varbinary")
	wantText(rows[1][2], []byte{y}, "varchar")
	wantHex(rows[1][3], a, "blob")
	wantText(rows[1][4], []byte{x, x}, "text")
}
