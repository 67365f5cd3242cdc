package h

import (
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// sample is a stored value of a column with one arbitrary byte (no byte of a
// character column is one that would need an escape), and how it is checked.
func sample(c Col, name string) (Val, func(Lit, string)) {
	switch {
	case c.MType == mInt && c.PType&0xff == tYear:
		y := byte(sym.Range(name, 1, 255))
		return val(y), func(l Lit, w string) { wantUint(l, 1900+uint64(y), w) }
	case c.PType&0xff == tDate:
		d := sym.Range(name, 1, 30)
		return Val{B: encDate(2017, 11, d)}, func(l Lit, w string) { wantDate(l, 2017, 11, d) }
	case c.PType&0xff == tDatetime:
		n := sym.Range(name, 0, 59)
		return withFraction(c, name, Val{B: encDatetime(2017, 11, 30, 23, 45, n)}, func(l Lit, w string) { wantDatetime(l, 2017, 11, 30, 23, 45, n) })
	case c.PType&0xff == tTime:
		n := sym.Range(name, 0, 59)
		neg := fracBytes(c) == 0
		return withFraction(c, name, Val{B: encTime(neg, 123, 45, n)}, func(l Lit, w string) { wantTime(l, neg, 123, 45, n) })
	case c.PType&0xff == tTimestamp:
		n := uint64(sym.Range(name, 0, 59))
		return withFraction(c, name, Val{B: be(4, 1500000000+n)}, func(l Lit, w string) { wantTimestamp(l, 1500000000+n) })
	case c.MType == mInt:
		b := make([]byte, c.Len)
		b[c.Len-1] = sym.U8(name)
		if c.PType&fUnsigned == 0 {
			b[0] |= 0x80
			v := num(b) - 1<<uint(8*c.Len-1)
			return Val{B: b}, func(l Lit, w string) { wantInt(l, int64(v), w) }
		}
		v := num(b)
		return Val{B: b}, func(l Lit, w string) { wantUint(l, v, w) }
	case c.MType == mFloat:
		b := []byte{0, 0, 0xc0, 0x3f}
		return Val{B: b}, func(l Lit, w string) {
			u, ok := sym.ParseFloat32(text(l))
			sym.Assert(ok && u == 0x3fc00000, w)
		}
	case c.MType == mDouble:
		b := []byte{0, 0, 0, 0, 0, 0, 0xf0, 0x3f}
		return Val{B: b}, func(l Lit, w string) {
			u, ok := sym.ParseFloat64(text(l))
			sym.Assert(ok && u == 0x3ff0000000000000, w)
		}
	case c.MType == mFixBinary && c.PType&0xff == tBit:
		b := make([]byte, c.Len)
		b[c.Len-1] = sym.U8(name)
		v := num(b)
		return Val{B: b}, func(l Lit, w string) { wantBit(l, v, w) }
	case c.PType&fBinary != 0:
		n := 3
		if c.fixed() != 0 {
			n = c.Len
		}
		b := make([]byte, n)
		b[n-1] = sym.U8(name)
		return Val{B: b}, func(l Lit, w string) { wantHex(l, b, w) }
	}
	b := []byte("ab")
	if c.fixed() != 0 {
		b = make([]byte, c.Len)
		for i := range b {
			b[i] = 'k'
		}
	}
	b[0] = byte(sym.Range(name, 'c', 'z'))
	if c.MType == mChar || c.MType == mMysql {
		for len(b) < c.Len {
			b = append(b, ' ')
		}
		return Val{B: b}, func(l Lit, w string) { wantChar(l, b, w) }
	}
	return Val{B: b}, func(l Lit, w string) { wantText(l, b, w) }
}

// nullable column kinds
func c04kinds() []Col {
	return []Col{
		integer(true), varcharLatin(20), smallint(false), blobCol(), charLatin(4), textCol(),
		bitCol(5), varbinaryCol(300), doubleCol(), varcharUtf8(300), charUtf8(12), binaryCol(3),
		yearCol(), datetimeCol(), tinyint(true), dateCol(), timeCol(), timestampCol(), floatCol(),
		datetimeCol().frac(1), timeCol().frac(2), timestampCol().frac(3),
	}
}

func c04check(t *Table, compact bool, pats []uint) {
	var rows [][]Val
	type chk struct{ f []func(Lit, string) }
	var checks []chk
	for r, pat := range pats {
		row := []Val{val(0, 0, 0, byte(r+1))}
		c := chk{f: []func(Lit, string){nil}}
		for i := 1; i < len(t.Cols); i++ {
			if pat>>uint(i-1)&1 == 1 {
				row = append(row, Val{Null: true})
				c.f = append(c.f, wantNull)
				continue
			}
			v, f := sample(t.Cols[i], "v"+string(rune('0'+r))+string(rune('a'+i)))
			row = append(row, v)
			c.f = append(c.f, f)
		}
		rows = append(rows, row)
		checks = append(checks, c)
	}
	got := tableRows(t, compact, rows)
	sym.Assert(len(got) == len(rows), "one statement per row")
	for r := range rows {
		wantUint(got[r][0], uint64(r+1), "key")
		for i := 1; i < len(t.Cols); i++ {
			what := "value of " + t.Cols[i].Name
			if rows[r][i].Null {
				what = "NULL of " + t.Cols[i].Name
			}
			checks[r].f[i](got[r][i], what)
		}
	}
}

// Each kind of column, NULL or not, next to a NULL or other neighbour.
func C04_kinds() {
	ks := c04kinds()
	a := ks[sym.Choose("a", len(ks))]
	b := []Col{smallint(true), varcharLatin(20)}[sym.Choose("b", 2)]
	pat := uint(sym.Choose("nulls", 4))
	c04check(idTable(a, b), formats(), []uint{pat})
}

// Every pattern of nine nullable columns: the bitmap has more than one byte.
func C04_nine() {
	cols := []Col{}
	kinds := []Col{tinyint(true), varbinaryCol(20), smallint(true)}
	for i := 0; i < 9; i++ {
		cols = append(cols, kinds[i%3])
	}
	t := idTable(cols...)
	compact := true
	if sym.Thorough() {
		compact = formats()
	}
	pat := uint(sym.Choose("nulls", 512))
	c04check(t, compact, []uint{pat})
}

// Many nullable columns with NOT NULL ones between them: one NULL, or one that is not.
func C04_many() {
	cols := []Col{}
	for i := 0; i < 18; i++ {
		c := []Col{tinyint(true), varbinaryCol(300)}[i%2]
		if i == 5 || i == 12 {
			c = c.NN()
		}
		cols = append(cols, c.as("k"+string(rune('a'+i))))
	}
	t := idTable(cols...)
	k := sym.Choose("which", 19)
	pat := uint(0)
	if k < 18 {
		pat = 1 << uint(k)
	}
	if sym.Choose("flip", 2) == 1 {
		pat = ^pat & (1<<18 - 1)
	}
	pat &^= 1<<5 | 1<<12
	c04check(t, formats(), []uint{pat})
}

// Rows of one page do not see each other's NULLs and values.
func C04_rows() {
	t := idTable(integer(true), varcharLatin(20), blobCol())
	a := uint(sym.Choose("first", 8))
	b := uint(sym.Choose("second", 8))
	pats := []uint{a, b}
	if sym.Thorough() {
		pats = append(pats, uint(sym.Choose("third", 8)))
	}
	c04check(t, formats(), pats)
}

// A row of NULLs only, and a nullable column before the NOT NULL ones.
func C04_mixedNotNull() {
	t := idTable(smallint(true), smallint(true).NN(), varbinaryCol(20), varbinaryCol(20).NN(), charLatin(4))
	pat := uint(sym.Choose("nulls", 8))
	p := pat&1 | pat&2<<1 | pat&4<<2
	c04check(t, formats(), []uint{p, 0x15})
}

// No text is taken for NULL: four arbitrary letters, upper and lower case.
func c04word(c Col) {
	b := make([]byte, 4)
	for i, name := range []string{"w0", "w1", "w2", "w3"} {
		b[i] = byte(sym.Range(name, 'A', 'z'))
		sym.Assume(b[i] != '\\')
	}
	compact := formats()
	stored := b
	if c.MType == mMysql && !compact {
		for len(stored) < c.Len {
			stored = append(stored, ' ')
		}
	}
	t := idTable(c, varcharLatin(20))
	row := oneRow(t, compact, []Val{val(0, 0, 0, 7), {B: stored}, {Null: true}})
	sym.Assert(row[1].Kind != "null", "a text was taken for NULL")
	if c.MType == mMysql || c.MType == mChar {
		wantChar(row[1], stored, "text")
	} else {
		wantText(row[1], stored, "text")
	}
	wantNull(row[2], "NULL behind a text")
}

func C04_wordVarchar()     { c04word(varcharLatin(20)) }
func C04_wordVarcharUtf8() { c04word(varcharUtf8(60)) }
func C04_wordText()        { c04word(textCol()) }
func C04_wordChar()        { c04word(charLatin(4)) }
func C04_wordCharUtf8()    { c04word(charUtf8(12)) }

// An empty text is not NULL.
func C04_empty() {
	c := []Col{varcharLatin(20), varcharUtf8(300), textCol(), blobCol(), varbinaryCol(20)}[sym.Choose("kind", 5)]
	null := sym.Choose("null", 2) == 1
	t := idTable(c, smallint(true))
	row := oneRow(t, formats(), []Val{val(0, 0, 0, 7), {Null: null}, val(1, 2)})
	if null {
		wantNull(row[1], "NULL")
	} else if c.PType&fBinary != 0 {
		wantHex(row[1], nil, "empty value")
	} else {
		wantText(row[1], nil, "empty value")
	}
	wantUint(row[2], 0x102, "following column")
}
