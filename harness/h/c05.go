package h

import (
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// A field: its column and the stored value.
type fieldCase struct {
	c Col
	n int // stored length, -1: NULL
}

func c05fields() []fieldCase {
	f, v, b := binaryCol(3), varbinaryCol(20), varbinaryCol(300)
	return []fieldCase{
		{f.NN(), 3}, {f, 3}, {f, -1},
		{v.NN(), 4}, {v, 5}, {v, -1},
		{b.NN(), 6}, {b.NN(), 130}, {b, 200}, {b, -1},
	}
}

// filled makes a value of n bytes, the first and last arbitrary.
func filled(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(len(name)*16 + i)
	}
	if n > 0 {
		b[n-1] = sym.U8(name + "-last")
	}
	if n > 1 {
		b[0] = sym.U8(name + "-first")
	}
	return b
}

func c05run(t *Table, compact bool, fc []fieldCase, key Val) {
	vals := make([]Val, len(t.Cols))
	for i, c := range fc {
		if c.n < 0 {
			vals[i] = Val{Null: true}
			continue
		}
		vals[i] = Val{B: filled(t.Cols[i].Name, c.n)}
	}
	if t.PK != nil {
		vals[t.PK[0]] = key
	}
	row := oneRow(t, compact, vals)
	for i := range t.Cols {
		if vals[i].Null {
			wantNull(row[i], "NULL of "+t.Cols[i].Name)
			continue
		}
		wantHex(row[i], vals[i].B, "bytes of "+t.Cols[i].Name)
	}
}

// Every sequence of three (thorough: four) kinds of fields, both formats, with
// a primary key or with the hidden row id.
func C05_shapes() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	compact := formats()
	pk := sym.Choose("key", 2) == 1
	ks := c05fields()
	t := &Table{ID: 41, DB: "db", Name: "t", Space: 23}
	var fc []fieldCase
	if pk {
		t.PK = []int{0}
		t.Cols = append(t.Cols, binaryCol(4).NN().as("id"))
		fc = append(fc, fieldCase{t.Cols[0], 4})
	}
	for i := 0; i < n; i++ {
		k := ks[sym.Choose("field", len(ks))]
		t.Cols = append(t.Cols, k.c.as("c"+string(rune('1'+i))))
		fc = append(fc, k)
	}
	c05run(t, compact, fc, val(0, 1, 2, 3))
}

// The total length around the limits of one-byte and two-byte offsets and lengths.
func C05_limits() {
	lens := []int{0, 1, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 126, 127, 128, 129, 220, 255}
	n := lens[sym.Choose("len", len(lens))]
	c := []Col{varbinaryCol(255), varbinaryCol(256), blobCol()}[sym.Choose("kind", 3)]
	null := sym.Choose("nullable", 2) == 1
	if !null {
		c = c.NN()
	}
	t := &Table{ID: 41, DB: "db", Name: "t", Space: 23, PK: []int{0}}
	t.Cols = []Col{binaryCol(4).NN().as("id"), c.as("c1"), binaryCol(2).as("c2"), varbinaryCol(20).as("c3")}
	tail := []int{3, -1}[sym.Choose("tail", 2)]
	c05run(t, formats(), []fieldCase{{t.Cols[0], 4}, {c, n}, {t.Cols[2], 2}, {t.Cols[3], tail}}, val(0, 1, 2, 3))
}

// Columns far behind the start of the row: two long fields in front of short ones.
func C05_far() {
	lens := []int{0, 127, 128, 3000, 4090, 5000, 6000}
	b := varbinaryCol(7000)
	t := &Table{ID: 41, DB: "db", Name: "t", Space: 23, PK: []int{0}}
	t.Cols = []Col{binaryCol(4).NN().as("id"), b.as("c1"), b.as("c2"), binaryCol(2).as("c3"), varbinaryCol(20).as("c4"), binaryCol(3).as("c5")}
	n, m := lens[sym.Choose("len", len(lens))], lens[sym.Choose("len", len(lens))]
	tail := []int{3, -1}[sym.Choose("tail", 2)]
	c05run(t, formats(), []fieldCase{{t.Cols[0], 4}, {b, n}, {b, m}, {t.Cols[3], 2}, {t.Cols[4], tail}, {t.Cols[5], 3}}, val(0, 1, 2, 3))
}

// Rows of the two-byte and of the one-byte form on one page.
func C05_twoForms() {
	compact := formats()
	b := varbinaryCol(300)
	t := &Table{ID: 41, DB: "db", Name: "t", Space: 23, PK: []int{0}}
	t.Cols = []Col{binaryCol(1).NN().as("id"), b.as("c1"), binaryCol(2).as("c2"), b.as("c3")}
	lens := []int{0, 2, 127, 128, 300, -1}
	var rows [][]Val
	for r := 0; r < 2; r++ {
		row := []Val{val(byte(r))}
		for i, k := range []int{1, 2, 3} {
			n := 2
			if i != 1 {
				n = lens[sym.Choose("len", len(lens))]
			} else if r == 1 {
				n = -1
			}
			if n < 0 {
				row = append(row, Val{Null: true})
			} else {
				row = append(row, Val{B: filled(t.Cols[k].Name+string(rune('a'+r)), n)})
			}
		}
		rows = append(rows, row)
	}
	got := tableRows(t, compact, rows)
	sym.Assert(len(got) == 2, "two statements")
	for r := range rows {
		for i := range t.Cols {
			if rows[r][i].Null {
				wantNull(got[r][i], "NULL")
			} else {
				wantHex(got[r][i], rows[r][i].B, "bytes of "+t.Cols[i].Name)
			}
		}
	}
}

// A value that is continued on other pages: the other columns are not affected.
func C05_external() { c05external() }
func C04_external() { c05external() }
func c05external() {
	compact := formats()
	t := &Table{ID: 41, DB: "db", Name: "t", Space: 23, PK: []int{0}}
	t.Cols = []Col{binaryCol(4).NN().as("id"), varbinaryCol(300).as("c1"), blobCol().as("c2"), binaryCol(2).as("c3"), blobCol().as("c4")}
	prefix := []int{0, 80, 768}[sym.Choose("prefix", 3)]
	last := sym.Choose("last", 2) == 1
	long := Val{B: filled("longvalue", prefix+20), Ext: true}
	vals := []Val{val(1, 2, 3, 4), {B: filled("x", 5)}, long, {B: filled("yy", 2)}, {B: filled("zzz", 7)}}
	if last {
		vals[2], vals[4] = vals[4], vals[2]
	}
	if sym.Choose("null", 2) == 1 {
		vals[3] = Val{Null: true}
	}
	row := oneRow(t, compact, vals)
	for i, v := range vals {
		switch {
		case v.Ext:
			sym.Assert(row[i].Kind != "null", "a value stored outside the row is NULL")
		case v.Null:
			wantNull(row[i], "NULL")
		default:
			wantHex(row[i], v.B, "bytes of "+t.Cols[i].Name)
		}
	}
}

// The key itself has a variable length.
func C05_varKey() {
	compact := formats()
	k := []Col{varbinaryCol(20), varbinaryCol(300), varcharLatin(20)}[sym.Choose("key", 3)]
	t := &Table{ID: 41, DB: "db", Name: "t", Space: 23, PK: []int{0}}
	t.Cols = []Col{k.NN().as("id"), binaryCol(2).as("c1"), varbinaryCol(20).as("c2")}
	n := []int{0, 1, 7, 19}[sym.Choose("len", 4)]
	key := make([]byte, n)
	for i := range key {
		key[i] = byte('a' + i)
	}
	if n > 0 {
		key[0] = byte(sym.Range("k", 'a', 'z'))
	}
	var vals []Val
	vals = append(vals, Val{B: key}, Val{B: filled("x", 2)}, Val{B: filled("yy", 4)})
	if sym.Choose("null", 2) == 1 {
		vals[2] = Val{Null: true}
	}
	row := oneRow(t, compact, vals)
	wantBytes(row[0], k, key, "key")
	wantHex(row[1], vals[1].B, "c1")
	if vals[2].Null {
		wantNull(row[2], "NULL")
	} else {
		wantHex(row[2], vals[2].B, "c2")
	}
}

func wantBytes(l Lit, c Col, b []byte, what string) {
	if c.PType&fBinary != 0 {
		wantHex(l, b, what)
	} else {
		wantText(l, b, what)
	}
}

// The hidden fields hold arbitrary bytes and are never shown.
func C05_hidden() {
	compact := formats()
	t := &Table{ID: 41, DB: "db", Name: "t", Space: 23}
	t.Cols = []Col{binaryCol(2).as("c1"), varbinaryCol(20).as("c2")}
	if sym.Choose("key", 2) == 1 {
		t.PK = []int{0}
		t.Cols[0] = t.Cols[0].NN()
	}
	a, b := filled("a", 2), filled("bb", 5)
	p := dataPage(3, compact, t, [][]Val{{{B: a}, {B: b}}})
	// the hidden fields of the row
	o := 0
	if compact {
		o = int(num(p[97:99])) + 99
	} else {
		o = int(num(p[99:101]))
	}
	n := 19
	if t.PK != nil {
		o += 2
		n = 13
	}
	copy(p[o:], sym.Bytes("hidden", n))
	out, err := readTable(dictFile(t), p, t.DB, t.Name, false)
	sym.Assert(err == nil, "reading the table failed")
	rows := rowsOf(t, out)
	sym.Assert(len(rows) == 1, "one row stored, but not one statement printed")
	wantHex(rows[0][0], a, "c1")
	wantHex(rows[0][1], b, "c2")
}

// A DECIMAL column, whose own value is not decoded: its neighbours are not affected.
func C05_decimal() {
	compact := formats()
	d := Col{MType: mFixBinary, PType: 246 | fBinary, Len: 1 + sym.Choose("size", 3)*12}
	if sym.Bool("required") {
		d = d.NN()
	}
	t := idTable(varbinaryCol(20).as("c1"), d.as("d"), binaryCol(3).as("c2"), integer(true).as("c3"))
	if sym.Bool("last") {
		t.Cols[2], t.Cols[4] = t.Cols[4], t.Cols[2]
	}
	vals := []Val{val(0, 0, 0, 7)}
	at := map[string]int{}
	for i, c := range t.Cols[1:] {
		at[c.Name] = i + 1
		v := Val{B: filled(c.Name, c.Len)}
		switch {
		case c.Name == "c1":
			v = Val{B: sym.Bytes("text", 4)}
		case c.Name == "d" && !c.notNull() && sym.Bool("null"):
			v = Val{Null: true}
		}
		vals = append(vals, v)
	}
	row := oneRow(t, compact, vals)
	sym.Assert(len(row) == len(t.Cols), "number of values")
	wantUint(row[0], 7, "id")
	wantHex(row[at["c1"]], vals[at["c1"]].B, "bytes in front of a decimal")
	wantHex(row[at["c2"]], vals[at["c2"]].B, "bytes behind a decimal")
	wantUint(row[at["c3"]], uint64(num(vals[at["c3"]].B)), "integer behind a decimal")
	if vals[at["d"]].Null {
		wantNull(row[at["d"]], "decimal NULL")
	}
}
