package h

import (
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// c07page is a page with one live row and one deleted row.
func c07page(t *Table, no int, compact bool) ([]byte, chained, chained) {
	p, l, f := c06page(no, compact, t, []int{130}, []int{400})
	return p, l[0], f[0]
}

func c07run(t *Table, f []byte, deleted bool) [][]Lit {
	out, err := readTable(dictFile(t), f, t.DB, t.Name, deleted)
	sym.Assert(err == nil, "reading the table failed")
	sym.Observe("out", out)
	return rowsOf(t, out)
}

// Any page type, level and transaction id of two pages before an ordinary one.
func C07_header() {
	t, compact := c06table(), formats()
	deleted := sym.Choose("deleted", 2) == 1
	var f []byte
	var want []chained
	n := 2
	for i := 0; i < n; i++ {
		p, l, d := c07page(t, 3+i, compact)
		typ, level, trx := sym.U16("type"), sym.U16("level"), sym.U64("maxtrx")
		put(p, 24, 2, uint64(typ))
		put(p, 38+26, 2, uint64(level))
		put(p, 38+18, 8, trx)
		f = append(f, p...)
		if typ == 17855 && level == 0 && trx == 0 {
			if deleted {
				want = append(want, d)
			} else {
				want = append(want, l)
			}
		}
	}
	p, l, d := c07page(t, 3+n, compact)
	f = append(f, p...)
	if deleted {
		want = append(want, d)
	} else {
		want = append(want, l)
	}
	rows := c07run(t, f, deleted)
	sym.Assert(len(rows) == len(want), "statements for exactly the clustered leaf pages")
	for i, c := range want {
		wantHex(rows[i][0], c.key.B, "key")
		wantHex(rows[i][1], c.data, "data")
	}
}

// Any page numbers: the first page of a number counts, in file order. A copy of a
// page that is also in its own place is C16's.
func C07_numbers() {
	t, compact := c06table(), formats()
	deleted := sym.Choose("deleted", 2) == 1
	n := 3
	if sym.Thorough() {
		n = 4
	}
	var f []byte
	var want []chained
	var seen []uint32
	for i := 0; i < n; i++ {
		no := sym.U32("number")
		p, l, d := c07page(t, 0, compact)
		put(p, 4, 4, uint64(no))
		f = append(f, p...)
		dup := false
		for _, s := range seen {
			if s == no {
				dup = true
			}
		}
		if dup {
			sym.Assume(no >= uint32(n))
		}
		seen = append(seen, no)
		if !dup {
			if deleted {
				want = append(want, d)
			} else {
				want = append(want, l)
			}
		}
	}
	rows := c07run(t, f, deleted)
	sym.Assert(len(rows) == len(want), "one page for each page number")
	for i, c := range want {
		wantHex(rows[i][0], c.key.B, "key")
		wantHex(rows[i][1], c.data, "data")
	}
}

// A page of another kind holds arbitrary bytes where an index page has its
// header, and does not stop the pages behind it.
func C07_otherPage() {
	t, compact := c06table(), formats()
	deleted := sym.Choose("deleted", 2) == 1
	p := make([]byte, pageSize)
	put(p, 4, 4, 3)
	typ := sym.U16("type")
	sym.Assume(typ != 17855)
	put(p, 24, 2, uint64(typ))
	copy(p[38:], sym.Bytes("header", 36))
	copy(p[94:], sym.Bytes("records", 26))
	q, l, d := c07page(t, 4, compact)
	var f []byte
	if sym.Choose("first", 2) == 1 {
		f = append(append(f, p...), q...)
	} else {
		f = append(append(f, q...), p...)
	}
	want := l
	if deleted {
		want = d
	}
	rows := c07run(t, f, deleted)
	sym.Assert(len(rows) == 1, "only the index page has rows")
	wantHex(rows[0][0], want.key.B, "key")
	wantHex(rows[0][1], want.data, "data")
}

// Recovery of deleted rows: exactly the pages that hold deleted records. The
// bytes of garbage, number of records and heap top are arbitrary.
func C07_deleted() {
	t, compact := c06table(), formats()
	n := 3
	var f []byte
	var want []chained
	for i := 0; i < n; i++ {
		live := sym.Choose("live", 3)
		del := sym.Choose("free", 2)
		ps := []int{130, 300, 500}
		p, _, fc := c06page(3+i, compact, t, ps[:live], ps[2:2+del])
		// fields of the page header that do not matter
		put(p, 38, 2, uint64(sym.U16("dirslots")))
		put(p, 38+2, 2, uint64(sym.U16("heaptop")))
		copy(p[38+10:], sym.Bytes("direction", 6))
		put(p, 0, 4, uint64(sym.U32("checksum")))
		copy(p[8:], sym.Bytes("prevnext", 8))
		put(p, 26, 8, sym.U64("flushlsn"))
		f = append(f, p...)
		want = append(want, fc...)
	}
	rows := c07run(t, f, true)
	sym.Assert(len(rows) == len(want), "exactly the deleted records")
	for i, c := range want {
		wantHex(rows[i][0], c.key.B, "key")
		wantHex(rows[i][1], c.data, "data")
	}
}

// The same header fields are arbitrary when live rows are read.
func C07_live() {
	t, compact := c06table(), formats()
	var f []byte
	var want []chained
	for i := 0; i < 3; i++ {
		live := sym.Choose("live", 3)
		ps := []int{130, 300, 500}
		p, lc, _ := c06page(3+i, compact, t, ps[:live], nil)
		put(p, 38, 2, uint64(sym.U16("dirslots")))
		put(p, 38+2, 2, uint64(sym.U16("heaptop")))
		put(p, 38+6, 4, uint64(sym.U32("free")))
		copy(p[38+10:], sym.Bytes("direction", 6))
		put(p, 38+16, 2, uint64(sym.U16("nrecs")))
		put(p, 0, 4, uint64(sym.U32("checksum")))
		copy(p[8:], sym.Bytes("prevnext", 8))
		put(p, 26, 8, sym.U64("flushlsn"))
		f = append(f, p...)
		want = append(want, lc...)
	}
	rows := c07run(t, f, false)
	sym.Assert(len(rows) == len(want), "exactly the live records")
	for i, c := range want {
		wantHex(rows[i][0], c.key.B, "key")
		wantHex(rows[i][1], c.data, "data")
	}
}
