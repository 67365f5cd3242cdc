package h

import (
	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// c18split gives a file that the operating system returns in pieces, which end at
// any n places.
func c18split(b []byte, n int) string {
	var at []int
	for i := 0; i < n; i++ {
		at = append(at, sym.Range("split", 1, len(b)-1))
		if i > 0 {
			sym.Assume(at[i-1] < at[i])
		}
	}
	return sym.SplitFile(b, at...)
}

func c18table() *Table { return idTable(varbinaryCol(20), integer(true)) }

func c18file(t *Table, compact bool) []byte {
	zero := make([]byte, pageSize)
	return cat(zero, c16good(1, compact, t, 10), c16good(2, compact, t, 20))
}

func c18rows(t *Table, out string, deleted bool, err error, pages int) {
	sym.Assert(err == nil, "reading the table failed")
	rows := rowsOf(t, out)
	sym.Assert(len(rows) == 2*pages, "the rows stored")
	for i, r := range rows {
		n := uint64(10 + 10*(i/2) + i%2)
		if deleted {
			n += 2
		}
		wantUint(r[0], n, "key")
		wantHex(r[1], []byte("va"+string(rune('0'+n))), "value")
		wantUint(r[2], n, "value")
	}
}

func c18many(quick, thorough int) int {
	if sym.Thorough() {
		return 1 + sym.Choose("splits", thorough)
	}
	return 1 + sym.Choose("splits", quick)
}

// The data file comes in pieces.
func C18_data() {
	t, compact := c18table(), formats()
	deleted := sym.Choose("deleted", 2) == 1
	p := c18split(c18file(t, compact), c18many(2, 4))
	out, err := readTableFile(dictFile(t), p, t.DB, t.Name, deleted)
	c18rows(t, out, deleted, err, 2)
}

// The system tablespace comes in pieces.
func C18_dict() {
	t := c18table()
	path := c18split(dictFile(t), c18many(2, 3))
	f := sym.File(c18file(t, true))
	p := ibdata.NewParse()
	err := p.ParseDictPage(path)
	sym.Assert(err == nil, "reading the dictionary failed")
	out := sym.Stdout(func() { err = p.ParseDataPage(f, t.DB, t.Name, false) })
	c18rows(t, out, false, err, 2)
}

func c18updates(t *Table) []byte {
	var s []byte
	for i := 1; i <= 3; i++ {
		s = cat(s, update(t, []Val{val(0, 0, 0, byte(i))}, updField{physPos(t, 1), val(0, 0, 1, byte(i))}, updField{physPos(t, 2), str("abc")}).rec())
		if i == 1 {
			s = cat(s, filler(480-len(s)))
		}
	}
	return s
}

func c18log(t *Table, paths ...string) {
	out, err := readLogs(dictFile(t), t.DB, t.Name, paths...)
	sym.Assert(err == nil, "reading the log failed")
	sym.Observe("out", out)
	sts := updates(out)
	sym.Assert(len(sts) == 3, "one statement for each update")
	for i, s := range sts {
		n := uint64(i + 1)
		wantUint(named(s.Where, "id", 1, "WHERE"), n, "key")
		wantUint(named(s.Set, "c1", 2, "SET"), 256+n, "value")
		wantText(named(s.Set, "c2", 2, "SET"), []byte("abc"), "value")
	}
}

// A redo log comes in pieces.
func C18_log() {
	t := c12table()
	c18log(t, c18split(logFile(c18updates(t)), c18many(3, 5)))
}

// Two redo logs come in pieces.
func C18_logs() {
	t := c12table()
	s := c18updates(t)
	n := 496
	if sym.Choose("cut", 2) == 1 {
		n = 470
	}
	a, b := cat(logHeader(0), block(1, s[:n])), cat(logHeader(1), block(2, s[n:]), make([]byte, 512))
	c18log(t, c18split(a, c18many(1, 2)), c18split(b, c18many(2, 3)))
}

// Part of a page at the end of the file: of any length, with any contents.
func C18_partial() {
	t, compact := c18table(), formats()
	deleted := sym.Choose("deleted", 2) == 1
	ns := []int{1, 7, 38, 39, 74, 94, 130, 200, 1024, 8192, 16375, 16376, 16383}
	n := ns[sym.Choose("length", len(ns))]
	part := c16good(3, compact, t, 30)[:n]
	if sym.Choose("contents", 2) == 1 {
		k := n
		if k > 64 {
			k = 64
		}
		copy(part, sym.Bytes("part", k))
	}
	f := cat(c18file(t, compact), part)
	var p string
	m := 2
	if sym.Thorough() {
		m = 3
	}
	switch sym.Choose("splits", m) {
	case 0:
		p = sym.File(f)
	case 1:
		p = c18split(f, 1)
	case 2:
		p = c18split(f, 2)
	}
	out, err := readTableFile(dictFile(t), p, t.DB, t.Name, deleted)
	c18rows(t, out, deleted, err, 2)
}

// The same at the end of the system tablespace.
func C18_partialDict() {
	t := c18table()
	ns := []int{1, 100, 8192, 16383}
	f := cat(dictFile(t), dataPage(3, false, t, nil)[:ns[sym.Choose("length", len(ns))]])
	f[len(f)-1] = sym.U8("last")
	path := sym.File(f)
	if sym.Choose("split", 2) == 1 {
		path = c18split(f, 1)
	}
	d := sym.File(c18file(t, true))
	p := ibdata.NewParse()
	err := p.ParseDictPage(path)
	sym.Assert(err == nil, "reading the dictionary failed")
	out := sym.Stdout(func() { err = p.ParseDataPage(d, t.DB, t.Name, false) })
	c18rows(t, out, false, err, 2)
}

// A file of less than a page has no rows.
func C18_short() {
	t, compact := c18table(), formats()
	ns := []int{0, 1, 38, 100, 8192, 16383}
	f := c16good(0, compact, t, 30)[:ns[sym.Choose("length", len(ns))]]
	out, err := readTable(dictFile(t), f, t.DB, t.Name, sym.Choose("deleted", 2) == 1)
	_ = err
	sym.Assert(out == "", "statements from less than a page")
}

// Files that cannot be opened, alone or behind good ones.
func C18_missing() {
	t := c12table()
	a := cat(logHeader(0), block(1, c18updates(t)[:496]))
	var err error
	switch sym.Choose("file", 5) {
	case 0:
		err = ibdata.NewParse().ParseDictPage(sym.MissingFile())
	case 1:
		_, err = readTableFile(dictFile(t), sym.MissingFile(), t.DB, t.Name, sym.Choose("deleted", 2) == 1)
	case 2:
		_, err = readLogs(dictFile(t), t.DB, t.Name, sym.MissingFile())
	case 3:
		_, err = readLogs(dictFile(t), t.DB, t.Name, sym.File(a), sym.MissingFile())
	case 4:
		_, err = readLogs(dictFile(t), t.DB, t.Name, sym.MissingFile(), sym.File(a))
	}
	sym.Assert(err != nil, "a file that cannot be opened is no error")
}
