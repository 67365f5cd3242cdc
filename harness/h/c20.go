package h

import (
	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/redo"
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// c20tables are tables of overlapping names, each of other columns.
func c20tables() []*Table {
	names := [][2]string{{"db", "t"}, {"db", "tt"}, {"dbt", "t"}, {"d", "t"}, {"db2", "t"}, {"t", "db"}, {"db", "T"}}
	var ts []*Table
	for i, n := range names {
		t := &Table{ID: 41 + i, DB: n[0], Name: n[1], PK: []int{0}, Space: 23 + i}
		t.Cols = append(t.Cols, integer(true).NN().as("id"))
		for k := 0; k < i%3; k++ {
			t.Cols = append(t.Cols, tinyint(true).as("c"+string(rune('1'+k))))
		}
		t.Cols = append(t.Cols, varcharLatin(20).as("v"))
		ts = append(ts, t)
	}
	return ts
}

func c20row(t *Table, last string) []Val {
	row := []Val{val(0, 0, 0, 7)}
	for i := 1; i < len(t.Cols)-1; i++ {
		row = append(row, val(byte(i)))
	}
	return append(row, str(last))
}

// name of length n of arbitrary bytes.
func c20name(tag string) string { return string(sym.Bytes(tag, sym.Choose(tag+"len", 4))) }

// Any name that is not that of a table: an error, and no statement.
func C20_unknown() {
	ts := c20tables()
	db, tab := "db", "t"
	switch sym.Choose("which", 3) {
	case 0:
		db = c20name("db")
	case 1:
		tab = c20name("table")
	case 2:
		db, tab = c20name("db"), c20name("table")
	}
	for _, t := range ts {
		sym.Assume(!(t.DB == db && t.Name == tab))
	}
	p := ibdata.NewParse()
	sym.Assert(p.ParseDictPage(sym.File(dictFile(ts...))) == nil, "reading the dictionary failed")
	f := sym.File(dataPage(3, true, ts[0], [][]Val{c20row(ts[0], "x")}))
	deleted := sym.Choose("deleted", 2) == 1
	var err error
	out := sym.Stdout(func() { err = p.ParseDataPage(f, db, tab, deleted) })
	sym.Assert(err != nil, "a table that is not in the dictionary is no error")
	sym.Assert(out == "", "statements for a table that is not in the dictionary")
}

// The same for redo recovery.
func C20_unknownRedo() {
	ts := c20tables()
	db, tab := "db", "t"
	switch sym.Choose("which", 4) {
	case 0:
		db = c20name("db")
	case 1:
		tab = c20name("table")
	case 2:
		db, tab = "", c20name("table")
	case 3:
		db, tab = c20name("db"), ""
	}
	for _, t := range ts {
		sym.Assume(!((db == "" || t.DB == db) && (tab == "" || t.Name == tab)))
	}
	var recs []byte
	for _, t := range ts {
		recs = append(recs, update(t, []Val{val(0, 0, 0, 7)}, updField{physPos(t, len(t.Cols)-1), str("x")}).rec()...)
	}
	out, err := readLogs(dictFile(ts...), db, tab, sym.File(logFile(recs)))
	sym.Assert(err != nil, "a table that is not in the dictionary is no error")
	sym.Assert(out == "", "statements for a table that is not in the dictionary")
}

// Of several tables of overlapping names exactly the requested one is used.
func C20_known() {
	ts := c20tables()
	k := sym.Choose("table", len(ts))
	t := ts[k]
	// the dictionary lists them in any rotation
	n := sym.Choose("rotation", len(ts))
	dict := dictFile(append(append([]*Table{}, ts[n:]...), ts[:n]...)...)
	b := byte(sym.Range("v", 'a', 'z'))
	compact := formats()
	out, err := readTable(dict, dataPage(3, compact, t, [][]Val{c20row(t, string([]byte{b}))}), t.DB, t.Name, false)
	c20known(t, out, err, b)
}

// The same with three tables, whatever order maps are iterated in.
func C20_mapOrder() {
	ts := c20tables()[:3]
	t := ts[sym.Choose("table", len(ts))]
	p := ibdata.NewParse()
	sym.Assert(p.ParseDictPage(sym.File(dictFile(ts...))) == nil, "reading the dictionary failed")
	b := byte(sym.Range("v", 'a', 'z'))
	f := sym.File(dataPage(3, true, t, [][]Val{c20row(t, string([]byte{b}))}))
	var err error
	sym.MapOrder(true)
	out := sym.Stdout(func() { err = p.ParseDataPage(f, t.DB, t.Name, false) })
	sym.MapOrder(false)
	c20known(t, out, err, b)
}

func c20known(t *Table, out string, err error, b byte) {
	sym.Assert(err == nil, "reading the table failed")
	sym.Observe("out", out)
	rows := rowsOf(t, out)
	sym.Assert(len(rows) == 1, "one row stored, but not one statement")
	wantUint(rows[0][0], 7, "key")
	for i := 1; i < len(t.Cols)-1; i++ {
		wantUint(rows[0][i], uint64(i), "value")
	}
	wantText(rows[0][len(t.Cols)-1], []byte{b}, "value")
}

// A system tablespace that lacks some of the dictionary pages, or has others of
// their numbers.
func C20_missing() {
	t, u := c10tables()
	r := rowsOfDict(t, u)
	ps := [][]byte{dictHeaderPage()}
	for k := range r {
		ps = append(ps, recsPage(rootDict[k], k+1, r[k], fixDict[k]))
	}
	var f []byte
	missing := 0
	for i, p := range ps {
		switch sym.Choose("page", 3) {
		case 0:
			f = append(f, p...)
		case 1:
			missing++
		case 2:
			// a page that was never written
			missing++
			z := make([]byte, pageSize)
			if i > 0 {
				copy(z[:8], p[:8])
			}
			f = append(f, z...)
		}
	}
	sym.Assume(missing > 0)
	path := sym.File(f)
	var err, rerr error
	out := sym.Stdout(func() {
		err = ibdata.NewParse().ParseDictPage(path)
		rerr = redo.NewParse("t", "db").ParseDictPage(path)
	})
	sym.Assert(err != nil, "a system tablespace without dictionary pages is no error")
	sym.Assert(rerr != nil, "a system tablespace without dictionary pages is no error of redo recovery")
	sym.Assert(out == "", "statements without a dictionary")
}

// A file that is no system tablespace: pages of arbitrary headers, none of which
// is the page of the dictionary header.
func C20_other() {
	n := sym.Choose("pages", 3)
	var f []byte
	for i := 0; i < n; i++ {
		p := make([]byte, pageSize)
		no := sym.U32("number")
		sym.Assume(no != 7)
		put(p, 4, 4, uint64(no))
		put(p, 24, 2, uint64(sym.U16("type")))
		copy(p[38:], sym.Bytes("header", 56))
		f = append(f, p...)
	}
	var err error
	out := sym.Stdout(func() { err = ibdata.NewParse().ParseDictPage(sym.File(f)) })
	sym.Assert(err != nil, "a file that is no system tablespace is no error")
	sym.Assert(out == "", "statements without a dictionary")
}

// Files that do not exist.
func C20_noFile() {
	t, _ := c10tables()
	var err error
	var out string
	switch sym.Choose("file", 4) {
	case 0:
		out = sym.Stdout(func() { err = ibdata.NewParse().ParseDictPage(sym.MissingFile()) })
	case 1:
		out, err = readTableFile(dictFile(t), sym.MissingFile(), t.DB, t.Name, sym.Choose("deleted", 2) == 1)
	case 2:
		out = sym.Stdout(func() { err = redo.NewParse("t", "db").ParseDictPage(sym.MissingFile()) })
	case 3:
		out, err = readLogs(dictFile(t), t.DB, t.Name, sym.MissingFile())
	}
	sym.Assert(err != nil, "a missing file is no error")
	sym.Assert(out == "", "statements without a file")
}
