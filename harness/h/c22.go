package h

import (
	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/redo"
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// c22tables share names of columns, not their places and kinds.
func c22tables() []*Table {
	a := &Table{ID: 41, DB: "db", Name: "a", Space: 23, PK: []int{0}}
	a.Cols = []Col{integer(true).NN().as("id"), varcharLatin(20).as("x"), tinyint(false).as("y"), charLatin(3).as("z")}
	b := &Table{ID: 42, DB: "db", Name: "b", Space: 24, PK: []int{2, 1}}
	b.Cols = []Col{varcharLatin(300).as("x"), smallint(true).NN().as("y"), integer(true).NN().as("id")}
	c := &Table{ID: 43, DB: "db2", Name: "a", Space: 25}
	c.Cols = []Col{tinyint(true).as("y"), blobCol().as("x")}
	return []*Table{a, b, c}
}

// c22row gives a row of arbitrary values of any pattern of NULLs, and its checks.
func c22row(t *Table, tag string) ([]Val, []func(Lit, string)) {
	return c22nulls(t, tag, uint(sym.Choose("nulls", 1<<uint(len(t.Cols)))))
}

func c22nulls(t *Table, tag string, nulls uint) ([]Val, []func(Lit, string)) {
	var row []Val
	var chk []func(Lit, string)
	for i, c := range t.Cols {
		if nulls>>uint(i)&1 == 1 {
			if c.notNull() {
				sym.Assume(false)
			}
			row, chk = append(row, Val{Null: true}), append(chk, wantNull)
			continue
		}
		v, f := sample(c, tag+c.Name)
		row, chk = append(row, v), append(chk, f)
	}
	return row, chk
}

func c22dict(p *ibdata.Parse, ts ...*Table) {
	sym.Assert(p.ParseDictPage(sym.File(dictFile(ts...))) == nil, "reading the dictionary failed")
}

func c22data(p *ibdata.Parse, path string, t *Table, deleted bool) string {
	var err error
	out := sym.Stdout(func() { err = p.ParseDataPage(path, t.DB, t.Name, deleted) })
	sym.Assert(err == nil, "reading the table failed")
	return out
}

func c22rows(t *Table, out string, rows ...[]func(Lit, string)) {
	got := rowsOf(t, out)
	sym.Assert(len(got) == len(rows), "one statement for each row")
	for i, chk := range rows {
		for k := range chk {
			chk[k](got[i][k], "value of "+t.Cols[k].Name)
		}
	}
}

// Tables read one after the other with the same parser: each gives its own rows,
// and again the same ones later.
func C22_tables() {
	ts := c22tables()
	p := ibdata.NewParse()
	c22dict(p, ts...)
	i := sym.Choose("first", len(ts))
	k := sym.Choose("second", len(ts))
	if i == k {
		sym.Assume(false)
	}
	a, b := ts[i], ts[k]
	compact := formats()
	row, chk := c22row(a, "a")
	row2, chk2 := c22nulls(b, "b", 0)
	fa, fb := sym.File(dataPage(3, compact, a, [][]Val{row})), sym.File(dataPage(3, compact, b, [][]Val{row2}))
	one := c22data(p, fa, a, false)
	two := c22data(p, fb, b, false)
	three := c22data(p, fa, a, false)
	c22rows(a, one, chk)
	c22rows(b, two, chk2)
	sym.Assert(one == three, "other statements when the table is read again")
	sym.Observe("out", three)
}

// Reading the live and the deleted rows in any sequence.
func C22_modes() {
	t := idTable(varcharLatin(20), tinyint(false))
	compact := formats()
	live, c1 := c22row(t, "l")
	dead, c2 := c22nulls(t, "d", 0)
	page, _ := c16page(3, compact, t, [][]Val{live}, [][]Val{dead})
	f := sym.File(page)
	p := ibdata.NewParse()
	c22dict(p, t)
	for i := 0; i < 3; i++ {
		if sym.Choose("deleted", 2) == 1 {
			c22rows(t, c22data(p, f, t, true), c2)
		} else {
			c22rows(t, c22data(p, f, t, false), c1)
		}
	}
}

// The rows of one page in front of another do not change what the other gives.
func C22_pages() {
	t := c22tables()[sym.Choose("table", 3)]
	compact := formats()
	r1, _ := c22nulls(t, "a", 0)
	if sym.Choose("first", 2) == 1 {
		for i, c := range t.Cols {
			if !c.notNull() {
				r1[i] = Val{Null: true}
			}
		}
	}
	r2, _ := c22row(t, "b")
	dict := dictFile(t)
	a, b := dataPage(3, compact, t, [][]Val{r1}), dataPage(4, compact, t, [][]Val{r2})
	var outs [3]string
	for i, f := range [][]byte{a, b, cat(a, b)} {
		out, err := readTable(dict, f, t.DB, t.Name, false)
		sym.Assert(err == nil, "reading the table failed")
		outs[i] = out
	}
	sym.Observe("out", outs[2])
	sym.Assert(outs[0]+outs[1] == outs[2], "other statements of a page behind another")
	// two rows of one page
	out, err := readTable(dict, dataPage(3, compact, t, [][]Val{r1, r2}), t.DB, t.Name, false)
	sym.Assert(err == nil, "reading the table failed")
	sym.Assert(out == outs[2], "other statements of rows in the same page")
}

// A request that failed leaves nothing behind.
func C22_failed() {
	ts := c22tables()
	a, b := ts[0], ts[1]
	p := ibdata.NewParse()
	c22dict(p, ts...)
	row, chk := c22nulls(a, "a", []uint{0, 2, 14}[sym.Choose("nulls", 3)])
	compact := formats()
	page := dataPage(3, compact, a, [][]Val{row})
	f := sym.File(page)
	var out string
	switch sym.Choose("failure", 4) {
	case 0:
		out = sym.Stdout(func() { _ = p.ParseDataPage(f, "db", "none", false) })
		sym.Assert(out == "", "statements of a table that is not there")
	case 1:
		out = sym.Stdout(func() { _ = p.ParseDataPage(sym.MissingFile(), a.DB, a.Name, false) })
		sym.Assert(out == "", "statements of a file that is not there")
	case 2:
		// the data of another table, with arbitrary bytes where the records are
		row, _ := c22nulls(b, "b", 0)
		bad := dataPage(3, compact, b, [][]Val{row})
		at := []int{3, 4, 5, 7, 8}[sym.Choose("at", 5)]
		bad[126+at] = sym.U8("bad")
		_ = sym.Stdout(func() { _ = p.ParseDataPage(sym.File(bad), b.DB, b.Name, false) })
	case 3:
		out = sym.Stdout(func() { _ = p.ParseDataPage(sym.File(page[:8000]), a.DB, a.Name, false) })
		sym.Assert(out == "", "statements of an incomplete page")
	}
	c22rows(a, c22data(p, f, a, false), chk)
}

// Two parsers of different dictionaries, in which the same table has other
// columns, do not disturb each other.
func C22_parsers() {
	a := idTable(varcharLatin(20), tinyint(false))
	b := &Table{ID: a.ID, DB: a.DB, Name: a.Name, Space: a.Space, PK: []int{1}}
	b.Cols = []Col{integer(false).as("c1"), smallint(true).NN().as("c2"), charUtf8(12).as("id")}
	p, q := ibdata.NewParse(), ibdata.NewParse()
	compact := formats()
	r1, c1 := c22row(a, "a")
	r2, c2 := c22row(b, "b")
	f1, f2 := sym.File(dataPage(3, compact, a, [][]Val{r1})), sym.File(dataPage(3, compact, b, [][]Val{r2}))
	c22dict(p, a)
	if sym.Choose("order", 2) == 1 {
		c22rows(a, c22data(p, f1, a, false), c1)
	}
	c22dict(q, b)
	c22rows(a, c22data(p, f1, a, false), c1)
	c22rows(b, c22data(q, f2, b, false), c2)
	c22rows(a, c22data(p, f1, a, false), c1)
}

// A log read again with the same parser gives the same statements.
func C22_logs() {
	ts := c22tables()[:2]
	p := redo.NewParse("", "")
	sym.Assert(p.ParseDictPage(sym.File(dictFile(ts...))) == nil, "reading the dictionary failed")
	u, x := mkUpdate(ts[0], []int{1, 2}, uint(sym.Choose("null", 4)), "u")
	v, y := mkUpdate(ts[1], []int{0}, uint(sym.Choose("null", 2)), "v")
	l1, l2 := sym.File(logFile(u.rec())), sym.File(logFile(v.rec()))
	both := sym.File(logFile(cat(u.rec(), v.rec())))
	read := func(files ...string) string {
		var err error
		out := sym.Stdout(func() { err = p.ParseRedoLogs(files) })
		sym.Assert(err == nil, "reading the log failed")
		return out
	}
	checkAll(updates(read(l1)), x)
	checkAll(updates(read(l2)), y)
	checkAll(updates(read(l1)), x)
	checkAll(updates(read(both)), x, y)
	checkAll(updates(read(l2, l1)), y, x)
	out := read(l1, l2)
	sym.Observe("out", out)
	checkAll(updates(out), x, y)
}

// A log whose end is damaged or missing leaves nothing behind for the next one.
func C22_logsDamaged() {
	t := idTable(varcharLatin(20), tinyint(false))
	p := redo.NewParse(t.Name, t.DB)
	sym.Assert(p.ParseDictPage(sym.File(dictFile(t))) == nil, "reading the dictionary failed")
	u, x := mkUpdate(t, []int{1, 2}, 0, "u")
	v, y := mkUpdate(t, []int{1, 2}, uint(sym.Choose("null", 4)), "v")
	r := update(t, []Val{val(0, 0, 0, 9)}, updField{physPos(t, 1), str("old")}, updField{physPos(t, 2), val(0x85)}).rec()
	read := func(path string) string {
		return sym.Stdout(func() { _ = p.ParseRedoLogs([]string{path}) })
	}
	switch sym.Choose("damage", 3) {
	case 0:
		_ = read(sym.File(logFile(r[:1+sym.Choose("cut", len(r)-1)])))
	case 1:
		bad := cat(r)
		n := len(bad)
		if !sym.Thorough() {
			n = 8
		}
		bad[sym.Choose("at", n)*(len(bad)/n)] = sym.U8("bad")
		_ = read(sym.File(logFile(bad)))
	case 2:
		_ = read(sym.MissingFile())
	}
	checkAll(updates(read(sym.File(logFile(u.rec())))), x)
	checkAll(updates(read(sym.File(logFile(v.rec())))), y)
}

// Each update gives the same statement whatever update is in front of it.
func C22_updates() {
	ts := c22tables()
	// the third has no key, so there are no updates of it
	a, b := ts[sym.Choose("first", 2)], ts[sym.Choose("second", 2)]
	dict := dictFile(ts...)
	ca, cb := []int{1, 2}, []int{1, 2, 3}
	if a == ts[1] {
		ca = []int{0}
	}
	if b == ts[1] {
		cb = []int{0}
	}
	u, _ := mkUpdate(a, ca, uint(sym.Choose("null", 1<<uint(len(ca)))), "u")
	v, _ := mkUpdate(b, cb, uint(sym.Choose("null", 1<<uint(len(cb)))), "v")
	var outs [3]string
	for i, s := range [][]byte{u.rec(), v.rec(), cat(u.rec(), v.rec())} {
		out, err := readLogs(dict, "", "", sym.File(logFile(s)))
		sym.Assert(err == nil, "reading the log failed")
		outs[i] = out
	}
	sym.Observe("out", outs[2])
	sym.Assert(outs[0] != "" && outs[1] != "", "an update without a statement")
	sym.Assert(outs[0]+outs[1] == outs[2], "another statement of an update behind another")
}

// Whole runs give the same whatever order maps are iterated in.
func C22_mapOrder() {
	ts := c22tables()[:2]
	t := ts[sym.Choose("table", 2)]
	row, chk := c22nulls(t, "a", 0)
	cols := []int{1, 2}
	if t == ts[1] {
		cols = []int{0}
	}
	u, x := mkUpdate(t, cols, 0, "u")
	dict := sym.File(dictFile(ts...))
	data, log := sym.File(dataPage(3, true, t, [][]Val{row})), sym.File(logFile(u.rec()))
	var out string
	sym.MapOrder(true)
	if sym.Choose("redo", 2) == 0 {
		p := ibdata.NewParse()
		out = sym.Stdout(func() {
			if p.ParseDictPage(dict) == nil {
				_ = p.ParseDataPage(data, t.DB, t.Name, false)
			}
		})
		sym.MapOrder(false)
		c22rows(t, out, chk)
	} else {
		p := redo.NewParse(t.Name, t.DB)
		out = sym.Stdout(func() {
			if p.ParseDictPage(dict) == nil {
				_ = p.ParseRedoLogs([]string{log})
			}
		})
		sym.MapOrder(false)
		checkAll(updates(out), x)
	}
	sym.Observe("out", out)
}

// Files that have changed since they were read: what counts is what is in them
// now, for the same parser and for another one.
func C22_changedFiles() {
	t := idTable(varcharLatin(20), tinyint(false))
	b := &Table{ID: t.ID, DB: t.DB, Name: t.Name, Space: t.Space, PK: []int{1}}
	b.Cols = []Col{integer(false).as("c1"), smallint(true).NN().as("c2"), charUtf8(12).as("id")}
	r1, c1 := c22nulls(t, "a", 0)
	r2, c2 := c22row(t, "b")
	p := ibdata.NewParse()
	switch sym.Choose("changed", 3) {
	case 0:
		// the data
		c22dict(p, t)
		f := sym.File(dataPage(3, true, t, [][]Val{r1}))
		c22rows(t, c22data(p, f, t, false), c1)
		sym.Rewrite(f, dataPage(3, true, t, [][]Val{r2}))
		if sym.Choose("another parser", 2) == 1 {
			p = ibdata.NewParse()
			c22dict(p, t)
		}
		c22rows(t, c22data(p, f, t, false), c2)
	case 1:
		// the dictionary
		d := sym.File(dictFile(b))
		sym.Assert(p.ParseDictPage(d) == nil, "reading the dictionary failed")
		sym.Rewrite(d, dictFile(t))
		p = ibdata.NewParse()
		sym.Assert(p.ParseDictPage(d) == nil, "reading the dictionary failed")
		c22rows(t, c22data(p, sym.File(dataPage(3, true, t, [][]Val{r2})), t, false), c2)
	case 2:
		// the log
		u, x := mkUpdate(t, []int{1, 2}, 0, "u")
		v, y := mkUpdate(t, []int{1, 2}, uint(sym.Choose("null", 4)), "v")
		d, l := sym.File(dictFile(t)), sym.File(logFile(u.rec()))
		q := redo.NewParse(t.Name, t.DB)
		sym.Assert(q.ParseDictPage(d) == nil, "reading the dictionary failed")
		checkAll(updates(sym.Stdout(func() { _ = q.ParseRedoLogs([]string{l}) })), x)
		sym.Rewrite(l, logFile(v.rec()))
		if sym.Choose("another parser", 2) == 1 {
			q = redo.NewParse(t.Name, t.DB)
			sym.Assert(q.ParseDictPage(d) == nil, "reading the dictionary failed")
		}
		checkAll(updates(sym.Stdout(func() { _ = q.ParseRedoLogs([]string{l}) })), y)
	}
}
