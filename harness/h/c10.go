package h

import (
	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// rowsOfDict gives the rows of the four dictionary tables.
func rowsOfDict(tables ...*Table) [4][][]Val {
	var r [4][][]Val
	for _, t := range tables {
		r[0] = append(r[0], tableRow(t))
		for i := range t.Cols {
			r[1] = append(r[1], columnRow(t, i))
		}
		for _, x := range t.indexes() {
			r[2] = append(r[2], indexRow(t, x))
			for i := range x.Cols {
				r[3] = append(r[3], fieldRow(t, x, i))
			}
		}
	}
	return r
}

var fixDict = [4][]int{fixTables, fixColumns, fixIndexes, fixFields}
var rootDict = [4]int{8, 10, 11, 12}

// nodePage is a level-1 root: records with the key fields and a child page.
func nodePage(k int, rows [][]Val, children []int) []byte {
	nkey := []int{1, 2, 2, 2}[k]
	var recs [][]Val
	for i, c := range children {
		key := rows[i%len(rows)][:nkey]
		recs = append(recs, append(append([]Val{}, key...), u4(c)))
	}
	p := recsPage(rootDict[k], k+1, recs, append(append([]int{}, fixDict[k][:nkey]...), 4))
	put(p, 38+26, 2, 1)
	return p
}

func parseDict(f []byte) map[uint64]ibdata.Tables {
	p := ibdata.NewParse()
	err := p.ParseDictPage(sym.File(f))
	sym.Assert(err == nil, "reading the dictionary failed")
	return p.TableMap
}

func hidden(name string) bool {
	return name == "DB_ROW_ID" || name == "DB_TRX_ID" || name == "DB_ROLL_PTR"
}

// wantTable checks one table of the result. ids are given apart because they may
// be arbitrary.
func wantTable(m map[uint64]ibdata.Tables, t *Table) {
	g, ok := m[uint64(t.ID)]
	if !ok {
		sym.Fail("table " + t.Name + " is missing")
	}
	sym.Assert(g.DBName == t.DB, "database name")
	sym.Assert(g.TableName == t.Name, "table name")
	sym.Assert(g.SpaceId == uint64(t.Space), "space")
	var cols []ibdata.Columns
	var phys []int
	for _, c := range g.Columns {
		switch c.FieldName {
		case "DB_ROW_ID":
			phys = append(phys, -1)
		case "DB_TRX_ID":
			phys = append(phys, -2)
		case "DB_ROLL_PTR":
			phys = append(phys, -3)
		default:
			k := -99
			for i := range t.Cols {
				if t.Cols[i].Name == c.FieldName {
					k = i
				}
			}
			phys = append(phys, k)
			cols = append(cols, c)
		}
	}
	sym.Assert(len(cols) == len(t.Cols), "number of columns")
	nulls := 0
	for i, w := range t.Cols {
		n := 0
		for _, c := range cols {
			if c.FieldName != w.Name {
				continue
			}
			n++
			sym.Assert(c.FieldType == uint64(w.MType), "type of a column")
			sym.Assert(c.MySQLType == uint64(w.PType&0xff), "server type of a column")
			if c.FieldType == mBinary {
				sym.Assert(c.MaxLen == uint64(w.Len), "length of a column")
			} else {
				sym.Assert(c.FieldLen == uint64(w.Len), "length of a column")
			}
			sym.Assert(c.IsNUll == !w.notNull(), "nullability of a column")
			sym.Assert(c.IsUnsigned == (w.PType&fUnsigned != 0), "signedness of a column")
			sym.Assert(c.FieldPos == uint64(i), "position of a column")
		}
		sym.Assert(n == 1, "a column is not there once")
		if !w.notNull() {
			nulls++
		}
	}
	sym.Assert(g.NullCount == nulls, "number of nullable columns")
	wp := t.phys()
	sym.Assert(len(phys) == len(wp), "number of fields")
	for i := range wp {
		sym.Assert(phys[i] == wp[i], "order of the fields")
	}
	sym.Assert(len(g.Indexes) == len(t.indexes()), "number of indexes")
	for _, x := range t.indexes() {
		gx, ok := g.Indexes[uint64(x.ID)]
		sym.Assert(ok, "index "+x.Name+" is missing")
		sym.Assert(gx.Id == uint64(x.ID), "index id")
		sym.Assert(gx.Name == x.Name, "index name")
		sym.Assert(gx.IndexType == uint64(x.Type), "index type")
		sym.Assert(gx.FieldNum == uint64(len(x.Cols)), "number of index fields")
		sym.Assert(len(gx.Fields) == len(x.Cols), "index fields")
		for i, c := range x.Cols {
			sym.Assert(gx.Fields[i].ColumnName == t.Cols[c].Name, "index field name")
			sym.Assert(gx.Fields[i].ColumnPos == uint64(i), "index field position")
		}
	}
}

func c10tables() (*Table, *Table) {
	t := &Table{ID: 41, DB: "db", Name: "t", Space: 23, PK: []int{2, 0}}
	t.Cols = []Col{integer(true).NN().as("a"), varcharLatin(20).as("b"), smallint(false).NN().as("c")}
	t.Sec = []Index{{ID: 900, Name: "s", Type: 2, Cols: []int{1, 0}}}
	u := &Table{ID: 42, DB: "db2", Name: "u", Space: 24}
	u.Cols = []Col{blobCol().as("x"), bigint(true).NN().as("y")}
	return t, u
}

// Every attribute of a column is arbitrary.
func C10_columns() {
	t, _ := c10tables()
	i := sym.Choose("column", 3)
	c := t.Cols[i]
	c.MType = int(sym.Range("mtype", 1, 14))
	c.PType = int(sym.U32("prtype"))
	c.Len = int(sym.U32("len"))
	if i != 1 {
		c.PType |= fNotNull
	}
	t.Cols[i] = c
	wantTable(parseDict(dictFile(t)), t)
}

// Ids and spaces are arbitrary.
func C10_ids() {
	t, u := c10tables()
	t.ID, u.ID = int(sym.U64("table")), int(sym.U64("table2"))
	t.Space, u.Space = int(sym.U32("space")), int(sym.U32("space2"))
	sym.Assume(t.ID != u.ID)
	r := rowsOfDict(t, u)
	// the ids of the indexes are arbitrary as well
	id := []uint64{sym.U64("index"), sym.U64("index2"), sym.U64("index3")}
	sym.Assume(id[0] != id[1] && id[0] != id[2] && id[1] != id[2])
	for i := range r[2] {
		r[2][i][1] = Val{B: be(8, id[i])}
	}
	for i := range r[3] {
		r[3][i][0] = Val{B: be(8, id[i/2])}
	}
	m := parseDict(dictOf(r))
	sym.Assert(len(m) == 2, "number of tables")
	for k, x := range []*Table{t, u} {
		g, ok := m[uint64(x.ID)]
		sym.Assert(ok, "table is missing")
		sym.Assert(g.DBName == x.DB && g.TableName == x.Name, "name")
		sym.Assert(g.SpaceId == uint64(x.Space), "space")
		n := 0
		for _, c := range g.Columns {
			if !hidden(c.FieldName) {
				n++
				sym.Assert(c.TableID == uint64(x.ID), "table of a column")
			}
		}
		sym.Assert(n == len(x.Cols), "number of columns")
		for j := 0; j < 2-k; j++ {
			gx, ok := g.Indexes[id[2*k+j]]
			sym.Assert(ok, "index is missing")
			sym.Assert(gx.Id == id[2*k+j], "index id")
			sym.Assert(gx.Name == x.indexes()[j].Name, "index name")
			sym.Assert(len(gx.Fields) == len(x.indexes()[j].Cols), "index fields")
		}
	}
}

// dictOf puts all rows on the root pages.
func dictOf(r [4][][]Val) []byte {
	f := dictHeaderPage()
	for k := range r {
		f = append(f, recsPage(rootDict[k], k+1, r[k], fixDict[k])...)
	}
	return f
}

// Other fields of the dictionary rows do not matter, nor do those of the pages.
func C10_otherFields() {
	t, u := c10tables()
	r := rowsOfDict(t, u)
	for k := range r {
		for i := range r[k] {
			row := r[k][i]
			at := []int{1, 2, 2, 2}[k] // DB_TRX_ID
			row[at] = Val{B: sym.Bytes("trx", 6)}
			row[at+1] = Val{B: sym.Bytes("roll", 7)}
			switch k {
			case 0:
				row[4] = Val{B: sym.Bytes("ncols", 4)}
				row[5] = Val{B: sym.Bytes("type", 4)}
				if sym.Choose("mixid", 2) == 1 {
					row[6] = Val{B: sym.Bytes("mixid", 8)}
				}
				row[7] = Val{B: sym.Bytes("mixlen", 4)}
			case 1:
				row[8] = Val{B: sym.Bytes("prec", 4)}
			case 2:
				row[8] = Val{B: sym.Bytes("pageno", 4)}
				if i == 0 {
					row[7] = Val{B: sym.Bytes("space", 4)}
				}
			}
		}
	}
	f := dictOf(r)
	copy(f[38:], sym.Bytes("hdr", 28))
	for k := 1; k <= 4; k++ {
		p := f[k*pageSize:]
		put(p, 0, 4, uint64(sym.U32("sum")))
		copy(p[8:], sym.Bytes("links", 16))
		put(p, 26, 8, sym.U64("flush"))
		copy(p[38+6:], sym.Bytes("free", 10))
		put(p, 38+18, 8, sym.U64("maxtrx"))
	}
	m := parseDict(f)
	wantTable(m, t)
	wantTable(m, u)
}

// Names of every length, of arbitrary bytes.
func C10_names() {
	ns := []int{1, 2, 30, 64, 100, 180}
	name := func(tag string, n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = 'n'
		}
		b[0] = sym.U8(tag + "first")
		b[n-1] = sym.U8(tag + "last")
		sym.Assume(b[0] != '/' && b[n-1] != '/')
		return string(b)
	}
	t, u := c10tables()
	switch sym.Choose("which", 3) {
	case 0:
		t.DB = name("db", ns[sym.Choose("len", len(ns))])
		t.Name = name("t", ns[sym.Choose("len", len(ns))])
	case 1:
		t.Cols[1].Name = "c" + name("col", ns[sym.Choose("len", len(ns))])
	case 2:
		t.Sec[0].Name = "i" + name("index", ns[sym.Choose("len", len(ns))])
	}
	m := parseDict(dictFile(t, u))
	wantTable(m, t)
	wantTable(m, u)
}

// A table of the engine, without a database.
func C10_system() {
	t, u := c10tables()
	s := &Table{ID: 11, DB: "", Name: "SYS_FOREIGN", Space: 0, PK: []int{0}}
	s.Cols = []Col{varcharLatin(0).NN().as("ID"), varcharLatin(0).as("FOR_NAME"), integer(true).as("N_COLS")}
	r := rowsOfDict(t, s, u)
	r[0][1][0] = str("SYS_FOREIGN")
	m := parseDict(dictOf(r))
	sym.Assert(len(m) == 3, "number of tables")
	for _, x := range []*Table{t, s, u} {
		wantTable(m, x)
	}
}

// Rows in any physical and logical order on the root pages.
func C10_entries() {
	t, u := c10tables()
	r := rowsOfDict(t, u)
	for k := range r {
		switch sym.Choose("order", 4) {
		case 1:
			r[k] = reversed(r[k])
		case 2:
			r[k] = append(append([][]Val{}, r[k][1:]...), r[k][0])
		case 3:
			n := len(r[k])
			r[k] = append([][]Val{r[k][n-1]}, r[k][:n-1]...)
		}
	}
	f := dictHeaderPage()
	back := sym.Choose("back", 2) == 1
	for k := range r {
		f = append(f, placed(rootDict[k], k+1, r[k], fixDict[k], back)...)
	}
	m := parseDict(f)
	sym.Assert(len(m) == 2, "number of tables")
	wantTable(m, t)
	wantTable(m, u)
}

// placed stores the records from the end of the page towards its start if back.
func placed(no, index int, rows [][]Val, fix []int, back bool) []byte {
	if !back {
		return recsPage(no, index, rows, fix)
	}
	p := newPage(no, index, false)
	prev := infimum(false)
	at := 12000
	for i, r := range rows {
		o, _ := putRedundant(p, at, r, fix, 2+i, 0)
		chain(p, false, prev, o)
		prev = o
		at -= 300
	}
	chain(p, false, prev, supremum(false))
	put(p, 38+4, 2, uint64(2+len(rows)))
	put(p, 38+16, 2, uint64(len(rows)))
	return p
}

func reversed(r [][]Val) [][]Val {
	var out [][]Val
	for i := len(r) - 1; i >= 0; i-- {
		out = append(out, r[i])
	}
	return out
}

// A dictionary of two leaf pages for each table below a root that has only node
// pointers. The pages lie in any order behind the first ones.
func C10_pages() {
	t, u := c10tables()
	r := rowsOfDict(t, u)
	f := dictHeaderPage()
	var leaves [][]byte
	var roots []byte
	for k := range r {
		no := 300 + 10*k
		cut := 1 + sym.Choose("cut", len(r[k])-1)
		if k == 1 || !sym.Thorough() {
			cut = 1 + k%2
		}
		a, b := r[k][:cut], r[k][cut:]
		if sym.Choose("swap", 2) == 1 {
			a, b = b, a
		}
		leaves = append(leaves, recsPage(no, k+1, a, fixDict[k]), recsPage(no+1, k+1, b, fixDict[k]))
		roots = append(roots, nodePage(k, r[k], []int{no, no + 1})...)
	}
	order := sym.Choose("order", 4)
	if order != 3 {
		f = append(f, roots...)
	}
	switch order {
	case 0, 3:
		for _, p := range leaves {
			f = append(f, p...)
		}
	case 1:
		for i := len(leaves) - 1; i >= 0; i-- {
			f = append(f, leaves[i]...)
		}
	case 2:
		for i := 0; i < 8; i += 2 {
			f = append(f, leaves[i]...)
		}
		for i := 1; i < 8; i += 2 {
			f = append(f, leaves[i]...)
		}
	}
	if order == 3 {
		f = append(f, roots...)
	}
	m := parseDict(f)
	sym.Assert(len(m) == 2, "number of tables")
	wantTable(m, t)
	wantTable(m, u)
}

// The root pages lie in any order, anywhere, also before the header page.
func C10_roots() {
	t, u := c10tables()
	r := rowsOfDict(t, u)
	h := dictHeaderPage()
	var ps [][]byte
	at := []int{70, 78, 82, 86}
	for k := range r {
		no := rootDict[k]
		if sym.Choose("number", 2) == 1 {
			no = 400 + k
			put(h, at[k], 4, uint64(no))
		}
		ps = append(ps, recsPage(no, k+1, r[k], fixDict[k]))
	}
	ps = append(ps, h)
	var f []byte
	for len(ps) > 0 {
		k := sym.Choose("page", len(ps))
		f = append(f, ps[k]...)
		ps = append(append([][]byte{}, ps[:k]...), ps[k+1:]...)
	}
	m := parseDict(f)
	sym.Assert(len(m) == 2, "number of tables")
	wantTable(m, t)
	wantTable(m, u)
}

// Pages of other kinds and of other indexes among the dictionary pages.
func C10_others() {
	t, u := c10tables()
	f := dictFile(t, u)
	p := make([]byte, pageSize)
	no := sym.U32("number")
	for _, n := range []uint32{7, 8, 10, 11, 12} {
		sym.Assume(no != n)
	}
	put(p, 4, 4, uint64(no))
	typ := sym.U16("type")
	put(p, 24, 2, uint64(typ))
	id := sym.U64("index")
	put(p, 66, 8, id)
	// an index page of another index, or another kind of page
	sym.Assume(typ != 17855 || id > 4 || id == 0)
	copy(p[38:], sym.Bytes("header", 28))
	copy(p[94:], sym.Bytes("records", 32))
	i := []int{0, 1, 3, 5}[sym.Choose("at", 4)] * pageSize
	f = append(append(append([]byte{}, f[:i]...), p...), f[i:]...)
	m := parseDict(f)
	sym.Assert(len(m) == 2, "number of tables")
	wantTable(m, t)
	wantTable(m, u)
}

// Maps are iterated in any order.
func C10_mapOrder() {
	t, u := c10tables()
	f := dictFile(t, u)
	sym.MapOrder(true)
	m := parseDict(f)
	sym.MapOrder(false)
	sym.Assert(len(m) == 2, "number of tables")
	wantTable(m, t)
	wantTable(m, u)
}

// Many columns and index fields.
func C10_many() {
	t := &Table{ID: 41, DB: "db", Name: "t", Space: 23}
	n := 40
	for i := 0; i < n; i++ {
		c := []Col{integer(true), varcharLatin(20), charLatin(4)}[i%3]
		t.Cols = append(t.Cols, c.as("col"+string(rune('a'+i/26))+string(rune('a'+i%26))))
	}
	for i := 0; i < 16; i++ {
		k := (i*7 + 3) % n
		t.PK = append(t.PK, k)
		t.Cols[k] = t.Cols[k].NN()
	}
	for i := 0; i < 8; i++ {
		t.Sec = append(t.Sec, Index{ID: 900 + i, Name: "s" + string(rune('a'+i)), Type: i % 2 * 2, Cols: []int{i, i + 9, (i * 5) % 7}})
	}
	_, u := c10tables()
	r := rowsOfDict(t, u)
	m := parseDict(dictOf(r))
	wantTable(m, t)
	wantTable(m, u)
}

// anyName is a name of arbitrary bytes, of a length from one to sixteen.
func anyName(tag string) string {
	b := sym.Bytes(tag, []int{1, 3, 5, 7, 10, 16}[sym.Choose(tag+"len", 6)])
	for _, c := range b {
		sym.Assume(c != 0 && c != '/')
	}
	return string(b)
}

// Names of which every byte is arbitrary.
func C10_anyName() {
	t, u := c10tables()
	switch sym.Choose("which", 5) {
	case 0:
		t.DB = anyName("db")
	case 1:
		t.Name = anyName("t")
	case 2:
		t.Cols[1].Name = anyName("col")
		sym.Assume(t.Cols[1].Name != "a" && t.Cols[1].Name != "c")
	case 3:
		t.Cols[2].Name = anyName("key")
		sym.Assume(t.Cols[2].Name != "a" && t.Cols[2].Name != "b")
	case 4:
		t.Sec[0].Name = anyName("index")
		// names of the clustered index are reserved
		sym.Assume(t.Sec[0].Name != "PRIMARY" && t.Sec[0].Name != "GEN_CLUST_INDEX")
	}
	m := parseDict(dictFile(t, u))
	wantTable(m, t)
	wantTable(m, u)
}
