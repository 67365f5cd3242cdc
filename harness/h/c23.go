package h

import (
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// c23name is a name of arbitrary bytes other than NUL: alone, and in other text.
func c23name(tag string) string {
	n := 1 + sym.Choose(tag+"len", 2)
	if sym.Thorough() {
		n = 1 + sym.Choose(tag+"len", 3)
	}
	b := sym.Bytes(tag, n)
	for _, c := range b {
		sym.Assume(c != 0)
	}
	switch sym.Choose(tag+"in", 3) {
	case 1:
		return "a" + string(b) + "z"
	case 2:
		return "x" + string(b)
	}
	return string(b)
}

// A slash separates the database from the table in the dictionary.
func c23noSlash(name string) string {
	for i := 0; i < len(name); i++ {
		sym.Assume(name[i] != '/')
	}
	return name
}

func c23table(db, table, key, col string) *Table {
	t := &Table{ID: 41, DB: db, Name: table, Space: 23, PK: []int{0}}
	t.Cols = []Col{integer(true).NN().as(key), varcharLatin(20).as(col), tinyint(true).as("other")}
	sym.Assume(key != col && key != "other" && col != "other")
	return t
}

// The names of the database and the table in a REPLACE statement.
func C23_replaceDB()    { c23replace(c23noSlash(c23name("db")), "t") }
func C23_replaceTable() { c23replace("db", c23noSlash(c23name("table"))) }

func c23replace(db, table string) {
	t := c23table(db, table, "id", "c")
	compact := formats()
	v, f := sample(t.Cols[1], "v")
	rows := tableRows(t, compact, [][]Val{{val(0, 0, 0, 7), v, val(5)}})
	sym.Assert(len(rows) == 1, "one row stored, but not one statement printed")
	wantUint(rows[0][0], 7, "key")
	f(rows[0][1], "value")
	wantUint(rows[0][2], 5, "value")
}

// Names of columns do not disturb the recovery of rows.
func C23_replaceColumn() {
	t := c23table("db", "t", "id", "c")
	name := c23name("col")
	k := sym.Choose("column", 2)
	t.Cols[k] = t.Cols[k].as(name)
	sym.Assume(t.Cols[0].Name != t.Cols[1].Name && name != "other")
	v, f := sample(t.Cols[1], "v")
	rows := tableRows(t, formats(), [][]Val{{val(0, 0, 0, 7), v, val(5)}})
	sym.Assert(len(rows) == 1, "one row stored, but not one statement printed")
	wantUint(rows[0][0], 7, "key")
	f(rows[0][1], "value")
}

// The same for an UPDATE statement, which names the columns as well.
func C23_updateDB()     { c23update(c23table(c23noSlash(c23name("db")), "t", "id", "c")) }
func C23_updateTable()  { c23update(c23table("db", c23noSlash(c23name("table")), "id", "c")) }
func C23_updateColumn() { c23update(c23table("db", "t", "id", c23name("col"))) }
func C23_updateKey()    { c23update(c23table("db", "t", c23name("key"), "c")) }

func c23update(t *Table) {
	u, p := mkUpdate(t, []int{1, 2}, uint(sym.Choose("null", 4)), "u")
	checkAll(readStream(t, u.rec()), p)
}

// Names that look like something else in SQL.
func C23_words() {
	ws := []string{
		"select", "null", "`", "``", "a`b", "`a", "a`", "'", "a'b", "\"", "a b", " a", "a.b", "a,b", "a=1", "a;", "--", "/*", "#",
		"\\", "a\\", "\n", "a\nb", "%s", "%d%%", "x'41'", "0", "1e5", "\xc3\xa9", "\xe4\xb8\xad", "`,`", "`='x' where 1=1;#", "where", "and",
	}
	w := ws[sym.Choose("word", len(ws))]
	t := c23table("db", "t", "id", "c")
	switch sym.Choose("place", 4) {
	case 0:
		t.Cols[0] = t.Cols[0].as(w)
	case 1:
		t.Cols[1] = t.Cols[1].as(w)
	case 2:
		sym.Assume(w != "/*")
		t.Name = w
	case 3:
		sym.Assume(w != "/*")
		t.DB = w
	}
	if sym.Choose("replace", 2) == 1 {
		v, f := sample(t.Cols[1], "v")
		rows := tableRows(t, formats(), [][]Val{{val(0, 0, 0, 7), v, val(5)}})
		sym.Assert(len(rows) == 1, "one row stored, but not one statement printed")
		f(rows[0][1], "value")
		return
	}
	c23update(t)
}

// c23near is a name near w: w itself in other text, a part of it, or with
// another letter.
func c23near(w string) string {
	switch sym.Choose("near", 5) {
	case 0:
		return w + string(sym.Bytes("behind", 1+sym.Choose("n", 2)))
	case 1:
		return string(sym.Bytes("before", 1+sym.Choose("n", 2))) + w
	case 2:
		return w[:1+sym.Choose("part", len(w)-1)]
	case 3:
		return w[1+sym.Choose("part", len(w)-1):]
	}
	b := []byte(w)
	i := sym.Choose("at", len(b))
	c := sym.U8("letter")
	sym.Assume(c != 0 && c != b[i] && c != b[i]|0x20)
	b[i] = c
	return string(b)
}

// c23both reads a row and an update of the table.
func c23both(t *Table) {
	if sym.Choose("update", 2) == 1 {
		u, p := mkUpdate(t, []int{2}, 0, "u")
		checkAll(readStream(t, u.rec()), p)
		return
	}
	rows := tableRows(t, formats(), [][]Val{{val(0, 0, 0, 7), str("v"), val(5)}})
	sym.Assert(len(rows) == 1, "one row stored, but not one statement printed")
	wantUint(rows[0][0], 7, "first column")
	wantText(rows[0][1], []byte("v"), "second column")
	wantUint(rows[0][2], 5, "third column")
}

// Names of columns near the names of the hidden columns.
func C23_nearHidden() {
	t := c23table("db", "t", "id", "c")
	name := c23near([]string{"DB_ROW_ID", "DB_TRX_ID", "DB_ROLL_PTR"}[sym.Choose("hidden", 3)])
	for i := range name {
		sym.Assume(name[i] != 0)
	}
	// MySQL reserves the names themselves
	sym.Assume(name != "DB_ROW_ID" && name != "DB_TRX_ID" && name != "DB_ROLL_PTR")
	t.Cols[2*sym.Choose("column", 2)].Name = name
	c23both(t)
}

// Columns whose names are near one another, in the order of the key or not.
func C23_nearOther() {
	w := []string{"ab", "id", "Name"}[sym.Choose("word", 3)]
	t := c23table("db", "t", "id", "c")
	name := c23near(w)
	for i := range name {
		sym.Assume(name[i] != 0)
	}
	names := []string{w, name, "zz"}
	p := [][]int{{0, 1, 2}, {1, 0, 2}, {2, 0, 1}, {0, 2, 1}, {1, 2, 0}, {2, 1, 0}}[sym.Choose("places", 6)]
	for i := range t.Cols {
		t.Cols[i].Name = names[p[i]]
	}
	sym.Assume(name != w && name != "zz")
	t.PK = [][]int{{0}, {1}, {0, 1}, {1, 0}}[sym.Choose("key", 4)]
	for _, k := range t.PK {
		t.Cols[k] = t.Cols[k].NN()
	}
	c23both(t)
}

// Indexes with any names: only PRIMARY itself is the primary key.
func C23_index() {
	t := c23table("db", "t", "id", "c")
	name := c23near([]string{"PRIMARY", "GEN_CLUST_INDEX"}[sym.Choose("index", 2)])
	for i := range name {
		sym.Assume(name[i] != 0)
	}
	sym.Assume(name[len(name)-1] != ' ' && name != "PRIMARY" && name != "GEN_CLUST_INDEX")
	switch sym.Choose("kind", 3) {
	case 0: // an index of a table with a key
		t.Sec = []Index{{ID: 900, Name: name, Type: 2 * sym.Choose("unique", 2), Cols: []int{2}}}
	case 1: // a unique index instead of the key
		t.UniqueName = name
	case 2: // an index beside it
		t.UniqueName = "u"
		t.Sec = []Index{{ID: 900, Name: name, Type: 2 * sym.Choose("unique", 2), Cols: []int{1}}}
	}
	c23both(t)
}

// Names of up to sixteen arbitrary bytes (backticks in them: the other harnesses).
func C23_longer() {
	name := anyName("name")
	for i := 0; i < len(name); i++ {
		sym.Assume(name[i] != '`')
	}
	t := c23table("db", "t", "id", "c")
	k := sym.Choose("place", 4)
	switch k {
	case 0, 1:
		sym.Assume(name != "id" && name != "c" && name != "other")
		t.Cols[k] = t.Cols[k].as(name)
	case 2:
		t.Name = name
	case 3:
		t.DB = name
	}
	if sym.Choose("replace", 2) == 0 {
		c23update(t)
		return
	}
	rows := tableRows(t, true, [][]Val{{val(0, 0, 0, 7), val('v'), val(5)}})
	sym.Assert(len(rows) == 1, "one row stored, but not one statement printed")
	wantUint(rows[0][0], 7, "key")
	wantUint(rows[0][2], 5, "value")
}
