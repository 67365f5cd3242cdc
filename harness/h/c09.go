package h

import (
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// c09key chooses an ordered key of n of the columns.
func c09key(t *Table, n int) {
	left := make([]int, len(t.Cols))
	for i := range left {
		left[i] = i
	}
	t.PK = nil
	for i := 0; i < n; i++ {
		k := sym.Choose("key", len(left))
		c := left[k]
		t.PK = append(t.PK, c)
		t.Cols[c] = t.Cols[c].NN()
		left = append(append([]int{}, left[:k]...), left[k+1:]...)
	}
}

// c09check stores one row of arbitrary values and wants them in declared order.
func c09check(t *Table, compact bool, nulls uint) {
	var row []Val
	var chk []func(Lit, string)
	for i, c := range t.Cols {
		if nulls>>uint(i)&1 == 1 && !c.notNull() {
			row = append(row, Val{Null: true})
			chk = append(chk, wantNull)
			continue
		}
		v, f := sample(c, "v"+c.Name)
		row = append(row, v)
		chk = append(chk, f)
	}
	got := oneRow(t, compact, row)
	for i := range t.Cols {
		chk[i](got[i], "value of column "+t.Cols[i].Name)
	}
}

func c09table(cols ...Col) *Table {
	t := &Table{ID: 41, DB: "db", Name: "t", Space: 23}
	for i, c := range cols {
		t.Cols = append(t.Cols, c.as(string(rune('a'+i))))
	}
	return t
}

// Every key of up to four columns in every order, of four columns.
func C09_keys() {
	t := c09table(integer(true), integer(true), integer(true), integer(true))
	c09key(t, sym.Choose("n", 5))
	if t.PK != nil && sym.Choose("clustered", 2) == 1 {
		t.UniqueName = "uk"
	}
	if sym.Thorough() {
		c09check(t, formats(), uint(sym.Choose("nulls", 16)))
	} else {
		c09check(t, formats(), 0)
	}
}

// Columns of variable length, with secondary indexes over the other columns.
func C09_mixed() {
	t := c09table(varcharLatin(20), smallint(false), varbinaryCol(300), bitCol(9), charLatin(4))
	c09key(t, sym.Choose("n", 4))
	if t.PK != nil && sym.Choose("clustered", 2) == 1 {
		t.UniqueName = "uk"
	}
	t.Sec = []Index{{ID: 900, Name: "s1", Type: 0, Cols: []int{4, 0}}, {ID: 901, Name: "s2", Type: 2, Cols: []int{2}}}
	c09check(t, sym.Choose("format", 2) == 0, 0)
}

// Many columns: positions of two digits.
func C09_many() {
	var cols []Col
	for i := 0; i < 14; i++ {
		cols = append(cols, []Col{integer(true), varcharLatin(20), tinyint(true)}[i%3])
	}
	t := c09table(cols...)
	c09key(t, sym.Choose("n", 3))
	c09check(t, formats(), uint(sym.Choose("nulls", 2))*0x2222)
}

// A column that only looks like a hidden one, and similar names.
func C09_names() {
	names := [][]string{
		{"DB_TRX_IDX", "a", "db_row_id2", "b"},
		{"id", "ID2", "i", "idd"},
		{"a", "ab", "abc", "b"},
		{"values", "x y", "a`b", "NULL"},
	}[sym.Choose("names", 4)]
	t := c09table(integer(true), varcharLatin(20), integer(true), varcharLatin(20))
	for i := range names {
		t.Cols[i].Name = names[i]
	}
	c09key(t, sym.Choose("n", 3))
	c09check(t, true, 0)
}

// Two rows of two tables with different keys in one dictionary.
func C09_tables() {
	t := c09table(integer(true), integer(true), integer(true))
	c09key(t, sym.Choose("n", 4))
	u := c09table(integer(true), integer(true), integer(true))
	u.ID, u.Name, u.Space = 42, "u", 24
	c09key(u, sym.Choose("n2", 3))
	for _, x := range []*Table{t, u} {
		var row []Val
		var chk []func(Lit, string)
		for _, c := range x.Cols {
			v, f := sample(c, "v"+x.Name+c.Name)
			row = append(row, v)
			chk = append(chk, f)
		}
		out, err := readTable(dictFile(t, u), dataPage(3, true, x, [][]Val{row, row}), x.DB, x.Name, false)
		sym.Assert(err == nil, "reading the table failed")
		got := rowsOf(x, out)
		sym.Assert(len(got) == 2, "one statement per row")
		for r := range got {
			for i := range x.Cols {
				chk[i](got[r][i], "value of column "+x.Cols[i].Name)
			}
		}
	}
}
