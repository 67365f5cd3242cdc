package h

import (
	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// readTable runs the data-file reader and gives what it printed.
func readTable(dict []byte, file []byte, db, table string, deleted bool) (string, error) {
	return readTableFile(dict, sym.File(file), db, table, deleted)
}

func readTableFile(dict []byte, path string, db, table string, deleted bool) (string, error) {
	p := ibdata.NewParse()
	if err := p.ParseDictPage(sym.File(dict)); err != nil {
		sym.Fail("the dictionary was not read: " + err.Error())
	}
	var err error
	out := sym.Stdout(func() { err = p.ParseDataPage(path, db, table, deleted) })
	return out, err
}

// rowsOf parses the output into rows of literals in declared column order.
func rowsOf(t *Table, out string) [][]Lit {
	var res [][]Lit
	for _, st := range statements(out) {
		if !st.OK {
			sym.Fail("malformed statement: " + st.Err + " in " + out)
		}
		sym.Assert(st.Verb == "replace", "not a REPLACE statement")
		sym.Assert(st.DB == t.DB && st.Table == t.Name, "statement for another table: "+st.DB+"."+st.Table)
		res = append(res, inOrder(t, st))
	}
	return res
}

// inOrder gives the values of a REPLACE statement in declared column order.
func inOrder(t *Table, st Stmt) []Lit {
	if st.Cols == nil {
		if len(st.Vals) != len(t.Cols) {
			sym.Fail("wrong number of values")
		}
		return st.Vals
	}
	if len(st.Cols) != len(st.Vals) || len(st.Vals) != len(t.Cols) {
		sym.Fail("wrong number of values")
	}
	row := make([]Lit, len(t.Cols))
	for i, c := range t.Cols {
		n := 0
		for k, name := range st.Cols {
			if name == c.Name {
				row[i] = st.Vals[k]
				n++
			}
		}
		if n != 1 {
			sym.Fail("column " + c.Name + " is not named exactly once")
		}
	}
	return row
}

// oneRow runs the reader on a file with one row and gives its literals.
func oneRow(t *Table, compact bool, vals []Val) []Lit {
	rows := tableRows(t, compact, [][]Val{vals})
	sym.Assert(len(rows) == 1, "one row stored, but not one statement printed")
	return rows[0]
}

func tableRows(t *Table, compact bool, vals [][]Val) [][]Lit {
	out, err := readTable(dictFile(t), dataPage(3, compact, t, vals), t.DB, t.Name, false)
	sym.Assert(err == nil, "reading the table failed")
	sym.Observe("out", out)
	return rowsOf(t, out)
}

func idTable(cols ...Col) *Table {
	t := &Table{ID: 41, DB: "db", Name: "t", PK: []int{0}, Space: 23}
	t.Cols = append(t.Cols, integer(true).NN().as("id"))
	for i, c := range cols {
		if c.Name == "" {
			c.Name = "c" + string(rune('1'+i))
		}
		t.Cols = append(t.Cols, c)
	}
	return t
}

func formats() bool { return sym.Choose("format", 2) == 0 }

// text gives the characters of a quoted literal or a bare number.
func text(l Lit) string {
	if l.Kind != "str" && l.Kind != "num" {
		sym.Fail("a " + l.Kind + " literal where a text is expected")
	}
	return l.B
}

// wantUint: the literal denotes the number v.
func wantUint(l Lit, v uint64, what string) {
	if l.Kind == "bit" {
		n, ok := sym.ParseBin(l.B)
		sym.Assert(ok && n == v, what)
		return
	}
	n, ok := sym.ParseUint(text(l))
	sym.Assert(ok, what+": not a number")
	sym.Assert(n == v, what)
}

// wantBit: the literal gives a BIT column the value v. (A quoted text would be
// taken as its characters.)
func wantBit(l Lit, v uint64, what string) {
	switch l.Kind {
	case "bit":
		n, ok := sym.ParseBin(l.B)
		sym.Assert(ok && n == v, what)
	case "num":
		n, ok := sym.ParseUint(l.B)
		sym.Assert(ok && n == v, what)
	case "hex":
		sym.Assert(len(l.Raw) <= 8 && num(l.Raw) == v, what)
	default:
		sym.Fail(what + ": a " + l.Kind + " literal")
	}
}

// num reads big-endian bytes.
func num(b []byte) uint64 {
	var u uint64
	for _, x := range b {
		u = u<<8 | uint64(x)
	}
	return u
}

// wantInt: the literal denotes the signed number v.
func wantInt(l Lit, v int64, what string) {
	s := text(l)
	if len(s) > 0 && s[0] == '-' {
		n, ok := sym.ParseUint(s[1:])
		sym.Assert(ok, what+": not a number")
		sym.Assert(v <= 0 && n == uint64(-v), what)
		return
	}
	n, ok := sym.ParseUint(s)
	sym.Assert(ok, what+": not a number")
	sym.Assert(v >= 0 && n == uint64(v), what)
}

// wantText: the literal is a string with exactly these bytes.
func wantText(l Lit, b []byte, what string) {
	if l.Kind == "hex" {
		sym.Assert(string(l.Raw) == string(b), what)
		return
	}
	if l.Kind != "str" {
		sym.Fail(what + ": a " + l.Kind + " literal")
	}
	sym.Assert(l.B == string(b), what)
}

func wantNull(l Lit, what string) {
	sym.Assert(l.Kind == "null", what)
}
