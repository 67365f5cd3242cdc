package h

import (
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// c15tables: same table name in two databases, names that overlap, a table of the
// name of a database.
func c15tables() []*Table {
	names := [][2]string{{"db", "t"}, {"db", "tt"}, {"db2", "t"}, {"d", "t"}, {"t", "db"}, {"db", "T"}, {"DB", "t"}}
	var ts []*Table
	for i, n := range names {
		t := &Table{ID: 41 + i, DB: n[0], Name: n[1], PK: []int{0}, Space: 23 + i}
		t.Cols = []Col{integer(true).NN().as("id"), tinyint(true).as("v")}
		ts = append(ts, t)
	}
	return ts
}

func c15match(t *Table, db, tab string) bool {
	return (db == "" || t.DB == db) && (tab == "" || t.Name == tab)
}

// c15check: updates of these tables; exactly those of the requested ones come out.
func c15check(dict []byte, upd []*Table, db, tab string) {
	var recs []byte
	var want []*Table
	var keys []byte
	for i, t := range upd {
		k := sym.U8("key")
		recs = append(recs, update(t, []Val{val(0, 0, byte(i), k)}, updField{physPos(t, 1), val(k)}).rec()...)
		if c15match(t, db, tab) {
			want = append(want, t)
			keys = append(keys, byte(i), k)
		}
	}
	out, err := readLogs(dict, db, tab, sym.File(logFile(recs)))
	sym.Assert(err == nil, "reading the log failed")
	sym.Observe("out", out)
	sts := updates(out)
	sym.Assert(len(sts) == len(want), "statements for exactly the requested tables")
	for i, t := range want {
		sym.Assert(sts[i].DB == t.DB && sts[i].Table == t.Name, "statement for another table")
		wantUint(named(sts[i].Where, "id", 1, "WHERE"), uint64(keys[2*i])<<8|uint64(keys[2*i+1]), "key")
		wantUint(named(sts[i].Set, "v", 1, "SET"), uint64(keys[2*i+1]), "value")
	}
}

// Every request that names a table, a database, both or none; updates of all
// tables in any rotation.
func C15_requests() {
	ts := c15tables()
	var db, tab string
	if k := sym.Choose("db", 6); k > 0 {
		db = []string{"db", "db2", "d", "t", "DB"}[k-1]
	}
	if k := sym.Choose("table", 5); k > 0 {
		tab = []string{"t", "tt", "db", "T"}[k-1]
	}
	any := false
	for _, t := range ts {
		any = any || c15match(t, db, tab)
	}
	sym.Assume(any)
	n := sym.Choose("rotation", len(ts))
	c15check(dictFile(ts...), append(append([]*Table{}, ts[n:]...), ts[:n]...), db, tab)
}

// Any name is requested that matches something.
func C15_names() {
	ts := c15tables()
	db, tab := "db", "t"
	switch sym.Choose("which", 4) {
	case 0:
		db = c20name("db")
	case 1:
		tab = c20name("table")
	case 2:
		db, tab = "", c20name("table")
	case 3:
		db, tab = c20name("db"), ""
	}
	any := false
	for _, t := range ts {
		any = any || c15match(t, db, tab)
	}
	sym.Assume(any)
	c15check(dictFile(ts...), ts, db, tab)
}

// Any sequence of updates of three tables.
func C15_sequence() {
	ts := c15tables()[:3]
	n := 4
	if sym.Thorough() {
		n = 6
	}
	var upd []*Table
	for i := 0; i < n; i++ {
		upd = append(upd, ts[sym.Choose("of", 3)])
	}
	req := [][2]string{{"db", "t"}, {"", "t"}, {"db", ""}, {"db2", "t"}, {"", ""}}[sym.Choose("request", 5)]
	c15check(dictFile(ts...), upd, req[0], req[1])
}

// Tables whose names are arbitrary.
func C15_tableNames() {
	ts := c15tables()[:2]
	ch := func(tag string) string {
		b := sym.Bytes(tag, 1+sym.Choose(tag+"len", 2))
		for _, x := range b {
			sym.Assume(x != 0 && x != '/')
		}
		return string(b)
	}
	ts[0].DB, ts[0].Name = ch("db"), ch("t")
	ts[1].DB, ts[1].Name = "db", "t"
	sym.Assume(ts[0].DB != "db" || ts[0].Name != "t")
	req := [][2]string{{"db", "t"}, {"", "t"}, {"db", ""}}[sym.Choose("request", 3)]
	c15check(dictFile(ts...), ts, req[0], req[1])
}

// Names of many characters which differ in one place only.
func C15_longNames() {
	ts := c15tables()[:2]
	long := func(tag string) string {
		b := make([]byte, []int{20, 64, 192}[sym.Choose(tag+"len", 3)])
		for i := range b {
			b[i] = 'a' + byte(i%26)
		}
		return string(b)
	}
	other := func(tag, s string) string {
		b := []byte(s)
		i := len(b) - 1
		if sym.Choose(tag+"at", 2) == 1 {
			i = len(b) / 2
		}
		c := sym.U8(tag + "letter")
		sym.Assume(c != 0 && c != '/')
		b[i] = c
		if sym.Choose(tag+"shorter", 2) == 1 {
			return string(b[:i])
		}
		return string(b)
	}
	ts[0].DB, ts[0].Name = "db", "t"
	ts[1].DB, ts[1].Name = "db", "t"
	req := [2]string{}
	if sym.Choose("which", 2) == 0 {
		ts[0].DB = long("db")
		ts[1].DB = other("db", ts[0].DB)
		sym.Assume(ts[0].DB != ts[1].DB)
		req[0] = ts[0].DB
	} else {
		ts[0].Name = long("table")
		ts[1].Name = other("table", ts[0].Name)
		sym.Assume(ts[0].Name != ts[1].Name)
		req[1] = ts[0].Name
	}
	if sym.Choose("both", 2) == 1 {
		req = [2]string{ts[0].DB, ts[0].Name}
	}
	c15check(dictFile(ts...), ts, req[0], req[1])
}

// A database and a table whose names, put together, are those of another database
// and another table put together, whatever stands between them.
func C15_joinedNames() {
	ts := c15tables()[:2]
	n := 1 + sym.Choose("len", 2)
	if sym.Choose("none", 2) == 1 {
		n = 0
	}
	sep := string(sym.Bytes("between", n))
	for i := 0; i < n; i++ {
		sym.Assume(sep[i] != 0 && sep[i] != '/')
	}
	ts[0].DB, ts[0].Name = "a"+sep+"b", "c"
	ts[1].DB, ts[1].Name = "a", "b"+sep+"c"
	if sym.Choose("order", 2) == 1 {
		ts[0], ts[1] = ts[1], ts[0]
	}
	req := [][2]string{{ts[0].DB, ts[0].Name}, {"", ts[0].Name}, {ts[0].DB, ""}}[sym.Choose("request", 3)]
	c15check(dictFile(ts...), ts, req[0], req[1])
}

// Requested names of up to sixteen arbitrary bytes.
func C15_anyName() {
	ts := c15tables()[:2]
	req := [2]string{"db", "t"}
	ts[0].DB, ts[0].Name = "db", "t"
	ts[1].DB, ts[1].Name = "db2", "t2"
	name := anyName("name")
	for i := 0; i < len(name); i++ {
		sym.Assume(name[i] != '`')
	}
	switch sym.Choose("which", 4) {
	case 0:
		ts[0].Name, req[1] = name, name
	case 1:
		ts[0].DB, req[0] = name, name
	case 2:
		ts[0].Name, req[0], req[1] = name, "", name
	case 3:
		// another table, which was not requested
		sym.Assume(name != "t")
		ts[1].DB, ts[1].Name = "db", name
	}
	c15check(dictFile(ts...), ts, req[0], req[1])
}
