package h

import (
	"github.com/zbdba/db-recovery/recovery/logs"
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// cli runs the command line program and gives what it printed and its exit status.
func cli(args ...string) (string, int) {
	var code int
	out := sym.Stdout(func() { code = sym.CLI(args...) })
	return out, code
}

// opt is an option in one of its two forms.
func opt(name, value string) []string {
	if sym.Choose("form", 2) == 0 {
		return []string{"--" + name + "=" + value}
	}
	return []string{"--" + name, value}
}

// c21op is a symbolic OpType.
func c21op() string {
	names := []string{"RecoveryData", "RecoveryStruct", "PrintData", "", "recoverydata", "RecoveryData "}
	k := sym.Choose("op", len(names)+2)
	if k < len(names) {
		return names[k]
	}
	if k == len(names) {
		// one byte of the word is another
		b := []byte("RecoveryData")
		b[sym.Choose("at", len(b))] = byte(sym.Range("byte", 0, 127))
		return string(b)
	}
	b := sym.Bytes("op", 4)
	for _, x := range b {
		sym.Assume(x < 0x80)
	}
	return string(b)
}

// OpType RecoveryData asks for the deleted rows, every other for the rows.
func C21_opCLI() {
	t, compact := c06table(), formats()
	p, l, d := c07page(t, 3, compact)
	op := c21op()
	args := []string{"recovery", "FromDataFile", "--SysDataFile=" + sym.File(dictFile(t)), "--TableDataFile=" + sym.File(p),
		"--DBName=" + t.DB, "--TableName=" + t.Name, "--LogPath=" + sym.LogDir()}
	if sym.Choose("given", 2) == 0 {
		args = append(args, "--OpType="+op)
	} else {
		op = ""
	}
	out, code := cli(args...)
	want := l
	if op == "RecoveryData" {
		want = d
	}
	c21one(t, out, code, want)
}

func c21one(t *Table, out string, code int, want chained) {
	sym.Assert(code == 0, "exit status")
	sym.Observe("out", out)
	rows := rowsOf(t, out)
	sym.Assert(len(rows) == 1, "one row is stored, but not one statement came out")
	wantHex(rows[0][0], want.key.B, "key")
	wantHex(rows[0][1], want.data, "data")
}

// Options in any order, in both forms, the global ones before, between or behind
// the words of the command.
func C21_orderCLI() {
	t := c06table()
	p, l, d := c07page(t, 3, true)
	opts := [][2]string{{"SysDataFile", sym.File(dictFile(t))}, {"TableDataFile", sym.File(p)}, {"DBName", t.DB}, {"TableName", t.Name}}
	n := sym.Choose("rotation", 4)
	opts = append(append([][2]string{}, opts[n:]...), opts[:n]...)
	if sym.Choose("reversed", 2) == 1 {
		for i := 0; i < 2; i++ {
			opts[i], opts[3-i] = opts[3-i], opts[i]
		}
	}
	sep := sym.Choose("form", 2) == 1
	add := func(args []string, name, value string) []string {
		if sep {
			return append(args, "--"+name, value)
		}
		return append(args, "--"+name+"="+value)
	}
	op := []string{"RecoveryData", "PrintData"}[sym.Choose("op", 2)]
	at := sym.Choose("global at", 4)
	var args []string
	global := func(k int) {
		if at == k {
			args = add(args, "OpType", op)
			args = add(args, "LogPath", sym.LogDir())
			args = add(args, "LogLevel", "info")
		}
	}
	global(0)
	args = append(args, "recovery")
	global(1)
	args = append(args, "FromDataFile")
	global(2)
	for _, o := range opts {
		args = add(args, o[0], o[1])
	}
	global(3)
	out, code := cli(args...)
	want := l
	if op == "RecoveryData" {
		want = d
	}
	c21one(t, out, code, want)
}

// An option that is required is missing: an error, and nothing is recovered.
func C21_missingCLI() {
	t := c06table()
	p, _, _ := c07page(t, 3, true)
	dict, file := sym.File(dictFile(t)), sym.File(p)
	redo := sym.Choose("redo", 2) == 1
	opts := [][2]string{{"SysDataFile", dict}, {"TableDataFile", file}, {"DBName", t.DB}, {"TableName", t.Name}}
	if redo {
		u, _ := mkUpdate(c12table(), []int{1}, 0, "a")
		opts = [][2]string{{"SysDataFile", sym.File(dictFile(c12table()))}, {"RedoFile", sym.File(logFile(u.rec()))}}
	}
	args := []string{"recovery", "FromDataFile", "--LogPath=" + sym.LogDir()}
	if redo {
		args[1] = "FromRedoFile"
	}
	all := true
	for _, o := range opts {
		if sym.Bool("given") {
			args = append(args, "--"+o[0]+"="+o[1])
		} else {
			all = false
		}
	}
	sym.Assume(!all)
	out, code := cli(args...)
	sym.Assert(code != 0, "a required option is missing, but the exit status is 0")
	c21none(out)
}

// c21none: no statement.
func c21none(out string) {
	for i := 0; i+7 < len(out); i++ {
		w := out[i : i+8]
		sym.Assert(!c21word(w, "replace ") && !c21word(w, "update `"), "a statement for a request that cannot be satisfied")
	}
}

// c21word: w is the word in lower or upper case letters.
func c21word(w, word string) bool {
	for i := range w {
		if w[i] != word[i] && !(word[i] >= 'a' && word[i] <= 'z' && w[i] == word[i]-32) {
			return false
		}
	}
	return true
}

// A file that is missing, a dictionary that is none, or a table that is unknown:
// this is said on standard output, and nothing is recovered.
func C21_failCLI() {
	t := c12table()
	dict := sym.File(dictFile(t))
	data := sym.File(dataPage(3, true, t, [][]Val{{val(0, 0, 0, 7), val(0, 0, 0, 1), str("x")}}))
	u, _ := mkUpdate(t, []int{1}, 0, "a")
	log := sym.File(logFile(u.rec()))
	db, table := t.DB, t.Name
	what := sym.Choose("what", 6)
	switch what {
	case 0:
		dict = sym.MissingFile()
	case 1:
		dict = sym.File(dictFile(t)[:2*pageSize])
	case 2:
		data, log = sym.MissingFile(), sym.MissingFile()
	case 3:
		db = "other"
	case 4:
		table = "other"
	case 5:
		log += "," + sym.MissingFile()
	}
	var out string
	if sym.Choose("redo", 2) == 1 {
		out, _ = cli("recovery", "FromRedoFile", "--SysDataFile="+dict, "--RedoFile="+log, "--DBName="+db, "--TableName="+table, "--LogPath="+sym.LogDir())
	} else {
		sym.Assume(what != 5)
		out, _ = cli("recovery", "FromDataFile", "--SysDataFile="+dict, "--TableDataFile="+data, "--DBName="+db, "--TableName="+table, "--LogPath="+sym.LogDir())
	}
	sym.Assert(len(out) > 0, "nothing is said about a request that cannot be satisfied")
	if what != 5 {
		c21none(out)
	}
}

// Redo files are read in the order they are given, as one stream; the names of the
// database and the table are filters that may be left out.
func C21_redoCLI() {
	ts := c15tables()[:3]
	var recs [][]byte
	var upd []*Table
	var keys []byte
	for i := 0; i < 3; i++ {
		t := ts[i]
		k := sym.U8("key")
		recs = append(recs, update(t, []Val{val(0, 0, byte(i), k)}, updField{physPos(t, 1), val(k)}).rec())
		upd, keys = append(upd, t), append(keys, k)
	}
	// the second record is cut in two by the end of a file
	n := len(recs[1])
	cut := []int{0, 1, n / 2, n - 1, n}[sym.Choose("cut", 5)]
	f1 := cat(logHeader(0), block(1, cat(recs[0], recs[1][:cut])), make([]byte, 512))
	f2 := cat(logHeader(1), block(2, cat(recs[1][cut:], recs[2])), make([]byte, 512))
	// whatever their names are
	names := [][2]string{{"ib_logfile0", "ib_logfile1"}, {"ib_logfile1", "ib_logfile0"}, {"a", "a"}, {"9", "10"}}[sym.Choose("names", 4)]
	var p1, p2 string
	if sym.Choose("created", 2) == 0 {
		p1 = sym.NamedFile(names[0], f1)
		p2 = sym.NamedFile(names[1], f2)
	} else {
		p2 = sym.NamedFile(names[1], f2)
		p1 = sym.NamedFile(names[0], f1)
	}
	args := []string{"recovery", "FromRedoFile", "--SysDataFile=" + sym.File(dictFile(ts...)), "--LogPath=" + sym.LogDir(),
		"--RedoFile=" + p1 + "," + p2}
	var db, table string
	if k := sym.Choose("db", 3); k > 0 {
		db = []string{"db", "db2"}[k-1]
		args = append(args, "--DBName="+db)
	}
	if k := sym.Choose("table", 3); k > 0 {
		table = []string{"t", "tt"}[k-1]
		args = append(args, "--TableName="+table)
	}
	sym.Assume(db != "db2" || table != "tt")
	out, code := cli(args...)
	sym.Assert(code == 0, "exit status")
	sym.Observe("out", out)
	sts := updates(out)
	j := 0
	for i, t := range upd {
		if !c15match(t, db, table) {
			continue
		}
		sym.Assert(j < len(sts), "an update of a requested table is missing")
		sym.Assert(sts[j].DB == t.DB && sts[j].Table == t.Name, "statement for another table")
		wantUint(named(sts[j].Where, "id", 1, "WHERE"), uint64(i)<<8|uint64(keys[i]), "key")
		wantUint(named(sts[j].Set, "v", 1, "SET"), uint64(keys[i]), "value")
		j++
	}
	sym.Assert(j == len(sts), "an update of a table that was not requested")
}

// The log level that is asked for is in effect.
func C21_levelCLI() {
	t := c06table()
	p, l, _ := c07page(t, 3, true)
	args := []string{"recovery", "FromDataFile", "--SysDataFile=" + sym.File(dictFile(t)), "--TableDataFile=" + sym.File(p),
		"--DBName=" + t.DB, "--TableName=" + t.Name, "--LogPath=" + sym.LogDir()}
	k := sym.Choose("level", len(c19levels)+1)
	n := 4 // DEBUG is the default
	if k < len(c19levels) {
		args = append(args, opt("LogLevel", c19levels[k])...)
		n = k
	}
	out, code := cli(args...)
	c21one(t, out, code, l)
	for _, c := range c19calls {
		before := sym.LogLines(c.sev)
		c.call()
		want := before
		if c.level <= n {
			want++
		}
		sym.Assert(sym.LogLines(c.sev) == want, "a message of level "+c19levels[c.level]+" at level "+c19levels[n])
	}
	logs.FlushLogs()
}

// Files of unusual names.
func C21_pathCLI() {
	names := []string{"a b", " a", "a ", "'a'", "a'b", "\"a\"", "a;b", "a=b", "=a", "-a", "--a", "a:b", "~", "$HOME", "%s", "a\\b", "a#", "\xc3\xa9", "\xff", "A", "a\n", "\ta", "*", "[a]", "{a}", "a|b", "a&b", ".a", "a.", "...", "@a"}
	name := names[sym.Choose("name", len(names))]
	n2 := "f"
	if sym.Choose("second", 2) == 1 {
		name, n2 = n2, name
	}
	if sym.Choose("redo", 2) == 1 {
		t := c12table()
		u, p := mkUpdate(t, []int{1}, 0, "a")
		u2, p2 := mkUpdate(t, []int{1}, 0, "b")
		f1 := sym.NamedFile(name, cat(logHeader(0), block(1, u.rec()), make([]byte, 512)))
		f2 := sym.NamedFile(n2, cat(logHeader(1), block(2, u2.rec()), make([]byte, 512)))
		args := []string{"recovery", "FromRedoFile", "--SysDataFile", sym.File(dictFile(t)), "--LogPath=" + sym.LogDir()}
		out, code := cli(append(args, opt("RedoFile", f1+","+f2)...)...)
		sym.Assert(code == 0, "exit status")
		sym.Observe("out", out)
		checkAll(updates(out), p, p2)
		return
	}
	t := c06table()
	p, l, _ := c07page(t, 3, true)
	args := []string{"recovery", "FromDataFile", "--LogPath=" + sym.LogDir(), "--DBName=" + t.DB, "--TableName=" + t.Name}
	args = append(args, opt("SysDataFile", sym.NamedFile(name, dictFile(t)))...)
	args = append(args, opt("TableDataFile", sym.NamedFile(n2, p))...)
	out, code := cli(args...)
	c21one(t, out, code, l)
}

// Names of databases and tables are taken as they are given.
func C21_nameCLI() {
	db, table := "db", "t"
	name := string(sym.Bytes("name", 1+sym.Choose("len", 2)))
	for i := 0; i < len(name); i++ {
		sym.Assume(name[i] != 0 && name[i] != '/')
	}
	switch sym.Choose("in", 3) {
	case 1:
		name = "a" + name
	case 2:
		name += "a"
	}
	if sym.Choose("which", 2) == 0 {
		db = name
	} else {
		table = name
	}
	redo := sym.Choose("redo", 2) == 1
	args := []string{"recovery", "FromDataFile", "--LogPath=" + sym.LogDir()}
	args = append(args, opt("DBName", db)...)
	args = append(args, opt("TableName", table)...)
	if redo {
		t := c12table()
		t.DB, t.Name = db, table
		u, p := mkUpdate(t, []int{1}, 0, "a")
		args[1] = "FromRedoFile"
		out, code := cli(append(args, "--SysDataFile="+sym.File(dictFile(t)), "--RedoFile="+sym.File(logFile(u.rec())))...)
		sym.Assert(code == 0, "exit status")
		checkAll(updates(out), p)
		return
	}
	t := c06table()
	t.DB, t.Name = db, table
	p, l, _ := c07page(t, 3, true)
	out, code := cli(append(args, "--SysDataFile="+sym.File(dictFile(t)), "--TableDataFile="+sym.File(p))...)
	c21one(t, out, code, l)
}
