package h

import (
	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/redo"
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// The exit status is 0 exactly if the recovery came to its end without an error.

func c26data(dict, data, db, table string, more ...string) (string, int) {
	return cli(append([]string{"recovery", "FromDataFile", "--SysDataFile=" + dict, "--TableDataFile=" + data, "--DBName=" + db, "--TableName=" + table, "--LogPath=" + sym.LogDir()}, more...)...)
}

func c26redo(dict, log, db, table string, more ...string) (string, int) {
	return cli(append([]string{"recovery", "FromRedoFile", "--SysDataFile=" + dict, "--RedoFile=" + log, "--DBName=" + db, "--TableName=" + table, "--LogPath=" + sym.LogDir()}, more...)...)
}

func c26options() []string {
	return []string{
		"--LogLevel=" + c19levels[sym.Choose("level", len(c19levels))],
		"--OpType=" + []string{"RecoveryData", "PrintData"}[sym.Choose("op", 2)],
	}
}

// A recovery that succeeds, whether or not there is anything to recover.
func C26_successCLI() {
	t := c12table()
	dict := sym.File(dictFile(t))
	if sym.Choose("redo", 2) == 1 {
		var s []byte
		n := sym.Choose("updates", 3)
		for i := 0; i < n; i++ {
			u, _ := mkUpdate(t, []int{1}, 0, string(rune('a'+i)))
			s = append(s, u.rec()...)
		}
		db, table := t.DB, t.Name
		if sym.Choose("all", 2) == 1 {
			db, table = "", ""
		}
		out, code := c26redo(dict, sym.File(logFile(s)), db, table, c26options()...)
		sym.Assert(code == 0, "a recovery that succeeded ends with another exit status than 0")
		sym.Assert(len(updates(out)) == n, "one statement for each update")
		return
	}
	var rows [][]Val
	n := sym.Choose("rows", 3)
	for i := 0; i < n; i++ {
		rows = append(rows, []Val{val(0, 0, byte(i), sym.U8("key")), val(0, 0, 0, sym.U8("v")), str("x")})
	}
	_, code := c26data(dict, sym.File(dataPage(3, true, t, rows)), t.DB, t.Name, c26options()...)
	sym.Assert(code == 0, "a recovery that succeeded ends with another exit status than 0")
}

// A request that cannot be satisfied.
func C26_failureCLI() {
	t := c12table()
	dict := sym.File(dictFile(t))
	data := sym.File(dataPage(3, true, t, [][]Val{{val(0, 0, 0, 7), val(0, 0, 0, 1), str("x")}}))
	u, _ := mkUpdate(t, []int{1}, 0, "a")
	log := sym.File(logFile(u.rec()))
	db, table := t.DB, t.Name
	isRedo := sym.Choose("redo", 2) == 1
	what := sym.Choose("what", 9)
	switch what {
	case 0:
		dict = sym.MissingFile()
	case 1:
		dict = sym.File(dictFile(t)[:2*pageSize])
	case 2:
		data, log = sym.MissingFile(), sym.MissingFile()
	case 3:
		db = c20name("db")
		sym.Assume(db != "" && db != t.DB)
	case 4:
		table = c20name("table")
		sym.Assume(table != "" && table != t.Name)
	case 5:
		log += "," + sym.MissingFile()
	case 6:
		log = sym.MissingFile() + "," + log
	case 7:
		dict = sym.File(nil)
	case 8:
		log = sym.File(logFile(u.rec())[:[]int{1, 511, 1000, 2000, 2047}[sym.Choose("length", 5)]])
	}
	sym.Assume(isRedo || what != 5 && what != 6 && what != 8)
	var code int
	if isRedo {
		_, code = c26redo(dict, log, db, table, c26options()...)
	} else {
		_, code = c26data(dict, data, db, table, c26options()...)
	}
	if what == 8 {
		// a log without any block: whatever the parser says
		p := redo.NewParse(table, db)
		sym.Assert(p.ParseDictPage(dict) == nil, "the dictionary was not read")
		var err error
		sym.Stdout(func() { err = p.ParseRedoLogs([]string{log}) })
		sym.Assert((code == 0) == (err == nil), "the exit status does not tell whether the recovery failed")
		return
	}
	sym.Assert(code != 0, "a recovery that failed ends with the exit status 0")
}

// A file that cannot be read from some place on.
func C26_FaultCLI() {
	t := c12table()
	dict := dictFile(t)
	data := dataPage(3, true, t, [][]Val{{val(0, 0, 0, 7), val(0, 0, 0, 1), str("x")}})
	log := logFile(c18updates(t))
	var code int
	switch sym.Choose("what", 4) {
	case 0:
		_, code = c26data(sym.File(dict), sym.FaultFile(data, c24at(data)), t.DB, t.Name)
	case 1:
		_, code = c26data(sym.FaultFile(dict, c24at(dict)), sym.File(data), t.DB, t.Name)
	case 2:
		_, code = c26redo(sym.FaultFile(dict, c24at(dict)), sym.File(log), t.DB, t.Name)
	case 3:
		_, code = c26redo(sym.File(dict), sym.FaultFile(log, c24before(log)), t.DB, t.Name)
	}
	sym.Assert(code != 0, "a recovery that failed ends with the exit status 0")
}

// Damage: the exit status says what the parser says.
func C26_damageCLI() {
	t := c12table()
	dict := dictFile(t)
	if sym.Choose("redo", 2) == 1 {
		s := c18updates(t)
		switch sym.Choose("damage", 3) {
		case 0:
			s = s[:len(s)-sym.Choose("cut", 40)]
		case 1:
			// the type of a record
			at := len(update(t, []Val{val(0, 0, 0, 1)}, updField{physPos(t, 1), val(0, 0, 1, 1)}, updField{physPos(t, 2), str("abc")}).rec())
			s[at] = sym.U8("type")
		case 2:
			s = append(s, sym.U8("a"), sym.U8("b"))
		}
		d, log := sym.File(dict), sym.File(logFile(s))
		p := redo.NewParse(t.Name, t.DB)
		sym.Assert(p.ParseDictPage(d) == nil, "the dictionary was not read")
		var err error
		want := sym.Stdout(func() { err = p.ParseRedoLogs([]string{log}) })
		out, code := c26redo(d, log, t.DB, t.Name)
		sym.Assert((code == 0) == (err == nil), "the exit status does not tell whether the recovery failed")
		sym.Assert(len(out) >= len(want) && out[:len(want)] == want, "other statements")
		return
	}
	f := dataPage(3, true, t, [][]Val{{val(0, 0, 0, 7), val(0, 0, 0, 1), str("x")}})
	if sym.Choose("of", 2) == 0 {
		at := []int{4, 24, 40, 42, 64, 97}[sym.Choose("at", 6)]
		f[at], f[at+1] = sym.U8("byte"), sym.U8("byte")
	} else {
		at := sym.Choose("page", len(dict)/pageSize)*pageSize + []int{4, 24, 42, 64, 97}[sym.Choose("at", 5)]
		dict[at], dict[at+1] = sym.U8("byte"), sym.U8("byte")
	}
	d, data := sym.File(dict), sym.File(f)
	p := ibdata.NewParse()
	err := p.ParseDictPage(d)
	if err == nil {
		sym.Stdout(func() { err = p.ParseDataPage(data, t.DB, t.Name, false) })
	}
	_, code := c26data(d, data, t.DB, t.Name)
	sym.Assert((code == 0) == (err == nil), "the exit status does not tell whether the recovery failed")
}
