package h

import (
	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/logs"
	"github.com/zbdba/db-recovery/recovery/redo"
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

var c19levels = []string{"fatal", "error", "warn", "info", "debug", "trace"}

// c19name gives the number of a level name in any case, 3 for other names.
func c19number(name string) int {
	for i, l := range c19levels {
		if len(l) != len(name) {
			continue
		}
		same := true
		for k := 0; k < len(l); k++ {
			c := name[k]
			if c >= 'A' && c <= 'Z' {
				c += 32
			}
			if c != l[k] {
				same = false
				break
			}
		}
		if same {
			return i
		}
	}
	return 3
}

var c19calls = []struct {
	level int
	sev   string
	call  func()
}{
	{5, "Info", func() { logs.Trace("a", 1) }},
	{4, "Info", func() { logs.Debug("a", 1) }},
	{4, "Info", func() { logs.Debugf("%d", 1) }},
	{3, "Info", func() { logs.Info("a", 1) }},
	{3, "Info", func() { logs.Infof("%d", 1) }},
	{2, "Warning", func() { logs.Warn("a", 1) }},
	{2, "Warning", func() { logs.Warnf("%d", 1) }},
	{1, "Error", func() { logs.Error("a", 1) }},
	{1, "Error", func() { logs.Errorf("%d", 1) }},
}

func c19gates(name string) {
	sym.Assert(logs.InitLogs(sym.LogDir(), name) == nil, "InitLogs failed")
	n := c19number(name)
	for _, c := range c19calls {
		var before [3]int
		sevs := []string{"Info", "Warning", "Error"}
		for i, s := range sevs {
			before[i] = sym.LogLines(s)
		}
		c.call()
		for i, s := range sevs {
			want := before[i]
			if s == c.sev && c.level <= n {
				want++
			}
			sym.Assert(sym.LogLines(s) == want, "a message of level "+c19levels[c.level]+" at level "+c19levels[n])
		}
	}
}

// Each level name, in any case.
func C19_names() {
	l := []byte(c19levels[sym.Choose("level", 6)])
	for i := range l {
		if sym.Bool("upper") {
			l[i] -= 32
		}
	}
	c19gates(string(l))
}

// Any bytes as a level name.
func C19_any() {
	n := sym.Choose("length", 7)
	b := sym.Bytes("name", n)
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	c19gates(string(b))
}

// A level name with one other byte, or one more.
func C19_near() {
	l := []byte(c19levels[sym.Choose("level", 6)])
	i := sym.Choose("at", len(l)+1)
	c := byte(sym.Range("byte", 0, 127))
	if i < len(l) {
		l[i] = c
	} else {
		l = append(l, c)
	}
	c19gates(string(l))
}

// The level can be changed again.
func C19_again() {
	a := c19levels[sym.Choose("first", 6)]
	sym.Assert(logs.InitLogs(sym.LogDir(), a) == nil, "InitLogs failed")
	logs.Debug("x")
	c19gates(c19levels[sym.Choose("second", 6)])
}

// c19same runs f at two levels.
func c19same(f func() (string, error)) {
	sym.Assert(logs.InitLogs(sym.LogDir(), "fatal") == nil, "InitLogs failed")
	out, err := f()
	sym.Assert(logs.InitLogs(sym.LogDir(), c19levels[1+sym.Choose("level", 5)]) == nil, "InitLogs failed")
	out2, err2 := f()
	sym.Assert(out == out2, "the statements depend on the log level")
	sym.Assert((err == nil) == (err2 == nil), "the error depends on the log level")
	if err != nil && err2 != nil {
		sym.Assert(err.Error() == err2.Error(), "the error text depends on the log level")
	}
	sym.Observe("out", out)
}

// Recovery from intact and damaged data files at two levels.
func C19_data() {
	t, compact := c16table(), formats()
	p, os := c16page(2, compact, t, [][]Val{c16row(t, 1), c16row(t, 2)}, [][]Val{c16row(t, 3), c16row(t, 4)})
	what := sym.Choose("what", 6)
	dict := dictFile(t)
	table := t.Name
	switch what {
	case 1:
		p[os[0]] = sym.U8("key")
		p[os[2]] = sym.U8("key")
	case 2:
		chain(p, compact, os[0], os[sym.Choose("next", 4)])
	case 3:
		p[os[0]-7] = byte(sym.Pin(int(sym.U8("extra") & 0x9f)))
	case 4:
		table = "unknown"
	case 5:
		put(p, 38+26, 2, uint64(sym.U16("level")))
	}
	f := cat(make([]byte, pageSize), p, c16good(1, compact, t, 10), p[:100])
	deleted := sym.Choose("deleted", 2) == 1
	c19same(func() (string, error) { return readTable(dict, f, t.DB, table, deleted) })
}

// Dictionaries, intact and damaged.
func C19_dict() {
	t, _ := c10tables()
	f := dictFile(t)
	switch sym.Choose("what", 4) {
	case 1:
		f = f[:sym.Choose("pages", 5)*pageSize]
	case 2:
		f = f[sym.Choose("from", 5)*pageSize:]
	case 3:
		put(f, pageSize*(1+sym.Choose("page", 4))+38+28, 8, uint64(sym.U8("index")))
	}
	c19same(func() (string, error) {
		p := ibdata.NewParse()
		err := p.ParseDictPage(sym.File(f))
		return "", err
	})
}

// Redo logs, intact and damaged.
func C19_log() {
	t := c12table()
	s := c18updates(t)
	f := logFile(s)
	db, table := t.DB, t.Name
	switch sym.Choose("what", 5) {
	case 1:
		f = f[:2048+sym.Choose("cut", 30)*20]
	case 2:
		f[2048+12+sym.Choose("at", 30)] = byte(sym.Pin(int(sym.U8("x") & 0xc7)))
	case 3:
		table = "unknown"
	case 4:
		db, table = "", ""
	}
	dict := dictFile(t)
	c19same(func() (string, error) {
		p := redo.NewParse(table, db)
		if err := p.ParseDictPage(sym.File(dict)); err != nil {
			return "", err
		}
		var err error
		out := sym.Stdout(func() { err = p.ParseRedoLogs([]string{sym.File(f)}) })
		return out, err
	})
}

// Each type of redo record is read the same way.
func C19_records() {
	t := c12table()
	typ := 1 + sym.Choose("type", 61)
	s := cat(c17fixed(t, 1), rec(typ, sym.Bytes("body", 1)), c17fixed(t, 2))
	f := logFile(s)
	dict := dictFile(t)
	c19same(func() (string, error) { return readLogs(dict, t.DB, t.Name, sym.File(f)) })
}

// What goes to standard output is statements only, at every level.
func C19_output() {
	t, compact := c18table(), formats()
	sym.Assert(logs.InitLogs(sym.LogDir(), c19levels[sym.Choose("level", 6)]) == nil, "InitLogs failed")
	deleted := sym.Choose("deleted", 2) == 1
	out, err := readTable(dictFile(t), c18file(t, compact), t.DB, t.Name, deleted)
	c18rows(t, out, deleted, err, 2)
	u := c12table()
	c18log(u, sym.File(logFile(c18updates(u))))
}

// However a recovery ends, all that was logged is in the files of LogPath then.
func C19_savedCLI() {
	t := c12table()
	dict := sym.File(dictFile(t))
	data := sym.File(dataPage(3, true, t, [][]Val{{val(0, 0, 0, 7), val(0, 0, 0, sym.U8("v")), str("x")}}))
	u, _ := mkUpdate(t, []int{1}, 0, "a")
	good := logFile(u.rec())
	log := sym.File(good)
	db, table := t.DB, t.Name
	redo := sym.Choose("redo", 2) == 1
	switch sym.Choose("what", 7) {
	case 0: // nothing is wrong
	case 1:
		dict = sym.MissingFile()
	case 2:
		dict = sym.File(dictFile(t)[:2*pageSize])
	case 3:
		data, log = sym.MissingFile(), sym.MissingFile()
	case 4:
		db = "other"
	case 5:
		log += "," + sym.MissingFile()
		data = sym.File(make([]byte, 100))
	case 6:
		// the end of the log cuts the record, or the header
		log = sym.File(good[:[]int{2048 + 30, 1000, 100, 0}[sym.Choose("cut", 4)]])
		table = "other"[:sym.Choose("other", 2)*5]
		sym.Assume(redo)
	}
	cmd, file := "FromDataFile", "--TableDataFile="+data
	if redo {
		cmd, file = "FromRedoFile", "--RedoFile="+log
	}
	args := []string{"recovery", cmd, "--SysDataFile=" + dict, file, "--DBName=" + db, "--TableName=" + table, "--LogPath=" + sym.LogDir()}
	if k := sym.Choose("level", len(c19levels)+1); k < len(c19levels) {
		args = append(args, "--LogLevel="+c19levels[k])
	}
	cli(args...)
	n := sym.LogLines("Info") + sym.LogLines("Warning") + sym.LogLines("Error")
	sym.Assert(sym.LogSaved(sym.LogDir()) == n, "messages are missing in the log files when the program ends")
}
