package h

import (
	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// A read that fails is not the end of the file: the error is reported, and what is
// printed is the beginning of what the whole file gives.

// c24at is any place in the file.
func c24at(b []byte) int { return sym.Range("fault", 0, len(b)-1) }

// c24before is a place up to the block that says that the log ends.
func c24before(b []byte) int { return sym.Range("fault", 0, len(b)-512) }

// c24prefix: the rows of c18file, or fewer.
func c24prefix(t *Table, out string, deleted bool) {
	rows := rowsOf(t, out)
	sym.Assert(len(rows) <= 4, "more rows than there are")
	for i, r := range rows {
		n := uint64(10 + 10*(i/2) + i%2)
		if deleted {
			n += 2
		}
		wantUint(r[0], n, "key")
		wantHex(r[1], []byte("va"+string(rune('0'+n))), "value")
		wantUint(r[2], n, "value")
	}
}

// The data file cannot be read from some place on.
func C24_dataFault() {
	t, compact := c18table(), formats()
	deleted := sym.Choose("deleted", 2) == 1
	f := c18file(t, compact)
	out, err := readTableFile(dictFile(t), sym.FaultFile(f, c24at(f)), t.DB, t.Name, deleted)
	sym.Assert(err != nil, "a data file that cannot be read to its end is no error")
	c24prefix(t, out, deleted)
}

// The system tablespace cannot be read from some place on.
func C24_dictFault() {
	t := c18table()
	b := dictFile(t)
	err := ibdata.NewParse().ParseDictPage(sym.FaultFile(b, c24at(b)))
	sym.Assert(err != nil, "a system tablespace that cannot be read to its end is no error")
}

// c24log: the updates recovered are the first n or more.
func c24log(t *Table, out string, n int) {
	sts := updates(out)
	sym.Assert(len(sts) <= 3, "more statements than updates")
	sym.Assert(len(sts) >= n, "an update in front of the read error is lost")
	for i, s := range sts {
		n := uint64(i + 1)
		wantUint(named(s.Where, "id", 1, "WHERE"), n, "key")
		wantUint(named(s.Set, "c1", 2, "SET"), 256+n, "value")
		wantText(named(s.Set, "c2", 2, "SET"), []byte("abc"), "value")
	}
}

// A redo log cannot be read from some place on. The first update is in the first
// block, the others are in the second.
func C24_logFault() {
	t := c12table()
	f := logFile(c18updates(t))
	at := c24before(f)
	out, err := readLogs(dictFile(t), t.DB, t.Name, sym.FaultFile(f, at))
	sym.Assert(err != nil, "a log that cannot be read to its end is no error")
	n := 0
	if at >= 2048+512 {
		n = 1
	}
	if at >= 2048+1024 {
		n = 3
	}
	c24log(t, out, n)
}

// Of two logs, one cannot be read from some place on.
func C24_logsFault() {
	t := c12table()
	s := c18updates(t)
	n := 496
	if sym.Choose("cut", 2) == 1 {
		n = 470
	}
	a, b := cat(logHeader(0), block(1, s[:n])), cat(logHeader(1), block(2, s[n:]), make([]byte, 512))
	var out string
	var err error
	min := 0
	if sym.Choose("file", 2) == 0 {
		at := c24at(a)
		out, err = readLogs(dictFile(t), t.DB, t.Name, sym.FaultFile(a, at), sym.File(b))
		if at >= 2048+512 {
			min = 1
		}
	} else {
		at := c24before(b)
		min = 1
		out, err = readLogs(dictFile(t), t.DB, t.Name, sym.File(a), sym.FaultFile(b, at))
		if at >= 2048+512 {
			min = 3
		}
	}
	sym.Assert(err != nil, "a log that cannot be read to its end is no error")
	c24log(t, out, min)
}

// The program says that something went wrong.
func C24_FaultCLI() {
	t := c12table()
	dict := dictFile(t)
	data := dataPage(3, true, t, [][]Val{{val(0, 0, 0, 7), val(0, 0, 0, 1), str("x")}})
	log := logFile(c18updates(t))
	var out string
	switch sym.Choose("what", 4) {
	case 0:
		out, _ = cli("recovery", "FromDataFile", "--SysDataFile="+sym.File(dict), "--TableDataFile="+sym.FaultFile(data, c24at(data)), "--DBName="+t.DB, "--TableName="+t.Name, "--LogPath="+sym.LogDir())
	case 1:
		out, _ = cli("recovery", "FromDataFile", "--SysDataFile="+sym.FaultFile(dict, c24at(dict)), "--TableDataFile="+sym.File(data), "--DBName="+t.DB, "--TableName="+t.Name, "--LogPath="+sym.LogDir())
	case 2:
		out, _ = cli("recovery", "FromRedoFile", "--SysDataFile="+sym.FaultFile(dict, c24at(dict)), "--RedoFile="+sym.File(log), "--LogPath="+sym.LogDir())
	case 3:
		out, _ = cli("recovery", "FromRedoFile", "--SysDataFile="+sym.File(dict), "--RedoFile="+sym.FaultFile(log, c24before(log)), "--LogPath="+sym.LogDir())
	}
	// a line that is no statement
	said := false
	for i := 0; i < len(out); i++ {
		if i == 0 || out[i-1] == '\n' {
			said = said || i+8 > len(out) || !c21word(out[i:i+8], "replace ") && !c21word(out[i:i+8], "update `")
		}
	}
	sym.Assert(said, "nothing is said about a file that cannot be read to its end")
}
