package h

import (
	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/recovery/logs"
	"github.com/zbdba/db-recovery/recovery/redo"
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// Recovery only reads: a user who may only read the files recovers their data, and
// after it, whatever it came to, all files are as they were and there are no others
// but log files.

func c25writes(f func()) {
	sym.Assert(!sym.Writes(f), "a file is changed, made or removed")
}

func c25level() {
	level := []string{"error", "debug"}[sym.Choose("log level", 2)]
	sym.Assert(logs.InitLogs(sym.LogDir(), level) == nil, "InitLogs failed")
}

// c25cut is a place near the beginning, the middle or the end of any page or block.
func c25cut(n, size int) int {
	at := size*sym.Choose("page", n/size) + []int{0, 1, 13, size / 2, size - 1}[sym.Choose("in it", 5)]
	return at
}

// A table's data file: any rows, intact or with a page of which two bytes are arbitrary.
func C25_data() {
	t, compact := c18table(), formats()
	f := c18file(t, compact)
	deleted := sym.Choose("deleted", 2) == 1
	intact := true
	switch sym.Choose("damage", 5) {
	case 1:
		// links and header
		intact = false
		at := pageSize + []int{0, 4, 24, 38, 40, 42, 44, 54, 64, 97}[sym.Choose("at", 10)]
		f[at], f[at+1] = sym.U8("byte"), sym.U8("byte")
	case 2:
		// the trailer, the checksum
		at := pageSize + []int{0, 2, pageSize - 8, pageSize - 6}[sym.Choose("at", 4)]
		f[at], f[at+1] = sym.U8("byte"), sym.U8("byte")
	case 3:
		// a page is cut off
		intact = false
		f = f[:c25cut(len(f), pageSize)]
	case 4:
		// a page of another kind
		intact = false
		f[2*pageSize+24], f[2*pageSize+25] = sym.U8("type"), sym.U8("type")
	}
	var out string
	var err error
	c25level()
	c25writes(func() { out, err = readTableFile(dictFile(t), sym.File(f), t.DB, t.Name, deleted) })
	if intact {
		c18rows(t, out, deleted, err, 2)
	}
}

// Redo logs: intact, cut off, or with a block of arbitrary header.
func C25_log() {
	t := c12table()
	f := logFile(c18updates(t))
	intact := false
	switch sym.Choose("damage", 5) {
	case 0:
		intact = true
	case 1:
		at := 2048 + 512*sym.Choose("block", 2) + 2*sym.Choose("at", 7)
		f[at], f[at+1] = sym.U8("byte"), sym.U8("byte")
	case 2:
		f = f[:c25cut(len(f), 512)]
	case 3:
		// the header of the file and its checkpoints
		intact = true
		at := 2 * sym.Choose("at", 40)
		if at >= 48 {
			at += 512 - 48
		}
		f[at], f[at+1] = sym.U8("byte"), sym.U8("byte")
	case 4:
		// a checksum
		intact = true
		at := 2048 + 508 + 2*sym.Choose("at", 2)
		f[at], f[at+1] = sym.U8("byte"), sym.U8("byte")
	}
	var out string
	var err error
	c25level()
	c25writes(func() { out, err = readLogs(dictFile(t), t.DB, t.Name, sym.File(f)) })
	if intact {
		sym.Assert(err == nil, "reading the log failed")
		sym.Assert(len(updates(out)) == 3, "one statement for each update")
	}
}

// Dictionaries: two arbitrary bytes in the header of any of their pages, or cut off.
func C25_dict() {
	t := c18table()
	f := dictFile(t)
	if sym.Choose("damage", 2) == 0 {
		page := sym.Choose("page", len(f)/pageSize)
		at := page*pageSize + []int{0, 4, 24, 38, 42, 44, 54, 64, 97}[sym.Choose("at", 9)]
		f[at], f[at+1] = sym.U8("byte"), sym.U8("byte")
	} else {
		f = f[:c25cut(len(f), pageSize)]
	}
	c25level()
	c25writes(func() {
		if sym.Choose("redo", 2) == 0 {
			ibdata.NewParse().ParseDictPage(sym.File(f))
		} else {
			redo.NewParse(t.Name, t.DB).ParseDictPage(sym.File(f))
		}
	})
}

// Files that are missing stay missing; requests that fail leave all as it was, and so
// do those that succeed, whatever the options.
func C25_requestCLI() {
	t := c12table()
	dict := sym.File(dictFile(t))
	data := sym.File(dataPage(3, true, t, [][]Val{{val(0, 0, 0, 7), val(0, 0, 0, 1), str("x")}}))
	u, p := mkUpdate(t, []int{1}, 0, "a")
	log := sym.File(logFile(u.rec()))
	more := ""
	db, table := t.DB, t.Name
	ok := false
	switch sym.Choose("what", 9) {
	case 0:
		ok = true
	case 1:
		dict = sym.MissingFile()
	case 2:
		data, log = sym.MissingFile(), sym.MissingFile()
	case 3:
		db = "other"
	case 4:
		table = "other"
	case 5:
		more = "," + sym.MissingFile()
	case 6:
		data, log = sym.File(nil), sym.File(nil)
	case 7:
		dict = sym.File(nil)
	case 8:
		data, log = log, data
	}
	level := c19levels[sym.Choose("level", len(c19levels))]
	op := []string{"RecoveryData", "PrintData", "RecoveryStruct"}[sym.Choose("op", 3)]
	isRedo := sym.Choose("redo", 2) == 1
	var out string
	c25writes(func() {
		if isRedo {
			out, _ = cli("recovery", "FromRedoFile", "--SysDataFile="+dict, "--RedoFile="+log+more, "--DBName="+db, "--TableName="+table, "--LogPath="+sym.LogDir(), "--LogLevel="+level, "--OpType="+op)
		} else {
			out, _ = cli("recovery", "FromDataFile", "--SysDataFile="+dict, "--TableDataFile="+data, "--DBName="+db, "--TableName="+table, "--LogPath="+sym.LogDir(), "--LogLevel="+level, "--OpType="+op)
		}
	})
	if !ok {
		return
	}
	if isRedo {
		checkAll(updates(out), p)
	} else if op != "RecoveryData" {
		sym.Assert(len(rowsOf(t, out)) == 1, "the row stored")
	}
}
