package h

import (
	"github.com/zbdba/db-recovery/recovery/redo"
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// ---- compressed integers (mach0data) ----

// comp gives the compressed form of a 32-bit number.
func comp(v uint32) []byte {
	switch {
	case v < 0x80:
		return []byte{byte(v)}
	case v < 0x4000:
		return be(2, uint64(v)|0x8000)
	case v < 0x200000:
		return be(3, uint64(v)|0xC00000)
	case v < 0x10000000:
		return be(4, uint64(v)|0xE0000000)
	}
	return append([]byte{0xF0}, be(4, uint64(v))...)
}

// comp64 is the compressed form of transaction ids.
func comp64(v uint64) []byte {
	return append(comp(uint32(v>>32)), be(4, v&0xffffffff)...)
}

// much is the much-compressed form of undo numbers and table ids.
func much(v uint64) []byte {
	if v>>32 == 0 {
		return comp(uint32(v))
	}
	return append(append([]byte{0xFF}, comp(uint32(v>>32))...), comp(uint32(v))...)
}

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// ---- redo records ----

const (
	rUndoInsert = 20
	undoInsert  = 11
	undoUpd     = 12
	undoUpdDel  = 13
	undoDelMark = 14
)

// rec is a record of a type with its page and body.
func rec(typ int, body ...[]byte) []byte {
	return cat([]byte{byte(typ)}, comp(23), comp(4), cat(body...))
}

type updField struct {
	pos int
	v   Val
}

type undo struct {
	typ     int
	flags   int // upper bits of the type byte
	no      uint64
	table   uint64
	info    byte
	trx     uint64
	roll    uint64
	key     []Val
	upd     []updField
	rest    []byte // behind the updated fields
}

func flen(v Val) []byte {
	if v.Null {
		return comp(0xFFFFFFFF)
	}
	return comp(uint32(len(v.B)))
}

// body is the undo record without its length.
func (u undo) body() []byte {
	b := cat([]byte{byte(u.typ | u.flags)}, much(u.no), much(u.table))
	if u.typ != undoInsert {
		b = cat(b, []byte{u.info}, comp64(u.trx), comp64(u.roll))
	}
	for _, k := range u.key {
		b = cat(b, flen(k), k.B)
	}
	if u.typ == undoUpd {
		b = append(b, comp(uint32(len(u.upd)))...)
		for _, f := range u.upd {
			b = cat(b, comp(uint32(f.pos)), flen(f.v))
			if !f.v.Null {
				b = append(b, f.v.B...)
			}
		}
	}
	return append(b, u.rest...)
}

func (u undo) rec() []byte {
	b := u.body()
	return rec(rUndoInsert, be(2, uint64(len(b))), b)
}

// update is an ordinary update record of table t.
func update(t *Table, key []Val, upd ...updField) undo {
	return undo{typ: undoUpd, no: 3, table: uint64(t.ID), trx: 0x501, roll: 0x1000020010a00, key: key, upd: upd}
}

// physPos is the position of a declared column in the clustered index.
func physPos(t *Table, col int) int {
	for i, k := range t.phys() {
		if k == col {
			return i
		}
	}
	sym.Fail("harness: no such column")
	return -1
}

// ---- log files ----

const blockSize = 512

func logHeader(n int) []byte {
	h := make([]byte, 4*blockSize)
	put(h, 0, 4, 1)
	put(h, 8, 8, uint64(8192+n*1000000))
	copy(h[16:], "MySQL 5.7.26")
	put(h, 512, 8, 7)
	put(h, 512+8, 8, 9000)
	put(h, 3*512, 8, 8)
	put(h, 3*512+8, 8, 9100)
	return h
}

func block(no int, payload []byte) []byte {
	b := make([]byte, blockSize)
	put(b, 0, 4, uint64(no))
	n := len(payload) + 12
	if len(payload) == 496 {
		n = 512
	}
	put(b, 4, 2, uint64(n))
	put(b, 6, 2, 12)
	put(b, 8, 4, 5)
	copy(b[12:], payload)
	put(b, 508, 4, 0x12345678)
	return b
}

// blocks cuts a stream into full blocks and a last one.
func blocks(no int, stream []byte) []byte {
	var out []byte
	for len(stream) > 0 {
		n := len(stream)
		if n > 496 {
			n = 496
		}
		out = append(out, block(no, stream[:n])...)
		stream = stream[n:]
		no++
	}
	return out
}

// logFile is a log file with this stream and an unused block behind it.
func logFile(stream []byte) []byte {
	return cat(logHeader(0), blocks(16, stream), make([]byte, blockSize))
}

// readLogs gives what redo recovery prints.
func readLogs(dict []byte, db, table string, files ...string) (string, error) {
	p := redo.NewParse(table, db)
	if err := p.ParseDictPage(sym.File(dict)); err != nil {
		sym.Fail("the dictionary was not read: " + err.Error())
	}
	var err error
	out := sym.Stdout(func() { err = p.ParseRedoLogs(files) })
	return out, err
}

// readStream runs redo recovery on one log file with this stream.
func readStream(t *Table, stream []byte) []Stmt {
	out, err := readLogs(dictFile(t), t.DB, t.Name, sym.File(logFile(stream)))
	sym.Assert(err == nil, "reading the log failed")
	sym.Observe("out", out)
	return updates(out)
}

// updates parses the printed statements.
func updates(out string) []Stmt {
	sts := statements(out)
	for _, s := range sts {
		if !s.OK {
			sym.Fail("malformed statement: " + s.Err + " in " + out)
		}
		sym.Assert(s.Verb == "update", "not an UPDATE statement")
	}
	return sts
}

// assigned gives the literal assigned to a column, checking that it is one of n.
func assigned(s Stmt, name string, n int) Lit {
	return named(s.Set, name, n, "SET")
}

func named(as []Assign, name string, n int, what string) Lit {
	sym.Assert(len(as) == n, "number of columns in "+what)
	var l Lit
	k := 0
	for _, a := range as {
		if a.Col == name {
			l = a.Val
			k++
		}
	}
	if k != 1 {
		sym.Fail("column " + name + " is not once in " + what)
	}
	return l
}
