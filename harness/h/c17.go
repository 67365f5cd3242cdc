package h

import (
	"strings"

	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// c17fixed is an intact update of the row n, and another record.
func c17fixed(t *Table, n byte) []byte {
	return cat(update(t, []Val{val(0, 0, 0, n)}, updField{physPos(t, 1), val(0, 0, 1, n)}, updField{physPos(t, 2), str("abc")}).rec(), []byte{31})
}

// c17is checks a line of the output to be the statement of that update.
func c17is(t *Table, line string, n byte, what string) {
	sts := statements(line)
	if len(sts) != 1 || !sts[0].OK {
		sym.Fail(what + " is missing")
	}
	s := sts[0]
	sym.Assert(s.Verb == "update" && s.DB == t.DB && s.Table == t.Name, what+" is missing")
	wantUint(named(s.Where, t.Cols[0].Name, 1, "WHERE"), uint64(n), what)
	wantUint(named(s.Set, t.Cols[1].Name, 2, "SET"), 256+uint64(n), what)
	wantText(named(s.Set, t.Cols[2].Name, 2, "SET"), []byte("abc"), what)
}

// c17check reads the files; the statements of the n intact updates before the
// damage must come out first. It gives the lines printed.
func c17check(t *Table, n int, files ...[]byte) []string {
	var paths []string
	for _, f := range files {
		paths = append(paths, sym.File(f))
	}
	out, err := readLogs(dictFile(t), t.DB, t.Name, paths...)
	_ = err // whether damage counts as an error is not the matter here
	sym.Observe("out", out)
	lines := strings.Split(out, "\n")
	sym.Assert(len(lines) > n, "the statements of the records before the damage")
	for i := 0; i < n; i++ {
		c17is(t, lines[i], byte(i+1), "the statement of a record before the damage")
	}
	return lines
}

// The log ends at any byte: of the stream, and the file behind it.
func C17_cut() {
	t := c12table()
	a, b := c17fixed(t, 1), c17fixed(t, 2)
	s := cat(a, b)
	at := sym.Choose("cut", len(s)+1)
	keep := 0
	if at >= len(a)-1 {
		keep = 1
	}
	switch sym.Choose("how", 2) {
	case 0:
		// by the length of its block
		c17check(t, keep, cat(logHeader(0), block(1, s[:at]), make([]byte, 512)))
	case 1:
		// by the end of the file
		c17check(t, keep, cat(logHeader(0), block(1, s)[:12+at]))
	}
}

// A log file that ends within its header.
func C17_header() {
	t := c12table()
	a := c17fixed(t, 1)
	at := sym.Choose("cut", 65)*32 + sym.Choose("+", 2)
	if at > 2048 {
		at = 2048
	}
	h := logHeader(1)[:at]
	if sym.Choose("file", 2) == 0 {
		out, _ := readLogs(dictFile(t), t.DB, t.Name, sym.File(h))
		sym.Assert(out == "", "statements from an empty log")
		return
	}
	c17check(t, 1, cat(logHeader(0), block(1, a), make([]byte, 512)), h)
}

// Arbitrary bytes in the headers of the file and of the checkpoints.
func C17_headerBytes() {
	t := c12table()
	a := c17fixed(t, 1)
	h := logHeader(0)
	at := []int{0, 8, 16, 24, 32, 40, 48, 508, 512, 520, 528, 800, 1020, 1024, 1536, 1544, 2040}[sym.Choose("at", 17)]
	if sym.Choose("creator", 2) == 1 {
		for i := 16; i < 512; i++ {
			h[i] = 'x'
		}
	}
	copy(h[at:], sym.Bytes("x", 8))
	c17check(t, 1, cat(h, block(1, a), make([]byte, 512)))
}

// An arbitrary length field of a block.
func C17_blockLength() {
	t := c12table()
	a, b, c := c17fixed(t, 1), c17fixed(t, 2), c17fixed(t, 3)
	x := block(2, b)
	if sym.Choose("full", 2) == 1 {
		x = block(2, cat(filler(496-len(b)), b))
	}
	put(x, 4, 2, uint64(sym.U16("length")))
	put(x, 0, 4, uint64(sym.U32("number")))
	put(x, 6, 2, uint64(sym.U16("first")))
	c17check(t, 1, cat(logHeader(0), block(1, a), x, block(3, c), make([]byte, 512)))
}

// Arbitrary bytes in place of a record: any type and body of some bytes, then the
// end of the log or another update.
func C17_garbage() {
	t := c12table()
	a, b := c17fixed(t, 1), c17fixed(t, 2)
	n := sym.Choose("bytes", 3)
	if sym.Thorough() {
		n += sym.Choose("more", 5)
	}
	g := sym.Bytes("garbage", 1+n)
	var rest []byte
	if sym.Choose("then", 2) == 1 {
		rest = b
	}
	c17check(t, 1, cat(logHeader(0), block(1, cat(a, g, rest)), make([]byte, 512)))
}

// A record of each type whose body is arbitrary or cut.
func C17_bodies() {
	t := c12table()
	a, b := c17fixed(t, 1), c17fixed(t, 2)
	typ := 1 + sym.Choose("type", 61)
	n := 2
	if sym.Thorough() {
		n = 6
	}
	k := sym.Choose("bytes", n+1)
	at := 0
	body := make([]byte, 12)
	if k > 0 {
		at = sym.Choose("at", 4) * 2
		copy(body[at:], sym.Bytes("body", k))
		body = body[:at+k]
	} else {
		body = nil
	}
	var rest []byte
	if sym.Thorough() && sym.Choose("then", 2) == 1 || (at+k)%4 == 1 {
		rest = b
	}
	c17check(t, 1, cat(logHeader(0), block(1, cat(a, rec(typ, body), rest)), make([]byte, 512)))
}

// Two arbitrary bytes anywhere in an undo record, its length included.
func C17_undo() {
	t := idTable(integer(true), varcharLatin(20), bitCol(9), varbinaryCol(300))
	a, b := c17fixed(t, 1), c17fixed(t, 2)
	u := update(t, []Val{val(0, 0, 0, 9)}, updField{physPos(t, 1), val(0, 0, 1, 9)}, updField{physPos(t, 2), str("xyz")},
		updField{physPos(t, 3), val(1, 2)}, updField{physPos(t, 4), str("bin")}).rec()
	at := 3 + sym.Choose("at", len(u)-4)
	if sym.Thorough() {
		u[at] = sym.U8("x")
		u[at+1] = sym.U8("y")
	} else {
		u[at] = byte(sym.Pin(int(sym.U8("x") & 0xe7)))
	}
	out := c17check(t, 1, cat(logHeader(0), block(1, cat(a, u, b)), make([]byte, 512)))
	if at > 4 {
		// the record's length is right: the next one is found
		sym.Assert(len(out) > 2, "the statement behind a damaged undo record")
		c17is(t, out[len(out)-2], 2, "the statement behind a damaged undo record")
	}
}
