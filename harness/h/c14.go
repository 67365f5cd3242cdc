package h

import (
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// keyOf gives key values for the primary key columns and their checks.
func checkUpdate(s Stmt, t *Table, keys []func(Lit, string), cols []int, chks []func(Lit, string)) {
	sym.Assert(s.DB == t.DB && s.Table == t.Name, "statement for another table: "+s.DB+"."+s.Table)
	for i, k := range t.PK {
		name := t.Cols[k].Name
		keys[i](named(s.Where, name, len(t.PK), "WHERE"), "key "+name)
	}
	for i, c := range cols {
		name := t.Cols[c].Name
		chks[i](named(s.Set, name, len(cols), "SET"), "old value of "+name)
	}
}

type pending struct {
	t    *Table
	keys []func(Lit, string)
	cols []int
	chks []func(Lit, string)
}

// mkUpdate makes an update of these columns; null: set of columns (by position in
// cols) whose old value is NULL.
func mkUpdate(t *Table, cols []int, null uint, tag string) (undo, pending) {
	p := pending{t: t, cols: cols}
	u := undo{typ: undoUpd, no: 3, table: uint64(t.ID), trx: 0x501, roll: 0x1000020010a00}
	for i, k := range t.PK {
		v, f := sample(t.Cols[k], tag+"k"+string(rune('0'+i)))
		u.key = append(u.key, v)
		p.keys = append(p.keys, f)
	}
	for i, c := range cols {
		if null>>uint(i)&1 == 1 {
			u.upd = append(u.upd, updField{physPos(t, c), Val{Null: true}})
			p.chks = append(p.chks, wantNull)
			continue
		}
		v, f := sample(t.Cols[c], tag+"v"+string(rune('0'+i)))
		u.upd = append(u.upd, updField{physPos(t, c), v})
		p.chks = append(p.chks, f)
	}
	return u, p
}

func checkAll(sts []Stmt, ps ...pending) {
	sym.Assert(len(sts) == len(ps), "one statement for each update")
	for i, p := range ps {
		checkUpdate(sts[i], p.t, p.keys, p.cols, p.chks)
	}
}

func c14table() *Table {
	return idTable(varcharLatin(20), integer(false), blobCol(), bitCol(5), charLatin(4), varcharUtf8(60))
}

// Each kind of column as the updated one and as the key.
func C14_kinds() {
	ks := []Col{
		integer(true), varcharLatin(20), smallint(false), blobCol(), charLatin(4), textCol(),
		bitCol(5), varbinaryCol(300), doubleCol(), varcharUtf8(300), charUtf8(12), binaryCol(3),
		yearCol(), tinyint(true), mediumint(false), mediumint(true), bigint(true), bigint(false), bitCol(64), enumCol(1), enumCol(2),
		dateCol(), timeCol(), datetimeCol(), timestampCol(), floatCol(),
	}
	c := ks[sym.Choose("column", len(ks))]
	keys := []Col{integer(true), bigint(false), varcharLatin(20), varbinaryCol(20), charUtf8(12), bitCol(9), binaryCol(3), datetimeCol(), dateCol(), timestampCol(), yearCol(), enumCol(1)}
	k := keys[sym.Choose("key", len(keys))]
	t := idTable(c, tinyint(true))
	t.Cols[0] = k.NN().as("id")
	u, p := mkUpdate(t, []int{1}, uint(sym.Choose("null", 2)), "")
	checkAll(readStream(t, u.rec()), p)
}

// Numbers of the record header are arbitrary, and so are bytes behind the fields.
func C14_numbers() {
	t := idTable(integer(true), varcharLatin(20))
	u, p := mkUpdate(t, []int{1, 2}, 0, "")
	u.flags = sym.Choose("cmpl", 16) << 4
	u.info = sym.U8("info")
	switch sym.Choose("number", 3) {
	case 0:
		u.no = sym.U64("undono")
	case 1:
		u.trx = sym.U64("trx")
	case 2:
		u.roll = sym.U64("roll")
	}
	checkAll(readStream(t, u.rec()), p)
}

func C14_rest() {
	t := idTable(integer(true), varcharLatin(20))
	u, p := mkUpdate(t, []int{1, 2}, uint(sym.Choose("null", 4)), "")
	u.flags = sym.Choose("cmpl", 8) << 4
	u.rest = sym.Bytes("rest", []int{0, 2, 5, 9}[sym.Choose("rest", 4)])
	w, q := mkUpdate(t, []int{2}, 0, "w")
	checkAll(readStream(t, cat(u.rec(), w.rec())), p, q)
}

// Table ids of every size.
func C14_tableID() {
	t := idTable(integer(true), varcharLatin(20))
	t.ID = []int{1, 127, 128, 16383, 16384, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, 0xffffffff, 0x100000000, 0x7f00000001, 0x123456789ab}[sym.Choose("id", 13)]
	t.PK = []int{0}
	u, p := mkUpdate(t, []int{1}, 0, "")
	checkAll(readStream(t, u.rec()), p)
}

// Every set of updated columns with every pattern of NULLs.
func C14_columns() {
	t := c14table()
	n := 4
	if sym.Thorough() {
		n = 6
	}
	var cols []int
	var null uint
	for i := 1; i <= n; i++ {
		switch sym.Choose("column", 3) {
		case 1:
			cols = append(cols, i)
		case 2:
			null |= 1 << uint(len(cols))
			cols = append(cols, i)
		}
	}
	sym.Assume(len(cols) > 0)
	u, p := mkUpdate(t, cols, null, "")
	checkAll(readStream(t, u.rec()), p)
}

// Primary keys of one to three columns in any order, not in front of the table.
func C14_keys() {
	t := &Table{ID: 41, DB: "db", Name: "t", Space: 23}
	t.Cols = []Col{
		varcharLatin(20).as("a"), integer(true).NN().as("b"), varcharLatin(20).NN().as("c"), smallint(false).NN().as("d"), tinyint(true).as("e"),
	}
	left := []int{1, 2, 3}
	n := 1 + sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		k := sym.Choose("key", len(left))
		t.PK = append(t.PK, left[k])
		left = append(append([]int{}, left[:k]...), left[k+1:]...)
	}
	if sym.Choose("clustered", 2) == 1 {
		t.UniqueName = "uk"
	}
	t.Sec = []Index{{ID: 900, Name: "e", Type: 0, Cols: []int{4}}}
	cols := []int{0, 4}
	if len(left) > 0 {
		cols = append(cols, left[0])
	}
	u, p := mkUpdate(t, cols, 0, "")
	checkAll(readStream(t, u.rec()), p)
}

// Records of other kinds and of unknown tables between two updates.
func C14_others() {
	t := idTable(integer(true), varcharLatin(20))
	a, p := mkUpdate(t, []int{1}, 0, "a")
	b, q := mkUpdate(t, []int{2}, 0, "b")
	var o undo
	switch sym.Choose("kind", 5) {
	case 0:
		o, _ = mkUpdate(t, nil, 0, "o")
		o.typ = undoInsert
	case 1:
		o, _ = mkUpdate(t, nil, 0, "o")
		o.typ = undoUpdDel
		o.rest = sym.Bytes("rest", 5)
	case 2:
		o, _ = mkUpdate(t, nil, 0, "o")
		o.typ = undoDelMark
		o.rest = sym.Bytes("rest", 5)
	case 3:
		o, _ = mkUpdate(t, []int{1, 2}, 0, "o")
		o.table = sym.U64("table")
		sym.Assume(o.table != uint64(t.ID))
	case 4:
		// an update whose position is not a column of the table
		o, _ = mkUpdate(t, []int{1}, 0, "o")
		o.upd[0].pos = sym.Range("pos", 5, 1000)
	}
	o.no = sym.U64("undono")
	checkAll(readStream(t, cat(a.rec(), o.rec(), b.rec())), p, q)
}

// Several updates of several tables: one statement each, in order, each with its
// own values.
func C14_sequence() {
	t1 := idTable(integer(true), varcharLatin(20))
	t2 := &Table{ID: 42, DB: "db", Name: "t2", Space: 24, PK: []int{1}}
	t2.Cols = []Col{blobCol().as("x"), integer(true).NN().as("y"), varcharLatin(20).as("z")}
	n := 3
	if sym.Thorough() {
		n = 4
	}
	var recs []byte
	var ps []pending
	for i := 0; i < n; i++ {
		t, c := t1, []int{1, 2}
		if sym.Choose("table", 2) == 1 {
			t, c = t2, []int{0, 2}
		}
		u, p := mkUpdate(t, c[:1+sym.Choose("columns", 2)], uint(sym.Choose("null", 3)), "u"+string(rune('0'+i)))
		recs = append(recs, u.rec()...)
		ps = append(ps, p)
	}
	out, err := readLogs(dictFile(t1, t2), "", "", sym.File(logFile(recs)))
	sym.Assert(err == nil, "reading the log failed")
	sym.Observe("out", out)
	checkAll(updates(out), ps...)
}

// full gives an arbitrary value of a column and its check.
func full(c Col, name string) (Val, func(Lit, string)) {
	switch {
	case c.PType&0xff == tYear:
		y := sym.Range(name, 1901, 2155)
		return val(byte(y - 1900)), func(l Lit, w string) { wantUint(l, uint64(y), w) }
	case c.PType&0xff == tDate:
		y, m, d := sym.Range(name+"y", 1000, 9999), sym.Range(name+"m", 1, 12), sym.Range(name+"d", 1, 31)
		return Val{B: encDate(y, m, d)}, func(l Lit, w string) { wantDate(l, y, m, d) }
	case c.PType&0xff == tDatetime:
		y, mo, d := sym.Range(name+"y", 1000, 9999), sym.Range(name+"mo", 1, 12), sym.Range(name+"d", 1, 31)
		h, mi, s := sym.Range(name+"h", 0, 23), sym.Range(name+"mi", 0, 59), sym.Range(name+"s", 0, 59)
		return withFraction(c, name, Val{B: encDatetime(y, mo, d, h, mi, s)}, func(l Lit, w string) { wantDatetime(l, y, mo, d, h, mi, s) })
	case c.PType&0xff == tTime:
		neg := fracBytes(c) == 0 && sym.Bool(name+"neg")
		h, m, s := sym.Range(name+"h", 0, 838), sym.Range(name+"m", 0, 59), sym.Range(name+"s", 0, 59)
		return withFraction(c, name, Val{B: encTime(neg, h, m, s)}, func(l Lit, w string) { wantTime(l, neg, h, m, s) })
	case c.PType&0xff == tTimestamp:
		t := sym.U32(name)
		sym.Assume(t > 0)
		return withFraction(c, name, Val{B: be(4, uint64(t))}, func(l Lit, w string) { wantTimestamp(l, uint64(t)) })
	case c.MType == mInt && c.PType&fUnsigned == 0:
		b := sym.Bytes(name, c.Len)
		n := uint(c.Len)
		v := int64((num(b)^1<<(8*n-1))<<(64-8*n)) >> (64 - 8*n)
		return Val{B: b}, func(l Lit, w string) { wantInt(l, v, w) }
	case c.MType == mInt:
		b := sym.Bytes(name, c.Len)
		return Val{B: b}, func(l Lit, w string) { wantUint(l, num(b), w) }
	case c.MType == mFloat:
		bits := sym.U32(name)
		sym.Assume(bits>>23&255 != 255)
		return val(byte(bits), byte(bits>>8), byte(bits>>16), byte(bits>>24)), func(l Lit, w string) {
			v, ok := sym.ParseFloat32(text(l))
			sym.Assert(ok && v == bits, w)
		}
	case c.MType == mDouble:
		bits := sym.U64(name)
		sym.Assume(bits>>52&2047 != 2047)
		raw := make([]byte, 8)
		for i := range raw {
			raw[i] = byte(bits >> uint(8*i))
		}
		return Val{B: raw}, func(l Lit, w string) {
			v, ok := sym.ParseFloat64(text(l))
			sym.Assert(ok && v == bits, w)
		}
	case c.MType == mFixBinary && c.PType&0xff == tBit:
		b := sym.Bytes(name, c.Len)
		return Val{B: b}, func(l Lit, w string) { wantBit(l, num(b), w) }
	case c.PType&fBinary != 0:
		n := c.Len
		if c.fixed() == 0 {
			n = []int{0, 1, 5, 16}[sym.Choose(name+"len", 4)]
		}
		b := sym.Bytes(name, n)
		return Val{B: b}, func(l Lit, w string) { wantHex(l, b, w) }
	case c.MType == mChar || c.MType == mMysql:
		b := sym.Bytes(name, 2)
		for len(b) < c.Len {
			b = append(b, ' ')
		}
		return Val{B: b}, func(l Lit, w string) { wantChar(l, b, w) }
	}
	b := sym.Bytes(name, sym.Choose(name+"len", 3))
	return Val{B: b}, func(l Lit, w string) { wantText(l, b, w) }
}

// c14values: arbitrary values of a column, as the old value and as the key.
func c14values(ks ...Col) {
	c := ks[sym.Choose("kind", len(ks))]
	t := idTable(c, tinyint(true))
	var u undo
	p := pending{t: t}
	v, f := full(c, "v")
	if sym.Choose("key", 2) == 1 {
		t.Cols[0] = c.NN().as("id")
		k := updField{physPos(t, 2), val(9)}
		u = update(t, []Val{v}, k)
		p.keys, p.cols = []func(Lit, string){f}, []int{2}
		p.chks = []func(Lit, string){func(l Lit, w string) { wantUint(l, 9, w) }}
	} else {
		u = update(t, []Val{val(0, 0, 0, 9)}, updField{physPos(t, 1), v})
		p.keys, p.cols = []func(Lit, string){func(l Lit, w string) { wantUint(l, 9, w) }}, []int{1}
		p.chks = []func(Lit, string){f}
	}
	checkAll(readStream(t, u.rec()), p)
}

func C14_integers() {
	c14values(tinyint(true), tinyint(false), smallint(true), smallint(false), mediumint(true), mediumint(false), integer(true), integer(false), bigint(true), bigint(false), enumCol(1), enumCol(2))
}
func C14_bits() {
	c14values(bitCol(1), bitCol(9), bitCol(24), bitCol(32), bitCol(40), bitCol(48), bitCol(56), bitCol(64))
}
func C14_floats()    { c14values(floatCol(), doubleCol()) }
func C14_dates()     { c14values(dateCol(), yearCol()) }
func C14_datetimes() { c14values(datetimeCol(), timeCol()) }
func C14_fractions() {
	c14values(datetimeCol().frac(2), datetimeCol().frac(3), timeCol().frac(1), timeCol().frac(3), timestampCol().frac(1), timestampCol().frac(3))
}
func C14_zeroTimes() {
	ks := []Col{yearCol(), dateCol(), datetimeCol(), timestampCol()}
	i := sym.Choose("zero", 4)
	zero := [][]byte{{0}, encDate(0, 0, 0), encDatetime(0, 0, 0, 0, 0, 0), be(4, 0)}[i]
	t := idTable(ks[i])
	checkAll(readStream(t, update(t, []Val{val(0, 0, 0, 9)}, updField{physPos(t, 1), Val{B: zero}}).rec()),
		pending{t: t, keys: []func(Lit, string){func(l Lit, w string) { wantUint(l, 9, w) }}, cols: []int{1}, chks: []func(Lit, string){func(l Lit, w string) {
			switch i {
			case 0:
				wantUint(l, 0, w)
				sym.Assert(l.Kind == "num" || len(text(l)) == 4, "the year 0000 as another one")
			case 1:
				wantDate(l, 0, 0, 0)
			default:
				wantDatetime(l, 0, 0, 0, 0, 0, 0)
			}
		}}})
}
func C14_timestamp() { c14values(timestampCol()) }
func C14_binaries()  { c14values(varbinaryCol(20), varbinaryCol(300), blobCol(), binaryCol(5)) }
func C14_texts() {
	c14values(varcharLatin(20), varcharUtf8(300), textCol(), charLatin(4), charUtf8(12))
}
