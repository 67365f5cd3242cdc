package h

import (
	"github.com/zbdba/db-recovery/recovery/ibdata"
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// Harnesses of size: more rows, pages, columns, tables or blocks than the others
// use. The values at some places are arbitrary, the others are filling.

// bigDict gives a dictionary whose tables need not fit on one page each.
func bigDict(tables ...*Table) []byte {
	r := rowsOfDict(tables...)
	roots := make([][]byte, 4)
	var leaves []byte
	no := 20
	for k := range r {
		var parts [][][]Val
		var cur [][]Val
		size := 0
		for _, row := range r[k] {
			n := 6
			for _, v := range row {
				n += len(v.B) + 2
			}
			if size+n > 15000 {
				parts, cur, size = append(parts, cur), nil, 0
			}
			cur = append(cur, row)
			size += n
		}
		parts = append(parts, cur)
		if len(parts) == 1 {
			roots[k] = recsPage(rootDict[k], k+1, parts[0], fixDict[k])
			continue
		}
		var firsts [][]Val
		var children []int
		for _, rows := range parts {
			firsts = append(firsts, rows[0])
			children = append(children, no)
			leaves = append(leaves, recsPage(no, k+1, rows, fixDict[k])...)
			no++
		}
		roots[k] = nodePage(k, firsts, children)
	}
	return cat(dictHeaderPage(), cat(roots...), leaves)
}

func numbered(p string, i int) string {
	return p + string(rune('0'+i/1000%10)) + string(rune('0'+i/100%10)) + string(rune('0'+i/10%10)) + string(rune('0'+i%10))
}

// scaleAt is a place among n: around a power of two, or the last.
func scaleAt(n int) int {
	var at []int
	for _, k := range []int{0, 63, 64, 127, 128, 255, 256, 511, 512, 1000} {
		if k < n-1 {
			at = append(at, k)
		}
	}
	at = append(at, n-1)
	return at[sym.Choose("at", len(at))]
}

// A page with as many records as there is room for.
func C06_full() {
	t, compact := c06table(), formats()
	p := newPage(3, t.indexes()[0].ID, compact)
	n := 450
	if compact {
		n = 600
	}
	k := scaleAt(n)
	key := val(sym.U8("key"), 1)
	data := filled("data", 1)
	del := sym.Choose("deleted", 2) == 1
	at := 130
	prev := 0
	if !del {
		prev = infimum(compact)
	}
	head := 0
	for i := 0; i < n; i++ {
		row := []Val{val(byte(i>>8), byte(i)), {B: []byte{7}}}
		if i == k {
			row = []Val{key, {B: data}}
		}
		o, e := putRec(p, at, compact, t, row, 2+i, 0)
		if prev == 0 {
			head = o
		} else {
			chain(p, compact, prev, o)
		}
		prev, at = o, e
	}
	sym.Assume(at < 16300)
	if del {
		put(p, prev-2, 2, 0)
		put(p, 38+6, 2, uint64(head))
		put(p, 38+8, 2, uint64(at-130))
		chain(p, compact, infimum(compact), supremum(compact))
	} else {
		chain(p, compact, prev, supremum(compact))
		put(p, 38+16, 2, uint64(n))
	}
	put(p, 38+2, 2, uint64(at))
	put(p, 38+4, 2, num(p[42:44])+uint64(n))
	out, err := readTable(dictFile(t), p, t.DB, t.Name, del)
	sym.Assert(err == nil, "reading the table failed")
	rows := rowsOf(t, out)
	sym.Assert(len(rows) == n, "one statement for each record of the chain")
	for i := range rows {
		if i == k {
			wantHex(rows[i][0], key.B, "key")
			wantHex(rows[i][1], data, "data")
			continue
		}
		wantHex(rows[i][0], []byte{byte(i >> 8), byte(i)}, "key")
		wantHex(rows[i][1], []byte{7}, "data")
	}
}

// A data file of many pages, some of them leaf pages of the table.
func C07_many() {
	t, compact := c06table(), formats()
	n := 140
	if sym.Thorough() {
		n = 600
	}
	k := []int{3, 62, 63, 64, 65, 127, 128, n - 1}[sym.Choose("page", 8)]
	gap := sym.Choose("others", 2) == 1
	var pages [][]byte
	var want []chained
	for i := 0; i < n; i++ {
		if i == k || i%50 == 1 || i == n-1 {
			p, l, _ := c06page(i, compact, t, []int{130}, nil)
			pages = append(pages, p)
			want = append(want, l[0])
			continue
		}
		p := make([]byte, pageSize)
		if gap {
			put(p, 4, 4, uint64(i))
			put(p, 24, 2, []uint64{2, 3, 5, 8, 10, 17855}[i%6])
			put(p, 38+26, 2, 1)
		}
		pages = append(pages, p)
	}
	rows := c07run(t, cat(pages...), false)
	sym.Assert(len(rows) == len(want), "statements for exactly the clustered leaf pages")
	for i, c := range want {
		wantHex(rows[i][0], c.key.B, "key")
		wantHex(rows[i][1], c.data, "data")
	}
}

// scaleTable has n columns, every third of variable length.
func scaleTable(n int, key int) *Table {
	t := &Table{ID: 41, DB: "db", Name: "t", Space: 23, PK: []int{key}}
	for i := 0; i < n; i++ {
		c := []Col{binaryCol(2), tinyint(true), varbinaryCol(300)}[i%3]
		if i == key || i%4 == 3 {
			c = c.NN()
		}
		t.Cols = append(t.Cols, c.as(numbered("c", i)))
	}
	return t
}

// Rows of very many columns.
func C05_wide() {
	n := []int{100, 200, 400}[sym.Choose("columns", 3)]
	key := []int{0, 1, n - 1}[sym.Choose("key", 3)]
	t := scaleTable(n, key)
	compact := formats()
	k := scaleAt(n)
	pat := sym.Choose("nulls", 3) // none, most, all that can be
	vals := make([]Val, n)
	for i, c := range t.Cols {
		switch {
		case i == k || c.notNull() || pat == 0 || pat == 1 && i%5 == 0:
			b := []byte{byte(i), byte(i >> 8)}
			if c.MType == mInt {
				b = b[:1]
			}
			if i == k {
				b[0] = sym.U8("value")
			}
			vals[i] = Val{B: b}
		default:
			vals[i] = Val{Null: true}
		}
	}
	out, err := readTable(bigDict(t), dataPage(3, compact, t, [][]Val{vals}), t.DB, t.Name, false)
	sym.Assert(err == nil, "reading the table failed")
	rows := rowsOf(t, out)
	sym.Assert(len(rows) == 1, "one row stored, but not one statement printed")
	for i, c := range t.Cols {
		w := "value of " + c.Name
		switch {
		case vals[i].Null:
			wantNull(rows[0][i], w)
		case c.MType == mInt:
			wantUint(rows[0][i], uint64(vals[i].B[0]), w)
		default:
			wantHex(rows[0][i], vals[i].B, w)
		}
	}
}

// Updates of columns far behind in the row, and of many columns.
func C14_wide() {
	n := []int{100, 200, 400}[sym.Choose("columns", 3)]
	t := scaleTable(n, []int{0, n - 1}[sym.Choose("key", 2)])
	var upd []updField
	var cols []int
	k := scaleAt(n)
	many := sym.Choose("many", 2) == 1
	x := sym.U8("value")
	value := func(i int) Val {
		b := []byte{byte(i), byte(i >> 8)}
		if i == k {
			b[0] = x
		}
		if t.Cols[i].MType == mInt {
			b = b[:1]
		}
		return Val{B: b}
	}
	for i := range t.Cols {
		if i != t.PK[0] && (i == k || many && i%2 == 0) {
			upd = append(upd, updField{physPos(t, i), value(i)})
			cols = append(cols, i)
		}
	}
	sym.Assume(len(cols) > 0)
	key := value(t.PK[0])
	out, err := readLogs(bigDict(t), t.DB, t.Name, sym.File(cat(logHeader(0), blocks(1, update(t, []Val{key}, upd...).rec()), make([]byte, 512))))
	sym.Assert(err == nil, "reading the log failed")
	sts := updates(out)
	sym.Assert(len(sts) == 1, "one statement for each update")
	sym.Assert(len(sts[0].Set) == len(cols), "number of columns in SET")
	sym.Assert(len(sts[0].Where) == 1 && sts[0].Where[0].Col == t.Cols[t.PK[0]].Name, "key column in WHERE")
	check := func(l Lit, i int) {
		if t.Cols[i].MType == mInt {
			wantUint(l, uint64(value(i).B[0]), "old value of "+t.Cols[i].Name)
		} else {
			wantHex(l, value(i).B, "old value of "+t.Cols[i].Name)
		}
	}
	check(sts[0].Where[0].Val, t.PK[0])
	seen := map[string]int{}
	for i, a := range sts[0].Set {
		seen[a.Col] = i + 1
	}
	for _, i := range cols {
		j := seen[t.Cols[i].Name]
		sym.Assert(j > 0, "an updated column is not in SET")
		check(sts[0].Set[j-1].Val, i)
	}
}

// A dictionary of many tables; one of them has arbitrary numbers.
func C10_tables() {
	n := 130
	if sym.Thorough() {
		n = 300
	}
	k := scaleAt(n)
	var ts []*Table
	for i := 0; i < n; i++ {
		t := &Table{ID: 41 + i, DB: "db", Name: numbered("t", i), Space: 23 + i, PK: []int{i % 2}}
		t.Cols = []Col{integer(true).NN().as("a"), integer(i%3 == 0).NN().as("b")}
		if i == k {
			t.Space = int(sym.U32("space"))
			t.Cols = append(t.Cols, Col{MType: mBinary, PType: int(sym.U32("prtype")) | fNotNull, Len: int(sym.U32("len"))}.as("c"))
		}
		ts = append(ts, t)
	}
	m := parseDict(bigDict(ts...))
	sym.Assert(len(m) == n, "number of tables")
	for _, t := range ts {
		wantTable(m, t)
	}
}

// A table of many columns.
func C10_wide() {
	n := []int{130, 300}[sym.Choose("columns", 2)]
	t := scaleTable(n, n-1)
	k := scaleAt(n)
	sym.Assume(k != t.PK[0])
	t.Cols[k] = Col{MType: mBinary, PType: int(sym.U32("prtype")), Len: int(sym.U32("len"))}.as(t.Cols[k].Name)
	m := parseDict(bigDict(t))
	sym.Assert(len(m) == 1, "number of tables")
	wantTable(m, t)
}

// A log of very many blocks, in one or more files.
func C12_longLog() {
	t := c12table()
	n := 2200
	if sym.Thorough() {
		n = 9000
	}
	per := []int{n + 1, 130, 1000}[sym.Choose("blocks per file", 3)]
	a, b, c, ps := c12stream(t)
	k := []int{126, 127, 128, 1023, 1024, 2047, 2048}[sym.Choose("block", 7)]
	// the first record in front, the second across the end of block k, the third at the end
	full := block(1, filler(496))
	h := len(b) / 2
	var file []byte
	var files [][]byte
	for i := 0; i < n; i++ {
		if i%per == 0 {
			if file != nil {
				files = append(files, file)
			}
			file = append([]byte{}, logHeader(i/per)...)
		}
		switch i {
		case 0:
			file = append(file, block(1, cat(a, filler(496-len(a))))...)
		case k:
			file = append(file, block(1, cat(filler(496-h), b[:h]))...)
		case k + 1:
			file = append(file, block(1, cat(b[h:], filler(496-len(b)+h)))...)
		case n - 1:
			file = append(file, block(1, c)...)
		default:
			file = append(file, full...)
		}
	}
	files = append(files, file)
	c12check(t, ps, files...)
}

// Values of every length, the bytes at the ends arbitrary.
func C03_anyLength() {
	c := []Col{varcharLatin(255), varcharUtf8(300), textCol(), varbinaryCol(255), varbinaryCol(300), blobCol()}[sym.Choose("kind", 6)]
	n := 3 + sym.Choose("len", 253)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('A' + i%26)
	}
	b[0] = byte(sym.Range("first", 'A', 'Z'))
	b[n-1] = byte(sym.Range("last", 'a', 'z'))
	t := idTable(c, smallint(true))
	row := oneRow(t, n%2 == 0, []Val{val(0, 0, 0, 7), {B: b}, val(1, 2)})
	if c.PType&fBinary != 0 {
		wantHex(row[1], b, "binary value")
	} else {
		wantText(row[1], b, "value")
	}
	wantUint(row[2], 0x102, "following column")
}

// Records with very long bodies: many fields, long data.
func C13_huge() {
	g := &c13gen{}
	n := []int{1000, 8191, 8192, 16300}[sym.Choose("len", 4)]
	fields := []int{3, 127, 128, 700, 1017}[sym.Choose("fields", 5)]
	idx := cat(be(2, uint64(fields)), g.bytes(2), make([]byte, 2*fields))
	ins := func() []byte { return cat(few(n<<1|1), []byte{0x20}, few(300), few(n), g.data(n)) }
	var b []byte
	switch typ := []int{9, 38, 13, 41, 17, 45, 30, 51, 46, 39}[sym.Choose("type", 10)]; typ {
	case 9:
		b = rec(typ, be(2, 99), ins())
	case 38:
		b = rec(typ, idx, be(2, 99), ins())
	case 13, 41:
		u := cat([]byte{1}, few(1), make([]byte, 7), comp64(0x501), be(2, 130), []byte{0}, few(fields))
		for i := 0; i < fields; i++ {
			l := 2
			if i == 1 {
				l = n
			}
			u = cat(u, few(i), few(l), filling(l))
		}
		if typ == 13 {
			b = rec(typ, u)
		} else {
			b = rec(typ, idx, u)
		}
	case 17, 45:
		// the list may be longer than 64 KB
		var l []byte
		for i := 0; i < 5; i++ {
			l = cat(l, ins())
		}
		l = cat(be(4, uint64(len(l))), l)
		if typ == 17 {
			b = rec(typ, l)
		} else {
			b = rec(typ, idx, l)
		}
	case 30:
		b = rec(typ, be(2, 60), be(2, uint64(n)), g.data(n))
	case 51:
		b = rec(typ, be(2, uint64(n)), be(2, 300), make([]byte, 8), g.data(n), g.data(300))
	case 46:
		b = rec(typ, idx)
	case 39:
		b = rec(typ, idx, []byte{0, 1}, few(1), make([]byte, 7), comp64(0x501), be(2, 130))
	}
	c13check(b)
}

func filling(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = []byte{0x14, 1, 4, 0, 31, 0xff}[i%6]
	}
	return b
}

// A long text with bytes that need an escape all over it.
func C08_long() {
	n := []int{1000, 4096, 7000}[sym.Choose("len", 3)]
	b := make([]byte, n)
	esc := []byte{'\'', 'a', '\\', 0, 'b', '\n', '"', 0x1a, '\r', 'c', 0xc3, 0xa9}
	for i := range b {
		b[i] = esc[(i+i/12)%len(esc)]
	}
	at := []int{0, 255, 256, 1023, n - 1}[sym.Choose("at", 5)]
	b[min2(at, n-1)] = sym.U8("b")
	if sym.Choose("update", 2) == 1 {
		t := idTable(textCol())
		u := update(t, []Val{val(0, 0, 0, 7)}, updField{physPos(t, 1), Val{B: b}})
		sts := readStream(t, u.rec())
		sym.Assert(len(sts) == 1, "one statement for each update")
		wantText(named(sts[0].Set, "c1", 1, "SET"), b, "old value")
		return
	}
	row := oneRow(idTable(textCol()), formats(), []Val{val(0, 0, 0, 7), {B: b}})
	wantText(row[1], b, "value")
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Very many updates of three tables, of which one is requested.
func C15_many() {
	ts := c15tables()[:3]
	n := 300
	k := scaleAt(n)
	var upd []*Table
	for i := 0; i < n; i++ {
		upd = append(upd, ts[(i*7/3)%3])
	}
	upd[k] = ts[sym.Choose("of", 3)]
	req := [][2]string{{"db", "t"}, {"", "t"}, {"db", ""}, {"", ""}}[sym.Choose("request", 4)]
	var recs []byte
	var want []*Table
	var keys []uint64
	x := sym.U8("key")
	for i, t := range upd {
		a := byte(i)
		if i == k {
			a = x
		}
		recs = append(recs, update(t, []Val{val(0, 1, byte(i>>8), a)}, updField{physPos(t, 1), val(a)}).rec()...)
		if c15match(t, req[0], req[1]) {
			want, keys = append(want, t), append(keys, 1<<16|uint64(i>>8)<<8|uint64(a))
		}
	}
	out, err := readLogs(dictFile(ts...), req[0], req[1], sym.File(cat(logHeader(0), blocks(1, recs), make([]byte, 512))))
	sym.Assert(err == nil, "reading the log failed")
	sts := updates(out)
	sym.Assert(len(sts) == len(want), "statements for exactly the requested tables")
	for i, t := range want {
		sym.Assert(sts[i].DB == t.DB && sts[i].Table == t.Name, "statement for another table")
		wantUint(named(sts[i].Where, "id", 1, "WHERE"), keys[i], "key")
		wantUint(named(sts[i].Set, "v", 1, "SET"), keys[i]&0xff, "value")
	}
}

// Very many recoveries with the same parser.
func C22_many() {
	ts := c22tables()
	p := ibdata.NewParse()
	c22dict(p, ts...)
	var files []string
	var chks [][]func(Lit, string)
	for i, t := range ts {
		row, chk := c22nulls(t, "r"+string(rune('0'+i)), 0)
		files = append(files, sym.File(dataPage(3, i%2 == 0, t, [][]Val{row})))
		chks = append(chks, chk)
	}
	step := 1 + sym.Choose("step", 2)
	for i := 0; i < 40; i++ {
		k := i * step % 3
		if i%5 == 3 {
			c22data(p, files[k], ts[k], true)
			continue
		}
		c22rows(ts[k], c22data(p, files[k], ts[k], false), chks[k])
	}
}

// A log of many files, in the order of the list.
func C12_manyFiles() {
	t := c12table()
	a, b, c, ps := c12stream(t)
	s := cat(a, b, c)
	n := []int{11, 40, len(s)}[sym.Choose("files", 3)]
	var files [][]byte
	for i := 0; i < n; i++ {
		files = append(files, cat(logHeader(i), block(i+1, s[i*len(s)/n:(i+1)*len(s)/n]), make([]byte, 512)))
	}
	c12check(t, ps, files...)
}
