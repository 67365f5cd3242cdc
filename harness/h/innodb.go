// Package h holds the harnesses: each builds input files in the on-disk format
// of InnoDB (MySQL 5.6/5.7), partly from symbolic values, runs the repository's
// exported functions on them and asserts what must come out.
package h

import (
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

const pageSize = 16384

// InnoDB main types.
const (
	mVarchar   = 1
	mChar      = 2
	mFixBinary = 3
	mBinary    = 4
	mBlob      = 5
	mInt       = 6
	mSys       = 8
	mFloat     = 9
	mDouble    = 10
	mVarMysql  = 12
	mMysql     = 13
)

// Server types.
const (
	tTiny      = 1
	tShort     = 2
	tLong      = 3
	tFloat     = 4
	tDouble    = 5
	tTimestamp = 7
	tLonglong  = 8
	tInt24     = 9
	tDate      = 10
	tTime      = 11
	tDatetime  = 12
	tYear      = 13
	tVarchar   = 15
	tBit       = 16
	tBlob      = 252
	tString    = 254
)

const (
	fNotNull     = 256
	fUnsigned    = 512
	fBinary      = 1024
	fTrueVarchar = 4096
)

// Col is a declared column.
type Col struct {
	Name  string
	MType int
	PType int // precise type: server type and flags
	Len   int
}

func (c Col) notNull() bool { return c.PType&fNotNull != 0 }

// fixed gives the fixed length of a column in COMPACT rows, 0 if variable.
func (c Col) fixed() int {
	switch c.MType {
	case mVarchar, mBinary, mBlob, mVarMysql, mMysql:
		return 0
	}
	return c.Len
}

func (c Col) bigVar() bool { return c.Len > 255 || c.MType == mBlob }

// NN makes a column NOT NULL.
func (c Col) NN() Col { c.PType |= fNotNull; return c }

func (c Col) as(name string) Col { c.Name = name; return c }

func tinyint(u bool) Col   { return intCol(tTiny, 1, u) }
func smallint(u bool) Col  { return intCol(tShort, 2, u) }
func mediumint(u bool) Col { return intCol(tInt24, 3, u) }
func integer(u bool) Col   { return intCol(tLong, 4, u) }
func bigint(u bool) Col    { return intCol(tLonglong, 8, u) }
func intCol(t, n int, u bool) Col {
	p := t | fBinary
	if u {
		p |= fUnsigned
	}
	return Col{MType: mInt, PType: p, Len: n}
}
func enumCol(n int) Col { return Col{MType: mInt, PType: tString | fUnsigned, Len: n} }
func yearCol() Col      { return Col{MType: mInt, PType: tYear | fUnsigned | fBinary, Len: 1} }
func dateCol() Col      { return Col{MType: mInt, PType: tDate | fUnsigned | fBinary, Len: 3} }
func timeCol() Col      { return Col{MType: mFixBinary, PType: tTime | fBinary, Len: 3} }
func datetimeCol() Col  { return Col{MType: mFixBinary, PType: tDatetime | fBinary, Len: 5} }
func timestampCol() Col { return Col{MType: mFixBinary, PType: tTimestamp | fBinary, Len: 4} }

// frac is the column type with n bytes for the fraction of a second.
func (c Col) frac(n int) Col { c.Len += n; return c }

func bitCol(bits int) Col {
	return Col{MType: mFixBinary, PType: tBit | fUnsigned | fBinary, Len: (bits + 7) / 8}
}
func floatCol() Col  { return Col{MType: mFloat, PType: tFloat, Len: 4} }
func doubleCol() Col { return Col{MType: mDouble, PType: tDouble, Len: 8} }

func varcharLatin(n int) Col {
	return Col{MType: mVarchar, PType: tVarchar | fTrueVarchar | 8<<16, Len: n}
}
func charLatin(n int) Col { return Col{MType: mChar, PType: tString | 8<<16, Len: n} }
func varcharUtf8(n int) Col {
	return Col{MType: mVarMysql, PType: tVarchar | fTrueVarchar | 33<<16, Len: n}
}
func charUtf8(n int) Col  { return Col{MType: mMysql, PType: tString | 33<<16, Len: n} }
func binaryCol(n int) Col { return Col{MType: mFixBinary, PType: tString | fBinary | 63<<16, Len: n} }
func varbinaryCol(n int) Col {
	return Col{MType: mBinary, PType: tVarchar | fTrueVarchar | fBinary | 63<<16, Len: n}
}
func textCol() Col { return Col{MType: mBlob, PType: tBlob | 33<<16, Len: 10} }
func blobCol() Col { return Col{MType: mBlob, PType: tBlob | fBinary | 63<<16, Len: 10} }

// Index of a table.
type Index struct {
	ID   int
	Name string
	Type int // 1 clustered, 2 unique, 3 both
	Cols []int
}

// Table is a declared table.
type Table struct {
	ID   int
	DB   string
	Name string
	Cols []Col // declared order
	PK   []int // positions of the primary key columns, in key order; nil: no key
	Sec  []Index
	// UniqueName: the clustered index is a unique index of this name, not PRIMARY
	UniqueName string
	Space      int
}

func (t *Table) full() string { return t.DB + "/" + t.Name }

// indexes gives the index rows of the dictionary.
func (t *Table) indexes() []Index {
	var out []Index
	switch {
	case t.PK == nil:
		out = append(out, Index{ID: t.ID*10 + 1, Name: "GEN_CLUST_INDEX", Type: 1})
	case t.UniqueName != "":
		out = append(out, Index{ID: t.ID*10 + 1, Name: t.UniqueName, Type: 3, Cols: t.PK})
	default:
		out = append(out, Index{ID: t.ID*10 + 1, Name: "PRIMARY", Type: 3, Cols: t.PK})
	}
	return append(out, t.Sec...)
}

// phys gives the physical field order of the clustered index: positions of the
// declared columns, -1 DB_ROW_ID, -2 DB_TRX_ID, -3 DB_ROLL_PTR.
func (t *Table) phys() []int {
	var out []int
	in := make([]bool, len(t.Cols))
	if t.PK == nil {
		out = append(out, -1)
	}
	for _, k := range t.PK {
		out = append(out, k)
		in[k] = true
	}
	out = append(out, -2, -3)
	for i := range t.Cols {
		if !in[i] {
			out = append(out, i)
		}
	}
	return out
}

// Val is the stored form of a column value.
type Val struct {
	Null bool
	B    []byte
	Ext  bool // B ends with a 20-byte external reference
}

func val(b ...byte) Val { return Val{B: b} }
func str(s string) Val  { return Val{B: []byte(s)} }

// ---- big endian ----

func put(p []byte, at, n int, v uint64) {
	for i := 0; i < n; i++ {
		p[at+i] = byte(v >> (8 * uint(n-1-i)))
	}
}

func be(n int, v uint64) []byte {
	b := make([]byte, n)
	put(b, 0, n, v)
	return b
}

// ---- pages ----

// newPage makes an index page.
func newPage(no int, index int, compact bool) []byte {
	p := make([]byte, pageSize)
	put(p, 4, 4, uint64(no))
	put(p, 24, 2, 17855)
	nheap := 2
	if compact {
		nheap |= 0x8000
	}
	put(p, 38+4, 2, uint64(nheap))
	put(p, 38+28, 8, uint64(index))
	if compact {
		copy(p[99:], "infimum\x00")
		copy(p[112:], "supremum")
		p[99-5] = 1
		put(p, 99-4, 2, 2)
		put(p, 112-4, 2, 11)
		p[112-5] = 1
	} else {
		copy(p[101:], "infimum\x00")
		copy(p[116:], "supremum\x00")
		p[101-3] = 3
		p[116-3] = 3
	}
	chain(p, compact, infimum(compact), supremum(compact))
	return p
}

func infimum(compact bool) int {
	if compact {
		return 99
	}
	return 101
}

func supremum(compact bool) int {
	if compact {
		return 112
	}
	return 116
}

// chain sets the next pointer of the record at a.
func chain(p []byte, compact bool, a, next int) {
	if !compact || next == 0 {
		put(p, a-2, 2, uint64(next))
		return
	}
	put(p, a-2, 2, uint64(next-a)&0xffff)
}

// putCompact stores a record of table t behind position at and gives its origin
// and its end. Values are in declared order.
func putCompact(p []byte, at int, t *Table, vals []Val, heapNo int, info byte) (int, int) {
	phys := t.phys()
	// header, backwards from the origin
	nulls := 0
	var lens []byte
	for _, c := range t.Cols {
		if !c.notNull() {
			nulls++
		}
	}
	bitmap := make([]byte, (nulls+7)/8)
	bit := 0
	var data []byte
	for _, f := range phys {
		switch f {
		case -1:
			data = append(data, 0, 0, 0, 0, 2, byte(heapNo))
			continue
		case -2:
			data = append(data, 0, 0, 0, 0, 5, byte(heapNo))
			continue
		case -3:
			data = append(data, 0x81, 0, 0, 1, 10, 0, byte(heapNo))
			continue
		}
		c := t.Cols[f]
		v := vals[f]
		if !c.notNull() {
			if v.Null {
				bitmap[bit/8] |= 1 << uint(bit%8)
			}
			bit++
		}
		if v.Null {
			continue
		}
		if c.fixed() == 0 {
			n := len(v.B)
			if c.bigVar() && (n > 127 || v.Ext) {
				hi := byte(n>>8) | 0x80
				if v.Ext {
					hi |= 0x40
				}
				lens = append(lens, hi, byte(n))
			} else {
				lens = append(lens, byte(n))
			}
		} else if len(v.B) != c.fixed() {
			sym.Fail("harness: wrong length of " + c.Name)
		}
		data = append(data, v.B...)
	}
	origin := at + len(lens) + len(bitmap) + 5
	for i := range lens {
		p[origin-5-len(bitmap)-1-i] = lens[i]
	}
	for i := range bitmap {
		p[origin-5-1-i] = bitmap[i]
	}
	p[origin-5] = info
	put(p, origin-4, 2, uint64(heapNo)<<3)
	copy(p[origin:], data)
	return origin, origin + len(data)
}

// putRedundant stores a record of the given physical fields. null[i] with
// fixLen[i] > 0 keeps the space of a fixed-length field.
func putRedundant(p []byte, at int, fields []Val, fixLen []int, heapNo int, info byte) (int, int) {
	n := len(fields)
	total := 0
	ext := false
	for i, v := range fields {
		if v.Null {
			total += fixLen[i]
		} else {
			total += len(v.B)
		}
		if v.Ext {
			ext = true
		}
	}
	short := total <= 127 && !ext
	sz := 2
	if short {
		sz = 1
	}
	origin := at + sz*n + 6
	end := 0
	for i, v := range fields {
		if v.Null {
			end += fixLen[i]
		} else {
			copy(p[origin+end:], v.B)
			end += len(v.B)
		}
		if short {
			e := end
			if v.Null {
				e |= 0x80
			}
			p[origin-6-1-i] = byte(e)
		} else {
			e := end
			if v.Null {
				e |= 0x8000
			}
			if v.Ext {
				e |= 0x4000
			}
			put(p, origin-6-2*i-2, 2, uint64(e))
		}
	}
	p[origin-6] = info
	w := uint64(heapNo)<<11 | uint64(n)<<1
	if short {
		w |= 1
	}
	put(p, origin-5, 3, w&0xffffff)
	return origin, origin + end
}

// putRec stores a row of table t in either format.
func putRec(p []byte, at int, compact bool, t *Table, vals []Val, heapNo int, info byte) (int, int) {
	if compact {
		return putCompact(p, at, t, vals, heapNo, info)
	}
	var f []Val
	var fl []int
	for _, k := range t.phys() {
		switch k {
		case -1:
			f = append(f, val(0, 0, 0, 0, 2, byte(heapNo)))
			fl = append(fl, 0)
		case -2:
			f = append(f, val(0, 0, 0, 0, 5, byte(heapNo)))
			fl = append(fl, 0)
		case -3:
			f = append(f, val(0x81, 0, 0, 1, 10, 0, byte(heapNo)))
			fl = append(fl, 0)
		default:
			f = append(f, vals[k])
			n := t.Cols[k].fixed()
			if t.Cols[k].MType == mMysql {
				n = t.Cols[k].Len
			}
			fl = append(fl, n)
		}
	}
	return putRedundant(p, at, f, fl, heapNo, info)
}

// ---- dictionary ----

func recsPage(no, index int, rows [][]Val, fix []int) []byte {
	p := newPage(no, index, false)
	addRecs(p, rows, fix)
	return p
}

func addRecs(p []byte, rows [][]Val, fix []int) {
	at := 130
	prev := infimum(false)
	for i, r := range rows {
		o, e := putRedundant(p, at, r, fix, 2+i, 0)
		chain(p, false, prev, o)
		prev = o
		at = e
	}
	chain(p, false, prev, supremum(false))
	put(p, 38+2, 2, uint64(at))
	put(p, 38+4, 2, uint64(2+len(rows)))
	put(p, 38+16, 2, uint64(len(rows)))
}

var (
	sysTrx  = []byte{0, 0, 0, 0, 3, 1}
	sysRoll = []byte{0x80, 0, 0, 1, 2, 1, 16}
)

var fixTables = []int{0, 6, 7, 8, 4, 4, 0, 4, 0, 4}
var fixColumns = []int{8, 4, 6, 7, 0, 4, 4, 4, 4}
var fixIndexes = []int{8, 8, 6, 7, 0, 4, 4, 4, 4}
var fixFields = []int{8, 4, 6, 7, 0}

func u4(v int) Val { return Val{B: be(4, uint64(v))} }
func u8(v int) Val { return Val{B: be(8, uint64(v))} }

func tableRow(t *Table) []Val {
	return []Val{str(t.full()), {B: sysTrx}, {B: sysRoll}, u8(t.ID), u4(len(t.Cols) | 0x80000000), u4(33), u8(0), u4(80), {Null: true}, u4(t.Space)}
}

func columnRow(t *Table, i int) []Val {
	c := t.Cols[i]
	return []Val{u8(t.ID), u4(i), {B: sysTrx}, {B: sysRoll}, str(c.Name), u4(c.MType), u4(c.PType), u4(c.Len), u4(0)}
}

func indexRow(t *Table, x Index) []Val {
	return []Val{u8(t.ID), u8(x.ID), {B: sysTrx}, {B: sysRoll}, str(x.Name), u4(len(x.Cols)), u4(x.Type), u4(t.Space), u4(3)}
}

func fieldRow(t *Table, x Index, i int) []Val {
	return []Val{u8(x.ID), u4(i), {B: sysTrx}, {B: sysRoll}, str(t.Cols[x.Cols[i]].Name)}
}

func dictHeaderPage() []byte {
	hdr := make([]byte, pageSize)
	put(hdr, 4, 4, 7)
	put(hdr, 24, 2, 6)
	put(hdr, 38, 8, 1024)
	put(hdr, 46, 8, 100)
	put(hdr, 54, 8, 100)
	put(hdr, 62, 4, 30)
	put(hdr, 66, 4, 0)
	put(hdr, 70, 4, 8)  // tables
	put(hdr, 74, 4, 9)  // table ids
	put(hdr, 78, 4, 10) // columns
	put(hdr, 82, 4, 11) // indexes
	put(hdr, 86, 4, 12) // fields
	return hdr
}

// dictFile gives the content of a system tablespace that declares the tables.
func dictFile(tables ...*Table) []byte {
	var tr, cr, ir, fr [][]Val
	for _, t := range tables {
		tr = append(tr, tableRow(t))
		for i := range t.Cols {
			cr = append(cr, columnRow(t, i))
		}
		for _, x := range t.indexes() {
			ir = append(ir, indexRow(t, x))
			for i := range x.Cols {
				fr = append(fr, fieldRow(t, x, i))
			}
		}
	}
	var f []byte
	f = append(f, dictHeaderPage()...)
	f = append(f, recsPage(8, 1, tr, fixTables)...)
	f = append(f, recsPage(10, 2, cr, fixColumns)...)
	f = append(f, recsPage(11, 3, ir, fixIndexes)...)
	f = append(f, recsPage(12, 4, fr, fixFields)...)
	return f
}

// ---- data file ----

// dataPage gives a leaf page of the clustered index with these rows.
func dataPage(no int, compact bool, t *Table, rows [][]Val) []byte {
	p := newPage(no, t.indexes()[0].ID, compact)
	at := 130
	prev := infimum(compact)
	for i, r := range rows {
		o, e := putRec(p, at, compact, t, r, 2+i, 0)
		chain(p, compact, prev, o)
		prev = o
		at = e
	}
	chain(p, compact, prev, supremum(compact))
	nheap := 2 + len(rows)
	if compact {
		nheap |= 0x8000
	}
	put(p, 38+2, 2, uint64(at))
	put(p, 38+4, 2, uint64(nheap))
	put(p, 38+16, 2, uint64(len(rows)))
	return p
}
