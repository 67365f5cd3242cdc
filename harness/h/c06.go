package h

import (
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// Places of records in a page, from the lowest to the highest possible.
func c06places() []int {
	ps := []int{130, 8200, 16330, 400, 16100, 2000}
	if sym.Thorough() {
		ps = append(ps, 12000, 180)
	}
	return ps
}

// pick chooses k different places in some order and removes them.
func pick(ps *[]int, k int) []int {
	var out []int
	for i := 0; i < k; i++ {
		c := sym.Choose("place", len(*ps))
		out = append(out, (*ps)[c])
		*ps = append(append([]int{}, (*ps)[:c]...), (*ps)[c+1:]...)
	}
	return out
}

type chained struct {
	key  Val
	data []byte
}

// c06put stores records at the places and chains them in this order after the
// record prev (0: none); it gives the first and last origin.
func c06put(p []byte, compact bool, t *Table, at []int, prev int, tag string) (int, int, []chained) {
	first := 0
	var cs []chained
	for i, a := range at {
		c := chained{val(sym.U8(tag+"key"), byte(i)), filled(tag+"d", 3)}
		o, e := putRec(p, a, compact, t, []Val{c.key, {B: c.data}}, 2+i, 0)
		if e > 16384-8-6 {
			sym.Fail("harness: record outside the page")
		}
		// arbitrary info bits, owned count and heap number
		info := sym.U8(tag + "info")
		heap := sym.U16(tag + "heap")
		if compact {
			p[o-5] = info
			p[o-4] = byte(heap >> 8)
			p[o-3] = byte(heap) &^ 7
		} else {
			p[o-6] = info
			p[o-5] = byte(heap >> 8)
			p[o-4] = p[o-4]&7 | byte(heap)&^7
		}
		if prev != 0 {
			chain(p, compact, prev, o)
		} else {
			first = o
		}
		prev = o
		cs = append(cs, c)
	}
	return first, prev, cs
}

func c06check(t *Table, f []byte, deleted bool, want []chained) {
	out, err := readTable(dictFile(t), f, t.DB, t.Name, deleted)
	sym.Assert(err == nil, "reading the table failed")
	sym.Observe("out", out)
	rows := rowsOf(t, out)
	sym.Assert(len(rows) == len(want), "one statement for each record of the chain")
	for i, c := range want {
		wantHex(rows[i][0], c.key.B, "key")
		wantHex(rows[i][1], c.data, "data")
	}
}

func c06table() *Table {
	t := &Table{ID: 41, DB: "db", Name: "t", Space: 23, PK: []int{0}}
	t.Cols = []Col{binaryCol(2).NN().as("id"), varbinaryCol(20).as("c1")}
	return t
}

func c06page(no int, compact bool, t *Table, live, free []int) ([]byte, []chained, []chained) {
	p := newPage(no, t.indexes()[0].ID, compact)
	var lc, fc []chained
	_, last, lc := c06put(p, compact, t, live, infimum(compact), "l")
	chain(p, compact, last, supremum(compact))
	if len(free) > 0 {
		var head int
		head, last, fc = c06put(p, compact, t, free, 0, "f")
		put(p, last-2, 2, 0)
		put(p, 38+6, 2, uint64(head))
		g := sym.U16("garbage")
		sym.Assume(g != 0)
		put(p, 38+8, 2, uint64(g))
	}
	put(p, 38+4, 2, num(p[42:44])+uint64(len(live)+len(free)))
	put(p, 38+16, 2, uint64(len(live)))
	return p, lc, fc
}

// Live records in every order of places.
func C06_live() {
	t, compact := c06table(), formats()
	ps := c06places()
	live := pick(&ps, sym.Choose("n", 4))
	p, lc, _ := c06page(3, compact, t, live, nil)
	c06check(t, p, false, lc)
}

// Live and deleted records mixed over the page; each mode sees only its own.
func C06_mixed() {
	t, compact := c06table(), formats()
	ps := c06places()
	n := 3
	if sym.Thorough() {
		n = 4
	}
	nl := sym.Choose("live", n+1)
	live := pick(&ps, nl)
	free := pick(&ps, 1+sym.Choose("free", max(1, n-nl)))
	p, lc, fc := c06page(3, compact, t, live, free)
	if sym.Choose("deleted", 2) == 1 {
		c06check(t, p, true, fc)
	} else {
		c06check(t, p, false, lc)
	}
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// A live record that carries the delete mark is still on the live chain only.
// A long chain: more records than the places above.
func C06_many() {
	t, compact := c06table(), formats()
	step := []int{1, 7, 39}[sym.Choose("step", 3)]
	var at []int
	for i := 0; i < 40; i++ {
		at = append(at, 130+(i*step%40)*400)
	}
	del := sym.Choose("deleted", 2) == 1
	live, free := at[:20], at[20:]
	p, lc, fc := c06page(3, compact, t, live, free)
	if del {
		c06check(t, p, true, fc)
	} else {
		c06check(t, p, false, lc)
	}
}

// Two pages with live and deleted records each.
func C06_pages() {
	t, compact := c06table(), formats()
	var f []byte
	var lc, fc []chained
	for i := 0; i < 2; i++ {
		ps := []int{130, 9000, 300}
		live := pick(&ps, sym.Choose("live", 3))
		free := pick(&ps, sym.Choose("free", 2))
		p, l, d := c06page(3+i, compact, t, live, free)
		f = append(f, p...)
		lc = append(lc, l...)
		fc = append(fc, d...)
	}
	if sym.Choose("deleted", 2) == 1 {
		c06check(t, f, true, fc)
	} else {
		c06check(t, f, false, lc)
	}
}
