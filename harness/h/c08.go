package h

import (
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

func c08len() int {
	if sym.Thorough() {
		return sym.Choose("len", 5)
	}
	return sym.Choose("len", 4)
}

// Arbitrary bytes in one column: the statement keeps its shape and its value.
func c08replace(c Col) {
	b := sym.Bytes("b", c08len())
	stored := b
	if c.MType == mChar {
		stored = append([]byte{}, b...)
		for len(stored) < c.Len {
			stored = append(stored, ' ')
		}
	}
	t := idTable(c, varcharLatin(20))
	out, err := readTable(dictFile(t), dataPage(3, true, t, [][]Val{
		{val(0, 0, 0, 7), {B: stored}, str("x")}, {val(0, 0, 0, 8), str("abcd"), str("y")}}), t.DB, t.Name, false)
	sym.Assert(err == nil, "reading the table failed")
	sym.Observe("out", out)
	sts := statements(out)
	sym.Assert(len(sts) == 2, "two rows, but not two statements")
	for _, s := range sts {
		if !s.OK {
			sym.Fail("malformed statement: " + s.Err)
		}
	}
	r := inOrder(t, sts[0])
	wantUint(r[0], 7, "key")
	if c.MType == mChar {
		wantChar(r[1], stored, "value")
	} else {
		wantText(r[1], stored, "value")
	}
	wantText(r[2], []byte("x"), "next value")
	r = inOrder(t, sts[1])
	wantUint(r[0], 8, "key of the next row")
}

func C08_varchar() { c08replace(varcharLatin(20)) }
func C08_text()    { c08replace(textCol()) }
func C08_char()    { c08replace(charLatin(4)) }

// A byte that needs an escape in the middle of a longer text, next to an arbitrary one.
func C08_longer() {
	n := []int{20, 127, 128, 300}[sym.Choose("len", 4)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	at := []int{0, 1, n / 2, n - 2}[sym.Choose("at", 4)]
	esc := []byte{0, '\n', '\r', '\\', '\'', '"', 0x1a}
	b[at] = esc[sym.Choose("escape", len(esc))]
	b[at+1] = sym.U8("b")
	t := idTable(textCol())
	row := oneRow(t, true, []Val{val(0, 0, 0, 7), {B: b}})
	wantText(row[1], b, "value")
}

// Multi-byte characters of which every byte is arbitrary stay as they are.
func C08_multibyte() {
	b := []byte("a'b\\c")
	m := sym.Bytes("m", 3)
	for _, x := range m {
		sym.Assume(x >= 0x80)
	}
	at := sym.Choose("at", len(b)+1)
	v := append(append(append([]byte{}, b[:at]...), m...), b[at:]...)
	t := idTable(varcharUtf8(60))
	row := oneRow(t, true, []Val{val(0, 0, 0, 7), {B: v}})
	wantText(row[1], v, "value")
}

// Texts that look like something else.
func C08_words() {
	words := []string{"0001-01-01T00:00:00Z", "NULL", "null", "unhex('00')", "b'1'", "');", "%v%d%s", "%!v", "--", "/*", "\\'", "nil", "<nil>", "[1 2]"}
	w := words[sym.Choose("word", len(words))]
	b := []byte(w)
	if sym.Choose("tail", 2) == 1 {
		b = append(b, sym.U8("t"))
	}
	c := []Col{varcharLatin(60), textCol()}[sym.Choose("kind", 2)]
	t := idTable(c)
	row := oneRow(t, true, []Val{val(0, 0, 0, 7), {B: b}})
	wantText(row[1], b, "value")
}

// c08update: arbitrary bytes as the old value of a column and in the key.
func c08update(key, c Col) {
	b, k := []byte("v"), []byte("k")
	switch sym.Choose("where", 3) {
	case 0:
		b = sym.Bytes("b", c08len())
	case 1:
		k = sym.Bytes("k", c08len())
	case 2:
		b, k = sym.Bytes("b", 1), sym.Bytes("k", 1)
	}
	pad := func(c Col, b []byte) []byte {
		out := append([]byte{}, b...)
		for c.fixed() != 0 && len(out) < c.Len {
			out = append(out, ' ')
		}
		return out
	}
	want := func(c Col, l Lit, b []byte, what string) {
		if c.MType == mChar {
			wantChar(l, b, what)
		} else {
			wantText(l, b, what)
		}
	}
	t := idTable(c, varcharLatin(20))
	t.Cols[0] = key.NN().as("id")
	sb, sk := pad(c, b), pad(key, k)
	u := update(t, []Val{{B: sk}}, updField{physPos(t, 1), Val{B: sb}}, updField{physPos(t, 2), str("x")})
	w := update(t, []Val{{B: pad(key, []byte("y"))}}, updField{physPos(t, 2), str("z")})
	sts := readStream(t, cat(u.rec(), w.rec()))
	sym.Assert(len(sts) == 2, "two updates, but not two statements")
	want(c, named(sts[0].Set, "c1", 2, "SET"), sb, "old value")
	wantText(named(sts[0].Set, "c2", 2, "SET"), []byte("x"), "next value")
	want(key, named(sts[0].Where, "id", 1, "WHERE"), sk, "key")
	wantText(named(sts[1].Set, "c2", 1, "SET"), []byte("z"), "value of the next statement")
}

func C08_updateVarchar() { c08update(varcharLatin(20), varcharLatin(20)) }
func C08_updateText()    { c08update(varcharUtf8(60), textCol()) }
func C08_updateChar()    { c08update(charLatin(4), charLatin(4)) }
func C08_updateBinary()  { c08update(varbinaryCol(20), blobCol()) }

// Texts that look like something else in an UPDATE.
func C08_updateWords() {
	words := []string{"0001-01-01T00:00:00Z", "NULL", "unhex('00')", "b'1'", "'; drop", "%v%d%s", "--", "\\", "\\'", "nil", " and `id`='1"}
	w := []byte(words[sym.Choose("word", len(words))])
	t := idTable(varcharLatin(60), textCol())
	t.Cols[0] = varcharLatin(60).NN().as("id")
	at := sym.Choose("at", 3)
	v := [][]byte{[]byte("k"), []byte("v"), []byte("w")}
	v[at] = append(append([]byte{}, w...), sym.Bytes("t", sym.Choose("tail", 2))...)
	sts := readStream(t, update(t, []Val{{B: v[0]}}, updField{physPos(t, 1), Val{B: v[1]}}, updField{physPos(t, 2), Val{B: v[2]}}).rec())
	sym.Assert(len(sts) == 1, "one update, but not one statement")
	wantText(named(sts[0].Where, "id", 1, "WHERE"), v[0], "key")
	wantText(named(sts[0].Set, "c1", 2, "SET"), v[1], "value")
	wantText(named(sts[0].Set, "c2", 2, "SET"), v[2], "value")
}
