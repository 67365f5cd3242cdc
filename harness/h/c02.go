package h

import (
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// splitText cuts a literal at single separator characters.
func splitText(s string, seps string) ([]string, bool) {
	var out []string
	st, k := 0, 0
	for i := 0; i < len(s); i++ {
		if k < len(seps) && s[i] == seps[k] {
			out = append(out, s[st:i])
			st = i + 1
			k++
		}
	}
	out = append(out, s[st:])
	return out, k == len(seps)
}

// wantNums: the literal is made of these numbers with these separators.
func wantNums(s string, seps string, what string, want ...int) {
	parts, ok := splitText(s, seps)
	if !ok || len(parts) != len(want) {
		sym.Fail(what + ": malformed")
	}
	for i, p := range parts {
		n, ok := sym.ParseUint(p)
		sym.Assert(ok, what+": not a number")
		sym.Assert(n == uint64(want[i]), what)
	}
}

func wantDate(l Lit, y, m, d int) {
	wantNums(text(l), "--", "date", y, m, d)
}

func wantDatetime(l Lit, y, mo, d, h, mi, s int) {
	wantNums(text(l), "-- ::", "datetime", y, mo, d, h, mi, s)
}

func wantTime(l Lit, neg bool, h, m, s int) {
	x := text(l)
	if len(x) > 0 && x[0] == '-' {
		sym.Assert(neg || h == 0 && m == 0 && s == 0, "time: sign")
		x = x[1:]
	} else {
		sym.Assert(!neg || h == 0 && m == 0 && s == 0, "time: sign")
	}
	wantNums(x, "::", "time", h, m, s)
}

// daysOf counts days since 1970-01-01.
func daysOf(y, m, d uint64) uint64 {
	if m <= 2 {
		y--
		m += 9
	} else {
		m -= 3
	}
	return y*365 + y/4 - y/100 + y/400 + (153*m+2)/5 + d - 1 - 719468
}

// wantTimestamp: the literal is the calendar time of second t.
func wantTimestamp(l Lit, t uint64) {
	parts, ok := splitText(text(l), "-- ::")
	if !ok || len(parts) != 6 {
		sym.Fail("timestamp: malformed")
	}
	var n [6]uint64
	for i, p := range parts {
		v, ok := sym.ParseUint(p)
		sym.Assert(ok, "timestamp: not a number")
		n[i] = v
	}
	sym.Assert(n[0] >= 1969 && n[0] <= 2107 && n[1] >= 1 && n[1] <= 12 && n[2] >= 1 && n[2] <= 31 && n[3] < 24 && n[4] < 60 && n[5] < 60, "timestamp: fields in range")
	sym.Assert(n[1] != 2 && n[1] != 4 && n[1] != 6 && n[1] != 9 && n[1] != 11 || n[2] <= 30, "timestamp: day of month")
	sym.Assert(n[1] != 2 || n[2] <= 29, "timestamp: day of February")
	sym.Assert((daysOf(n[0], n[1], n[2])*24+n[3])*3600+n[4]*60+n[5] == t, "timestamp")
}

// encodings

func encDate(y, m, d int) []byte { return be(3, uint64(0x800000|y<<9|m<<5|d)) }

func encDatetime(y, mo, d, h, mi, s int) []byte {
	return be(5, 0x8000000000+(uint64((y*13+mo)<<5|d)<<17|uint64(h<<12|mi<<6|s)))
}

func encTime(neg bool, h, m, s int) []byte {
	v := h<<12 | m<<6 | s
	if neg {
		v = -v
	}
	return be(3, uint64(0x800000+v))
}

// The rows end with other data: what follows a column must not matter.
// after 0: a column follows; 1: the last column, followed by arbitrary bytes
func c02row(c Col, stored []byte) Lit {
	compact := formats()
	if sym.Choose("last", 2) == 0 {
		t := idTable(c, bigint(true))
		rest := sym.Bytes("rest", 8)
		row := oneRow(t, compact, []Val{val(0, 0, 0, 7), {B: stored}, {B: rest}})
		wantUint(row[2], num(rest), "following column")
		return row[1]
	}
	t := idTable(c)
	p := dataPage(3, compact, t, [][]Val{{val(0, 0, 0, 7), {B: stored}}})
	copy(p[int(num(p[40:42])):], sym.Bytes("rest", 8))
	out, err := readTable(dictFile(t), p, t.DB, t.Name, false)
	sym.Assert(err == nil, "reading the table failed")
	sym.Observe("out", out)
	rows := rowsOf(t, out)
	sym.Assert(len(rows) == 1, "one row stored, but not one statement printed")
	return rows[0][1]
}

func C02_date() {
	y, m, d := sym.Range("y", 1000, 9999), sym.Range("m", 1, 12), sym.Range("d", 1, 31)
	wantDate(c02row(dateCol(), encDate(y, m, d)), y, m, d)
}

func C02_datetime() {
	y, mo, d := sym.Range("y", 1000, 9999), sym.Range("mo", 1, 12), sym.Range("d", 1, 31)
	h, mi, s := sym.Range("h", 0, 23), sym.Range("mi", 0, 59), sym.Range("s", 0, 59)
	wantDatetime(c02row(datetimeCol(), encDatetime(y, mo, d, h, mi, s)), y, mo, d, h, mi, s)
}

// Years before 1000: MySQL takes a year of two digits for one of 1970-2069.
func wantYear(s string) {
	for i := 0; i < len(s); i++ {
		if s[i] == '-' {
			sym.Assert(sym.Len(s[:i]) == 4, "a year that has not four digits")
			return
		}
	}
}

func C02_earlyDate() {
	y, m, d := sym.Range("y", 1, 9999), sym.Range("m", 0, 12), sym.Range("d", 0, 31)
	l := c02row(dateCol(), encDate(y, m, d))
	wantDate(l, y, m, d)
	wantYear(text(l))
}

func C02_earlyDatetime() {
	y, mo := sym.Range("y", 1, 999), sym.Range("mo", 1, 12)
	d, h, mi, s := 31, 23, 58, 59
	if sym.Thorough() {
		d, h, mi, s = sym.Range("d", 1, 31), sym.Range("h", 0, 23), sym.Range("mi", 0, 59), sym.Range("s", 0, 59)
	}
	l := c02row(datetimeCol(), encDatetime(y, mo, d, h, mi, s))
	wantDatetime(l, y, mo, d, h, mi, s)
	wantYear(text(l))
}

// fraction cuts off the fraction of a second, which is f with so many digits.
func fraction(l Lit, f, digits int) Lit {
	s := text(l)
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			n, ok := sym.ParseUint(s[i+1:])
			sym.Assert(ok, "fraction: not a number")
			want, d := uint64(f), sym.Len(s[i+1:])
			sym.Assert(d <= 6, "fraction: more than six digits")
			for ; d < digits; d++ {
				n *= 10
			}
			for ; d > digits; digits++ {
				want *= 10
			}
			sym.Assert(n == want, "fraction")
			return Lit{Kind: l.Kind, B: s[:i]}
		}
	}
	sym.Assert(f == 0, "fraction is lost")
	return l
}

// fracBytes is how many bytes a column type has for the fraction of a second.
func fracBytes(c Col) int {
	switch c.PType & 0xff {
	case tDatetime:
		return c.Len - 5
	case tTime:
		return c.Len - 3
	case tTimestamp:
		return c.Len - 4
	}
	return 0
}

// withFraction gives a (not negative) time a fraction.
func withFraction(c Col, name string, v Val, f func(Lit, string)) (Val, func(Lit, string)) {
	n := fracBytes(c)
	if n == 0 {
		return v, f
	}
	x := sym.Range(name+"fraction", 0, []int{99, 9999, 999999}[n-1])
	return Val{B: cat(v.B, be(n, uint64(x)))}, func(l Lit, w string) { f(fraction(l, x, 2*n), w) }
}

// c02frac is a column type with n bytes of fraction, and the value of it.
func c02frac(c Col, window bool) (Col, int, int, []byte) {
	n := 1 + sym.Choose("bytes", 3)
	c.Len += n
	unit := []int{10000, 100, 1}[n-1]
	f := 0
	if window && n > 1 && !sym.Thorough() {
		f = []int{0, 1000000/unit/2 - 100, 1000000/unit - 100}[sym.Choose("window", 3)] + sym.Range("fraction", 0, 99)
	} else {
		f = sym.Range("fraction", 0, 1000000/unit-1)
	}
	return c, n, f, be(n, uint64(f))
}

func C02_datetimeFraction() {
	c, n, f, enc := c02frac(datetimeCol(), false)
	y, mo, d := 9999, 12, 31
	if sym.Thorough() {
		y, mo, d = sym.Range("y", 1000, 9999), sym.Range("mo", 1, 12), sym.Range("d", 1, 31)
	}
	h, mi, s := sym.Range("h", 0, 23), sym.Range("mi", 0, 59), sym.Range("s", 0, 59)
	l := c02row(c, cat(encDatetime(y, mo, d, h, mi, s), enc))
	wantDatetime(fraction(l, f, 2*n), y, mo, d, h, mi, s)
}

func C02_timestampFraction() {
	c, n, f, enc := c02frac(timestampCol(), false)
	t := sym.U32("t")
	sym.Assume(t > 0)
	wantTimestamp(fraction(c02row(c, cat(be(4, uint64(t)), enc)), f, 2*n), uint64(t))
}

// The whole number, with its fraction, is negative.
func C02_timeFraction() {
	neg := sym.Choose("neg", 2) == 1
	c, n, f, enc := c02frac(timeCol(), neg)
	var h, m, s int
	if neg && !sym.Thorough() {
		// the borrow of the fraction: up to the seconds, and through all of them
		h, m, s = []int{0, 838}[sym.Choose("h", 2)], []int{0, 59}[sym.Choose("m", 2)], sym.Range("s", 0, 59)
	} else {
		h, m, s = sym.Range("h", 0, 838), sym.Range("m", 0, 59), sym.Range("s", 0, 59)
	}
	v := (h<<12|m<<6|s)<<uint(8*n) | int(num(enc))
	if neg {
		v = 0x800000<<uint(8*n) - v
	} else {
		v |= 0x800000 << uint(8*n)
	}
	l := c02row(c, be(3+n, uint64(v)))
	x := text(l)
	zero := h == 0 && m == 0 && s == 0 && f == 0
	if len(x) > 0 && x[0] == '-' {
		sym.Assert(neg || zero, "time: sign")
		x = x[1:]
	} else {
		sym.Assert(!neg || zero, "time: sign")
	}
	wantTime(fraction(Lit{Kind: l.Kind, B: x}, f, 2*n), false, h, m, s)
}

// Zero dates, zero timestamps and dates of which parts are zero.
func C02_zeroDate() {
	if sym.Choose("all", 2) == 1 {
		wantDate(c02row(dateCol(), encDate(0, 0, 0)), 0, 0, 0)
		return
	}
	y, m, d := sym.Range("y", 1000, 9999), sym.Range("m", 0, 12), sym.Range("d", 0, 31)
	wantDate(c02row(dateCol(), encDate(y, m, d)), y, m, d)
}

func C02_zeroDatetime() {
	if sym.Choose("all", 2) == 1 {
		wantDatetime(c02row(datetimeCol(), encDatetime(0, 0, 0, 0, 0, 0)), 0, 0, 0, 0, 0, 0)
		return
	}
	y, mo, d := sym.Range("y", 1000, 9999), sym.Range("mo", 0, 12), sym.Range("d", 0, 31)
	h, mi, s := sym.Range("h", 0, 23), sym.Range("mi", 0, 59), sym.Range("s", 0, 59)
	wantDatetime(c02row(datetimeCol(), encDatetime(y, mo, d, h, mi, s)), y, mo, d, h, mi, s)
}

func C02_zeroTimestamp() {
	wantDatetime(c02row(timestampCol(), be(4, 0)), 0, 0, 0, 0, 0, 0)
}

// The year 0000; in two digits it would be 2000.
func C02_zeroYear() {
	l := c02row(yearCol(), []byte{0})
	wantUint(l, 0, "year")
	sym.Assert(l.Kind == "num" || len(text(l)) == 4, "the year 0000 as another one")
}

func C02_time() {
	neg := sym.Bool("neg")
	h, m, s := sym.Range("h", 0, 838), sym.Range("m", 0, 59), sym.Range("s", 0, 59)
	wantTime(c02row(timeCol(), encTime(neg, h, m, s)), neg, h, m, s)
}

func C02_timestamp() {
	t := sym.U32("t")
	sym.Assume(t > 0)
	wantTimestamp(c02row(timestampCol(), be(4, uint64(t))), uint64(t))
}

// The time zone of the process, with a change: any second of the days around it,
// in the thorough tier any second.
func C02_zone() {
	zones := []struct {
		before, after int
		at            uint32
	}{{19800, 23400, 1000000000}, {-43200, 50400, 1582934400}, {3600, 7200, 1711846800}, {7200, 3600, 5097600}, {0, -34200, 1<<31 - 1}}
	z := zones[sym.Choose("zone", len(zones))]
	sym.Zone(z.before, z.after, z.at)
	t := sym.U32("t")
	if sym.Thorough() {
		sym.Assume(t > 0)
	} else {
		sym.Assume(t >= z.at-86400 && t <= z.at+86400)
	}
	local := uint64(t) + uint64(z.before)
	if t >= z.at {
		local = uint64(t) + uint64(z.after)
	}
	wantTimestamp(c02row(timestampCol(), be(4, uint64(t))), local)
}

func C02_year() {
	y := sym.Range("y", 1901, 2155)
	l := c02row(yearCol(), []byte{byte(y - 1900)})
	wantUint(l, uint64(y), "year")
}

// All temporal types in one row, in both orders.
func C02_together() {
	y, m, d := sym.Range("y", 1000, 9999), sym.Range("m", 1, 12), sym.Range("d", 1, 31)
	h, mi, s := sym.Range("h", 0, 23), sym.Range("mi", 0, 59), sym.Range("s", 0, 59)
	h2 := sym.Range("h2", 0, 838)
	y2 := sym.Range("y2", 1901, 2155)
	compact := formats()
	vals := []Val{{B: encDatetime(y, m, d, h, mi, s)}, {B: encTime(false, h2, mi, s)}, {B: []byte{byte(y2 - 1900)}}, {B: encDate(y, m, d)}}
	cols := []Col{datetimeCol(), timeCol(), yearCol(), dateCol()}
	pos := []int{1, 2, 3, 4}
	if sym.Choose("order", 2) == 1 {
		for i, j := 0, 3; i < j; i, j = i+1, j-1 {
			vals[i], vals[j] = vals[j], vals[i]
			cols[i], cols[j] = cols[j], cols[i]
			pos[i], pos[j] = pos[j], pos[i]
		}
	}
	t := idTable(cols...)
	row := oneRow(t, compact, append([]Val{val(0, 0, 0, 7)}, vals...))
	if pos[0] == 4 {
		row[1], row[2], row[3], row[4] = row[4], row[3], row[2], row[1]
	}
	wantDatetime(row[1], y, m, d, h, mi, s)
	wantTime(row[2], false, h2, mi, s)
	wantUint(row[3], uint64(y2), "year")
	wantDate(row[4], y, m, d)
}
