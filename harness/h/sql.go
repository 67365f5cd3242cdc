package h

import (
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// Lit is the value of an SQL literal.
type Lit struct {
	Kind string // null, str, hex, bit, num, bad
	B    string // text (str, bit: digits, num)
	Raw  []byte // hex
}

// Stmt is one parsed statement.
type Stmt struct {
	OK    bool
	Err   string
	Verb  string // replace, update
	DB    string
	Table string
	Cols  []string // column list, nil when absent
	Vals  []Lit
	Set   []Assign
	Where []Assign
}

// Assign is col = value.
type Assign struct {
	Col string
	Val Lit
	Is  bool // IS NULL
}

// lexer over the output text. One character may stand for a whole number in the
// engine (see the design notes), so positions are never used as lengths.
type lexer struct {
	s   string
	i   int
	bad string
}

func (l *lexer) fail(m string) {
	if l.bad == "" {
		l.bad = m
	}
}

func (l *lexer) space() {
	for l.i < len(l.s) && (l.s[l.i] == ' ' || l.s[l.i] == '\n' || l.s[l.i] == '\t') {
		l.i++
	}
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

// word accepts a keyword (any case).
func (l *lexer) word(w string) bool {
	l.space()
	if l.i+len(w) > len(l.s) {
		return false
	}
	for k := 0; k < len(w); k++ {
		if lower(l.s[l.i+k]) != w[k] {
			return false
		}
	}
	if end := l.i + len(w); end < len(l.s) && wordChar(w[len(w)-1]) && wordChar(l.s[end]) {
		return false
	}
	l.i += len(w)
	return true
}

func wordChar(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
}

func (l *lexer) want(w string) {
	if l.bad == "" && !l.word(w) {
		l.fail("expected " + w)
	}
}

func (l *lexer) ident() string {
	l.space()
	if l.i >= len(l.s) || l.s[l.i] != '`' {
		l.fail("expected a quoted identifier")
		return ""
	}
	l.i++
	id := ""
	st := l.i
	for l.i < len(l.s) {
		if l.s[l.i] == '`' {
			id += l.s[st:l.i]
			if l.i+1 >= len(l.s) || l.s[l.i+1] != '`' {
				l.i++
				return id
			}
			// two of them stand for one in the name
			l.i++
			st = l.i
		}
		l.i++
	}
	l.fail("unterminated identifier")
	return ""
}

// quoted parses a MySQL string literal after its opening quote.
func (l *lexer) quoted(q byte) string {
	var out []byte
	for {
		if l.i >= len(l.s) {
			l.fail("unterminated string")
			return ""
		}
		c := l.s[l.i]
		l.i++
		if c == q {
			if l.i < len(l.s) && l.s[l.i] == q {
				out = append(out, q)
				l.i++
				continue
			}
			return string(out)
		}
		if c != '\\' {
			out = append(out, c)
			continue
		}
		if l.i >= len(l.s) {
			l.fail("unterminated string")
			return ""
		}
		e := l.s[l.i]
		l.i++
		switch e {
		case '0':
			out = append(out, 0)
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		case 'b':
			out = append(out, '\b')
		case 'Z':
			out = append(out, 26)
		case '%', '_':
			out = append(out, '\\', e)
		default:
			out = append(out, e)
		}
	}
}

func (l *lexer) literal() Lit {
	l.space()
	if l.i >= len(l.s) {
		l.fail("expected a value")
		return Lit{Kind: "bad"}
	}
	c := l.s[l.i]
	switch {
	case c == '\'' || c == '"':
		l.i++
		return Lit{Kind: "str", B: l.quoted(c)}
	case l.word("null"):
		return Lit{Kind: "null"}
	case l.word("unhex("):
		l.space()
		if l.i < len(l.s) && (l.s[l.i] == '\'' || l.s[l.i] == '"') {
			q := l.s[l.i]
			l.i++
			h := l.quoted(q)
			l.want(")")
			return hexLit(l, h)
		}
		if l.word("null") { // unhex(NULL) is NULL
			l.want(")")
			return Lit{Kind: "null"}
		}
		l.fail("bad unhex argument")
		return Lit{Kind: "bad"}
	case l.word("x'"):
		return hexLit(l, l.quoted('\''))
	case l.word("b'"):
		return Lit{Kind: "bit", B: l.quoted('\'')}
	case c == '0' && l.i+1 < len(l.s) && l.s[l.i+1] == 'x':
		l.i += 2
		st := l.i
		for l.i < len(l.s) && (l.s[l.i] >= '0' && l.s[l.i] <= '9' || lower(l.s[l.i]) >= 'a' && lower(l.s[l.i]) <= 'f') {
			l.i++
		}
		return hexLit(l, l.s[st:l.i])
	case c == '-' || c == '+' || c >= '0' && c <= '9':
		st := l.i
		l.i++
		for l.i < len(l.s) && l.s[l.i] != ',' && l.s[l.i] != ')' && l.s[l.i] != ' ' && l.s[l.i] != ';' {
			l.i++
		}
		return Lit{Kind: "num", B: l.s[st:l.i]}
	}
	l.fail("expected a value")
	return Lit{Kind: "bad"}
}

func hexLit(l *lexer, h string) Lit {
	b, ok := sym.ParseHex(h)
	if !ok {
		l.fail("bad hexadecimal text")
		return Lit{Kind: "bad"}
	}
	return Lit{Kind: "hex", Raw: b}
}

// statements parses everything written to standard output.
func statements(out string) []Stmt {
	var res []Stmt
	l := &lexer{s: out}
	for {
		l.space()
		if l.i >= len(l.s) {
			return res
		}
		st := l.statement()
		st.OK = l.bad == ""
		st.Err = l.bad
		res = append(res, st)
		if l.bad != "" {
			return res
		}
	}
}

func (l *lexer) statement() Stmt {
	var st Stmt
	switch {
	case l.word("replace"):
		st.Verb = "replace"
		l.want("into")
		st.DB = l.ident()
		l.want(".")
		st.Table = l.ident()
		if l.word("(") {
			for l.bad == "" {
				st.Cols = append(st.Cols, l.ident())
				if !l.word(",") {
					break
				}
			}
			l.want(")")
		}
		l.want("values")
		l.want("(")
		for l.bad == "" {
			st.Vals = append(st.Vals, l.literal())
			if !l.word(",") {
				break
			}
		}
		l.want(")")
		l.want(";")
	case l.word("update"):
		st.Verb = "update"
		st.DB = l.ident()
		l.want(".")
		st.Table = l.ident()
		l.want("set")
		for l.bad == "" {
			c := l.ident()
			l.want("=")
			st.Set = append(st.Set, Assign{Col: c, Val: l.literal()})
			if !l.word(",") {
				break
			}
		}
		if l.word("where") {
			for l.bad == "" {
				c := l.ident()
				if l.word("is") {
					l.want("null")
					st.Where = append(st.Where, Assign{Col: c, Is: true, Val: Lit{Kind: "null"}})
				} else {
					l.want("=")
					st.Where = append(st.Where, Assign{Col: c, Val: l.literal()})
				}
				if !l.word("and") {
					break
				}
			}
		}
		l.want(";")
	default:
		l.fail("not a statement")
	}
	return st
}
