package main

import (
	"math/bits"
	"math/rand"
	"testing"
)

// The normalising constructors must agree with the plain semantics of each
// operator, and the solver with both.
func TestTerms(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	for round := 0; round < 3000; round++ {
		c := NewCtx()
		type tt struct {
			t *Term
			v uint64
		}
		var pool []tt
		var m Model
		for i := 0; i < 5; i++ {
			w := []uint8{1, 4, 8, 8, 16, 32, 64}[rng.Intn(7)]
			um := mask(w)
			if rng.Intn(3) == 0 {
				um = uint64(rng.Intn(200)+1) & mask(w)
			}
			v := c.NewVar(w, "v", um)
			val := rng.Uint64() & mask(w)
			if rng.Intn(2) == 0 {
				val = uint64(rng.Intn(12))
			}
			if val > um {
				val = val % (um + 1)
			}
			m = append(m, val)
			pool = append(pool, tt{v, val})
		}
		pick := func(w uint8) tt {
			var l []tt
			for _, p := range pool {
				if p.t.w == w {
					l = append(l, p)
				}
			}
			if len(l) == 0 || rng.Intn(4) == 0 {
				v := rng.Uint64() & mask(w)
				if w == 0 {
					v = rng.Uint64() & 1
				} else if rng.Intn(2) == 0 {
					v = uint64(rng.Intn(20)) & mask(w)
				} else if rng.Intn(3) == 0 {
					v = mask(w) >> uint(rng.Intn(int(w)))
				}
				return tt{c.Const(w, v), v}
			}
			return l[rng.Intn(len(l))]
		}
		for step := 0; step < 60; step++ {
			a := pool[rng.Intn(len(pool))]
			w := a.t.w
			b := pick(w)
			k := mask(w)
			var r tt
			op := rng.Intn(28)
			if w == 0 {
				switch op % 4 {
				case 0:
					r = tt{c.Not(a.t), a.v ^ 1}
				case 1:
					r = tt{c.And(a.t, b.t), a.v & b.v}
				case 2:
					r = tt{c.Or(a.t, b.t), a.v | b.v}
				default:
					x := pool[rng.Intn(len(pool))]
					y := pick(x.t.w)
					v := y.v
					if a.v == 1 {
						v = x.v
					}
					r = tt{c.Ite(a.t, x.t, y.t), v}
				}
			} else {
				switch op {
				case 0:
					r = tt{c.Eq(a.t, b.t), b2u(a.v == b.v)}
				case 1:
					r = tt{c.Ult(a.t, b.t), b2u(a.v < b.v)}
				case 2:
					r = tt{c.Slt(a.t, b.t), b2u(sx(a.v, w) < sx(b.v, w))}
				case 3:
					r = tt{c.BNot(a.t), ^a.v & k}
				case 4:
					r = tt{c.BAnd(a.t, b.t), a.v & b.v}
				case 5:
					r = tt{c.BOr(a.t, b.t), a.v | b.v}
				case 6:
					r = tt{c.BXor(a.t, b.t), a.v ^ b.v}
				case 7, 8, 9:
					r = tt{c.Add(a.t, b.t), (a.v + b.v) & k}
				case 10, 11:
					r = tt{c.Sub(a.t, b.t), (a.v - b.v) & k}
				case 12:
					r = tt{c.Mul(a.t, b.t), (a.v * b.v) & k}
				case 13:
					if b.v == 0 {
						continue
					}
					r = tt{c.Udiv(a.t, b.t), a.v / b.v}
				case 14:
					if b.v == 0 {
						continue
					}
					r = tt{c.Urem(a.t, b.t), a.v % b.v}
				case 15:
					if b.v == 0 || sx(b.v, w) == -1 {
						continue
					}
					r = tt{c.Sdiv(a.t, b.t), uint64(sx(a.v, w)/sx(b.v, w)) & k}
				case 16:
					if b.v == 0 || sx(b.v, w) == -1 {
						continue
					}
					r = tt{c.Srem(a.t, b.t), uint64(sx(a.v, w)%sx(b.v, w)) & k}
				case 17:
					v := uint64(0)
					if b.v < uint64(w) {
						v = a.v << b.v & k
					}
					r = tt{c.Shl(a.t, b.t), v}
				case 18:
					v := uint64(0)
					if b.v < uint64(w) {
						v = a.v >> b.v
					}
					r = tt{c.Lshr(a.t, b.t), v}
				case 19:
					sh := min(b.v, 63)
					r = tt{c.Ashr(a.t, b.t), uint64(sx(a.v, w)>>sh) & k}
				case 20, 21:
					if w == 64 {
						continue
					}
					nw := w + uint8(rng.Intn(int(64-w))) + 1
					r = tt{c.Zext(a.t, nw), a.v}
				case 22:
					if w == 64 {
						continue
					}
					nw := w + uint8(rng.Intn(int(64-w))) + 1
					r = tt{c.Sext(a.t, nw), uint64(sx(a.v, w)) & mask(nw)}
				case 23, 24:
					hi := uint8(rng.Intn(int(w)))
					lo := uint8(rng.Intn(int(hi) + 1))
					r = tt{c.Extract(a.t, hi, lo), a.v >> lo & mask(hi-lo+1)}
				case 25, 26:
					x := pool[rng.Intn(len(pool))]
					if x.t.w == 0 || int(x.t.w)+int(w) > 64 {
						continue
					}
					r = tt{c.Concat(a.t, x.t), a.v<<x.t.w | x.v}
				case 27:
					x := c.Const(w, uint64(rng.Intn(100))&k)
					r = tt{c.Mul(a.t, x), a.v * x.k & k}
				}
			}
			c.NewEval()
			if got := c.Eval(r.t, m); got != r.v {
				t.Fatalf("round %d step %d op %d w %d: got %d want %d: %s (a=%s b=%s)", round, step, op, w, got, r.v, r.t, a.t, b.t)
			}
			if r.t.w > 0 && (r.v > r.t.umax || r.v&^r.t.mb != 0) {
				t.Fatalf("round %d op %d: value %d outside bounds umax %d mb %x of %s (a=%s b=%s)", round, op, r.v, r.t.umax, r.t.mb, r.t, a.t, b.t)
			}
			_ = bits.Len
			pool = append(pool, r)
		}
	}
}
