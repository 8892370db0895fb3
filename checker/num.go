package main

// Numeric domain: conjunctions of linear integer constraints, decided by
// Fourier-Motzkin elimination with integer tightening. No solver: every
// operation is a bounded abstract-domain operation, and giving up is always
// in the direction "not entailed".

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- 128 bit

type I128 struct {
	hi int64
	lo uint64
}

func i128(n int64) I128 {
	if n < 0 {
		return I128{-1, uint64(n)}
	}
	return I128{0, uint64(n)}
}
func u128(n uint64) I128 { return I128{0, n} }

func (a I128) neg() I128 {
	lo, c := bits.Add64(^a.lo, 1, 0)
	return I128{^a.hi + int64(c), lo}
}
func (a I128) sign() int {
	if a.hi < 0 {
		return -1
	}
	if a.hi == 0 && a.lo == 0 {
		return 0
	}
	return 1
}
func (a I128) cmp(b I128) int {
	if a.hi != b.hi {
		if a.hi < b.hi {
			return -1
		}
		return 1
	}
	if a.lo != b.lo {
		if a.lo < b.lo {
			return -1
		}
		return 1
	}
	return 0
}
func (a I128) add(b I128) (I128, bool) {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	hi := int64(uint64(a.hi) + uint64(b.hi) + c)
	if (a.hi >= 0) == (b.hi >= 0) && (hi >= 0) != (a.hi >= 0) {
		return I128{}, false
	}
	return I128{hi, lo}, true
}
func (a I128) sub(b I128) (I128, bool) { return a.add(b.neg()) }
func (a I128) mul(k int64) (I128, bool) {
	if k == 0 || a.sign() == 0 {
		return I128{}, true
	}
	neg := false
	x := a
	if x.sign() < 0 {
		x = x.neg()
		neg = !neg
	}
	var uk uint64
	if k < 0 {
		uk = uint64(-k)
		neg = !neg
	} else {
		uk = uint64(k)
	}
	h1, l1 := bits.Mul64(x.lo, uk)
	h2, l2 := bits.Mul64(uint64(x.hi), uk)
	if h2 != 0 || l2 > 1<<62 {
		return I128{}, false
	}
	hi, c := bits.Add64(h1, l2, 0)
	if c != 0 || hi > 1<<62 {
		return I128{}, false
	}
	r := I128{int64(hi), l1}
	if neg {
		r = r.neg()
	}
	return r, true
}

// floorDiv divides by a positive k.
func (a I128) floorDiv(k int64) I128 {
	if k <= 0 {
		panic("floorDiv")
	}
	if k == 1 {
		return a
	}
	neg := a.sign() < 0
	x := a
	if neg {
		x = x.neg()
	}
	qh := uint64(x.hi) / uint64(k)
	rh := uint64(x.hi) % uint64(k)
	ql, r := bits.Div64(rh, x.lo, uint64(k))
	q := I128{int64(qh), ql}
	if neg {
		q = q.neg()
		if r != 0 {
			q, _ = q.sub(i128(1))
		}
	}
	return q
}
func (a I128) isI64() bool {
	return (a.hi == 0 && a.lo < 1<<63) || (a.hi == -1 && a.lo >= 1<<63)
}
func (a I128) i64() int64 { return int64(a.lo) }
func (a I128) String() string {
	if a.isI64() {
		return strconv.FormatInt(a.i64(), 10)
	}
	if a.hi == 0 {
		return strconv.FormatUint(a.lo, 10)
	}
	return fmt.Sprintf("0x%x:%016x", uint64(a.hi), a.lo)
}

// ---------------------------------------------------------------- variables

type Var int32

type varInfo struct {
	name         string
	hasLo, hasHi bool
	lo, hi       I128
}

var vars = []varInfo{{name: "?"}}

func newVar(name string) Var {
	vars = append(vars, varInfo{name: name})
	return Var(len(vars) - 1)
}
func newVarRange(name string, lo, hi I128) Var {
	vars = append(vars, varInfo{name: name, hasLo: true, hasHi: true, lo: lo, hi: hi})
	return Var(len(vars) - 1)
}

// ---------------------------------------------------------------- linear expressions

type linTerm struct {
	v Var
	k int64
}

// Lin is an immutable linear expression sum(k*v)+c.
type Lin struct {
	c I128
	t []linTerm
	s string
}

func linC(n int64) *Lin                   { return &Lin{c: i128(n)} }
func linB(n I128) *Lin                    { return &Lin{c: n} }
func linV(v Var) *Lin                     { return &Lin{t: []linTerm{{v, 1}}} }
func freshLin(n string, lo, hi I128) *Lin { return linV(newVarRange(n, lo, hi)) }

func (l *Lin) isConst() bool { return len(l.t) == 0 }
func (l *Lin) constI64() (int64, bool) {
	if len(l.t) == 0 && l.c.isI64() {
		return l.c.i64(), true
	}
	return 0, false
}
func (l *Lin) singleVar() (Var, bool) {
	if len(l.t) == 1 && l.t[0].k == 1 && l.c.sign() == 0 {
		return l.t[0].v, true
	}
	return 0, false
}
func (l *Lin) key() string {
	if l.s == "" {
		var b strings.Builder
		for _, t := range l.t {
			b.WriteString(strconv.FormatInt(t.k, 10))
			b.WriteByte('v')
			b.WriteString(strconv.Itoa(int(t.v)))
			b.WriteByte('+')
		}
		b.WriteString(l.c.String())
		l.s = b.String()
	}
	return l.s
}
func (l *Lin) String() string {
	var b strings.Builder
	for i, t := range l.t {
		if i > 0 || t.k < 0 {
			if t.k < 0 {
				b.WriteByte('-')
			} else {
				b.WriteByte('+')
			}
		}
		k := t.k
		if k < 0 {
			k = -k
		}
		if k != 1 {
			fmt.Fprintf(&b, "%d*", k)
		}
		fmt.Fprintf(&b, "%s#%d", vars[t.v].name, t.v)
	}
	if l.c.sign() != 0 || len(l.t) == 0 {
		if len(l.t) > 0 && l.c.sign() > 0 {
			b.WriteByte('+')
		}
		b.WriteString(l.c.String())
	}
	return b.String()
}
func eqLin(a, b *Lin) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || len(a.t) != len(b.t) || a.c != b.c {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

const coefMax = 1 << 61

// combine returns ka*a + kb*b, nil on overflow.
func combine(a *Lin, ka int64, b *Lin, kb int64) *Lin {
	c1, ok1 := a.c.mul(ka)
	c2, ok2 := b.c.mul(kb)
	if !ok1 || !ok2 {
		return nil
	}
	c, ok := c1.add(c2)
	if !ok {
		return nil
	}
	out := &Lin{c: c}
	if len(a.t)+len(b.t) > 0 {
		out.t = make([]linTerm, 0, len(a.t)+len(b.t))
	}
	mul := func(x, k int64) (int64, bool) {
		h, l := bits.Mul64(absu(x), absu(k))
		if h != 0 || l > coefMax {
			return 0, false
		}
		r := int64(l)
		if (x < 0) != (k < 0) {
			r = -r
		}
		return r, true
	}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		var v Var
		var k int64
		if j >= len(b.t) || (i < len(a.t) && a.t[i].v < b.t[j].v) {
			v = a.t[i].v
			var ok bool
			if k, ok = mul(a.t[i].k, ka); !ok {
				return nil
			}
			i++
		} else if i >= len(a.t) || b.t[j].v < a.t[i].v {
			v = b.t[j].v
			var ok bool
			if k, ok = mul(b.t[j].k, kb); !ok {
				return nil
			}
			j++
		} else {
			v = a.t[i].v
			x, ok1 := mul(a.t[i].k, ka)
			y, ok2 := mul(b.t[j].k, kb)
			if !ok1 || !ok2 {
				return nil
			}
			k = x + y
			if k > coefMax || k < -coefMax {
				return nil
			}
			i++
			j++
		}
		if k != 0 {
			out.t = append(out.t, linTerm{v, k})
		}
	}
	return out
}
func absu(x int64) uint64 {
	if x < 0 {
		return uint64(-x)
	}
	return uint64(x)
}
func (l *Lin) add(o *Lin) *Lin    { return combine(l, 1, o, 1) }
func (l *Lin) sub(o *Lin) *Lin    { return combine(l, 1, o, -1) }
func (l *Lin) scale(k int64) *Lin { return combine(l, k, linC(0), 0) }
func (l *Lin) addC(n int64) *Lin  { return combine(l, 1, linC(n), 1) }
func (l *Lin) neg() *Lin          { return l.scale(-1) }
func (l *Lin) coef(v Var) int64 {
	i := sort.Search(len(l.t), func(i int) bool { return l.t[i].v >= v })
	if i < len(l.t) && l.t[i].v == v {
		return l.t[i].k
	}
	return 0
}
func (l *Lin) hasAny(m map[Var]bool) bool {
	for _, t := range l.t {
		if m[t.v] {
			return true
		}
	}
	return false
}

// subst replaces variables by linear expressions; nil on overflow.
func (l *Lin) subst(m map[Var]*Lin) *Lin {
	hit := false
	for _, t := range l.t {
		if m[t.v] != nil {
			hit = true
			break
		}
	}
	if !hit {
		return l
	}
	out := linB(l.c)
	for _, t := range l.t {
		r := m[t.v]
		if r == nil {
			r = linV(t.v)
		}
		if out = combine(out, 1, r, t.k); out == nil {
			return nil
		}
	}
	return out
}

// ---------------------------------------------------------------- constraints

// Con is L<=0, or L==0 when eq.
type Con struct {
	l  *Lin
	eq bool
}

func (c Con) String() string {
	if c.eq {
		return c.l.String() + " == 0"
	}
	return c.l.String() + " <= 0"
}

// Num is an immutable conjunction of constraints.
type Num struct {
	cons []Con
	ne   []*Lin // L != 0
	memo map[string]bool
	bot  int8 // 0 unknown 1 no 2 yes
	sol  *solved
}

var emptyNum = &Num{}

func gcd64(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func normCon(l *Lin, eq bool) (*Lin, bool /*contradiction*/) {
	if len(l.t) == 0 {
		if eq {
			return l, l.c.sign() != 0
		}
		return l, l.c.sign() > 0
	}
	g := uint64(0)
	for _, t := range l.t {
		g = gcd64(g, absu(t.k))
		if g == 1 {
			break
		}
	}
	if g > 1 {
		o := &Lin{t: make([]linTerm, len(l.t))}
		for i, t := range l.t {
			o.t[i] = linTerm{t.v, t.k / int64(g)}
		}
		// sum k v <= -c  ->  sum (k/g) v <= floor(-c/g)
		f := l.c.neg().floorDiv(int64(g))
		if eq {
			m, _ := f.mul(int64(g))
			if m.cmp(l.c.neg()) != 0 {
				return l, true
			}
		}
		o.c = f.neg()
		l = o
	}
	if eq && l.t[0].k < 0 {
		if n := l.neg(); n != nil {
			l = n
		}
	}
	return l, false
}

func linPartKey(l *Lin) string {
	var b strings.Builder
	for _, t := range l.t {
		b.WriteString(strconv.FormatInt(t.k, 36))
		b.WriteByte('v')
		b.WriteString(strconv.FormatInt(int64(t.v), 36))
		b.WriteByte('+')
	}
	return b.String()
}

func negPartEq(a, b *Lin) bool { // linear parts opposite
	if len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i].v != b.t[i].v || a.t[i].k != -b.t[i].k {
			return false
		}
	}
	return true
}
func samePart(a, b *Lin) bool {
	if len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

// addCon adds a constraint without feasibility test.
func (n *Num) addCon(l *Lin, eq bool) *Num {
	if l == nil {
		return n
	}
	l, bad := normCon(l, eq)
	if bad {
		return &Num{cons: []Con{{linC(1), false}}, bot: 2}
	}
	if len(l.t) == 0 {
		return n
	}
	if !eq && len(l.t) == 1 && impliedByBounds(l) {
		return n
	}
	out := &Num{ne: n.ne}
	out.cons = make([]Con, 0, len(n.cons)+1)
	for _, c := range n.cons {
		if samePart(c.l, l) {
			if !c.eq && !eq {
				if c.l.c.cmp(l.c) >= 0 {
					return n // existing is at least as tight
				}
				continue // replaced by tighter
			}
			if c.eq && eq && c.l.c == l.c {
				return n
			}
			if c.eq && !eq {
				if l.c.cmp(c.l.c) <= 0 { // part = -c.c <= -l.c
					return n
				}
				return &Num{cons: []Con{{linC(1), false}}, bot: 2}
			}
			if !c.eq && eq {
				if c.l.c.cmp(l.c) <= 0 {
					continue
				}
				return &Num{cons: []Con{{linC(1), false}}, bot: 2}
			}
		} else if !c.eq && !eq && negPartEq(c.l, l) {
			s, ok := c.l.c.add(l.c)
			if ok {
				if s.sign() > 0 {
					return &Num{cons: []Con{{linC(1), false}}, bot: 2}
				}
				if s.sign() == 0 { // becomes an equality
					nn := &Num{ne: n.ne}
					for _, d := range n.cons {
						if !samePart(d.l, c.l) || d.eq != c.eq || d.l.c != c.l.c {
							nn.cons = append(nn.cons, d)
						}
					}
					return nn.addCon(l, true)
				}
			}
		}
		out.cons = append(out.cons, c)
	}
	out.cons = append(out.cons, Con{l, eq})
	return out
}

func boundsOf(v Var) (lo, hi I128, hasLo, hasHi bool) {
	i := &vars[v]
	return i.lo, i.hi, i.hasLo, i.hasHi
}

// maxByBounds returns the interval upper bound of l from static bounds.
func maxByBounds(l *Lin) (I128, bool) {
	s := l.c
	for _, t := range l.t {
		i := &vars[t.v]
		var b I128
		if t.k > 0 {
			if !i.hasHi {
				return s, false
			}
			b = i.hi
		} else {
			if !i.hasLo {
				return s, false
			}
			b = i.lo
		}
		m, ok := b.mul(t.k)
		if !ok {
			return s, false
		}
		if s, ok = s.add(m); !ok {
			return s, false
		}
	}
	return s, true
}
func impliedByBounds(l *Lin) bool {
	m, ok := maxByBounds(l)
	return ok && m.sign() <= 0
}

func (n *Num) isBot() bool {
	if n.bot != 0 {
		return n.bot == 2
	}
	r := refute(n, nil)
	if r {
		n.bot = 2
	} else {
		n.bot = 1
	}
	return r
}

// le: is L<=0 entailed?
func (n *Num) le(l *Lin) bool {
	if l == nil {
		return false
	}
	if len(l.t) == 0 {
		return l.c.sign() <= 0
	}
	if impliedByBounds(l) {
		return true
	}
	if len(n.cons) == 0 {
		return false
	}
	for _, c := range n.cons {
		if samePart(c.l, l) && l.c.cmp(c.l.c) <= 0 {
			return true
		}
	}
	k := l.key()
	if r, ok := n.memo[k]; ok {
		return r
	}
	ng := combine(l, -1, linC(1), 1) // -L+1 <= 0
	r := false
	if ng != nil {
		ng, bad := normCon(ng, false)
		r = bad || refute(n, ng)
	}
	if n.memo == nil {
		n.memo = map[string]bool{}
	}
	n.memo[k] = r
	return r
}
func (n *Num) lt(l *Lin) bool {
	if l == nil {
		return false
	}
	return n.le(l.addC(1))
}
func (n *Num) eq0(l *Lin) bool {
	if l == nil {
		return false
	}
	if len(l.t) == 0 {
		return l.c.sign() == 0
	}
	return n.le(l) && n.le(l.neg())
}
func (n *Num) ne0(l *Lin) bool {
	if l == nil {
		return false
	}
	if len(l.t) == 0 {
		return l.c.sign() != 0
	}
	for _, x := range n.ne {
		if eqLin(x, l) || eqLin(x.neg(), l) {
			return true
		}
	}
	if n.lt(l) || n.lt(l.neg()) {
		return true
	}
	// a disequality with equal value
	for _, x := range n.ne {
		if shareVar(x, l) {
			if d := x.sub(l); d != nil && n.eq0(d) {
				return true
			}
			if d := x.add(l); d != nil && n.eq0(d) {
				return true
			}
		}
	}
	return false
}
func shareVar(a, b *Lin) bool {
	for _, t := range a.t {
		if b.coef(t.v) != 0 {
			return true
		}
	}
	return false
}

// assumeLe adds L<=0; returns nil when infeasible.
func (n *Num) assumeLe(l *Lin) *Num {
	if l == nil {
		return n
	}
	if len(l.t) == 0 {
		if l.c.sign() > 0 {
			return nil
		}
		return n
	}
	if n.lt(l.neg()) { // L >= 1 entailed
		return nil
	}
	m := n.addCon(l, false)
	return m.recheckNe()
}
func (n *Num) assumeEq(l *Lin) *Num {
	if l == nil {
		return n
	}
	if len(l.t) == 0 {
		if l.c.sign() != 0 {
			return nil
		}
		return n
	}
	if n.ne0(l) {
		return nil
	}
	m := n.addCon(l, true)
	if m.bot == 2 {
		return nil
	}
	return m.recheckNe()
}
func (n *Num) assumeNe(l *Lin) *Num {
	if l == nil {
		return n
	}
	if len(l.t) == 0 {
		if l.c.sign() == 0 {
			return nil
		}
		return n
	}
	le, ge := n.le(l), n.le(l.neg())
	if le && ge {
		return nil
	}
	if le {
		return n.assumeLe(l.addC(1))
	}
	if ge {
		return n.assumeLe(combine(l, -1, linC(1), 1))
	}
	for _, x := range n.ne {
		if eqLin(x, l) {
			return n
		}
	}
	out := &Num{cons: n.cons, ne: append(append([]*Lin(nil), n.ne...), l), memo: nil, bot: n.bot, sol: n.sol}
	if len(out.ne) > 40 {
		out.ne = out.ne[len(out.ne)-40:]
	}
	return out
}

// recheckNe strengthens after new inequalities.
func (n *Num) recheckNe() *Num {
	if n.bot == 2 {
		return nil
	}
	if len(n.cons) == 0 || len(n.ne) == 0 {
		return n
	}
	last := n.cons[len(n.cons)-1].l
	for i, x := range n.ne {
		if !shareVar(x, last) {
			continue
		}
		le, ge := n.le(x), n.le(x.neg())
		if le && ge {
			return nil
		}
		if le || ge {
			rest := append(append([]*Lin(nil), n.ne[:i]...), n.ne[i+1:]...)
			m := &Num{cons: n.cons, ne: rest}
			if le {
				return m.assumeLe(x.addC(1))
			}
			return m.assumeLe(combine(x, -1, linC(1), 1))
		}
	}
	return n
}

// ---------------------------------------------------------------- Fourier-Motzkin

var fmCount, fmGive int

const fmMaxRows = 260

type fmRow struct {
	l   *Lin
	anc [4]uint64 // original rows it derives from (Chernikov's rule)
}

type fmSys struct {
	rows  []fmRow // tightest "<=0" row per linear part, insertion order
	index map[uint64][]int32
	eqs   []*Lin
	bad   bool
	norig int
}

func newFM() *fmSys { return &fmSys{} }

func partHash(l *Lin) uint64 {
	h := uint64(14695981039346656037)
	for _, t := range l.t {
		h ^= uint64(t.v)
		h *= 1099511628211
		h ^= uint64(t.k)
		h *= 1099511628211
		h ^= h >> 29
	}
	return h
}

func (s *fmSys) reset() {
	s.rows = nil
	s.index = nil
}

func (s *fmSys) add(l *Lin) {
	if l == nil || s.bad {
		return
	}
	var a [4]uint64
	if s.norig < 256 {
		a[s.norig/64] |= 1 << uint(s.norig%64)
	} else {
		a = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	}
	s.norig++
	s.addRow(l, a)
}

func (s *fmSys) addRow(l *Lin, anc [4]uint64) {
	if l == nil || s.bad {
		return
	}
	l, bad := normCon(l, false)
	if bad {
		s.bad = true
		return
	}
	if len(l.t) == 0 {
		return
	}
	k := partHash(l)
	for _, i := range s.index[k] {
		if o := s.rows[i].l; samePart(o, l) {
			if o.c.cmp(l.c) < 0 {
				s.rows[i] = fmRow{l, anc}
			}
			return
		}
	}
	if s.index == nil {
		s.index = map[uint64][]int32{}
	}
	s.index[k] = append(s.index[k], int32(len(s.rows)))
	s.rows = append(s.rows, fmRow{l, anc})
}
func (s *fmSys) addEq(l *Lin) {
	if l == nil || s.bad {
		return
	}
	l, bad := normCon(l, true)
	if bad {
		s.bad = true
		return
	}
	if len(l.t) == 0 {
		return
	}
	s.eqs = append(s.eqs, l)
}

// eliminate removes every variable not in keep. withBounds adds the static
// bounds of eliminated variables. ok=false when it gave up (rows dropped when
// partial is set, otherwise the system is unusable).
func (s *fmSys) eliminate(keep map[Var]bool, withBounds, partial bool) bool {
	boundsDone := map[Var]bool{}
	// equalities by substitution on unit coefficients
	for progress := true; progress && !s.bad; {
		progress = false
		for i, e := range s.eqs {
			var pick Var
			var pk int64
			for _, t := range e.t {
				if !keep[t.v] && (t.k == 1 || t.k == -1) {
					pick, pk = t.v, t.k
					break
				}
			}
			if pk == 0 {
				continue
			}
			// v = -(e - pk*v)/pk
			rest := combine(e, 1, linV(pick), -pk)
			def := rest
			if pk == 1 {
				def = rest.neg()
			}
			if def == nil {
				continue
			}
			m := map[Var]*Lin{pick: def}
			eqs := append(append([]*Lin(nil), s.eqs[:i]...), s.eqs[i+1:]...)
			s.eqs = nil
			for _, x := range eqs {
				s.addEq(x.subst(m))
			}
			old := s.rows
			s.reset()
			for _, r := range old {
				s.addRow(r.l.subst(m), r.anc)
			}
			if withBounds && !boundsDone[pick] {
				boundsDone[pick] = true
				lo, hi, hl, hh := boundsOf(pick)
				if hl {
					s.add(combine(linB(lo), 1, def, -1))
				}
				if hh {
					s.add(combine(def, 1, linB(hi), -1))
				}
			}
			progress = true
			break
		}
	}
	if s.bad {
		return true
	}
	// remaining equalities with non-kept variables become two rows
	var ke []*Lin
	for _, e := range s.eqs {
		only := true
		for _, t := range e.t {
			if !keep[t.v] {
				only = false
			}
		}
		if only {
			ke = append(ke, e)
		} else {
			s.add(e)
			s.add(e.neg())
		}
	}
	s.eqs = ke
	elim := 0
	for !s.bad {
		pos, neg := map[Var]int{}, map[Var]int{}
		for _, r := range s.rows {
			for _, t := range r.l.t {
				if keep[t.v] {
					continue
				}
				if t.k > 0 {
					pos[t.v]++
				} else {
					neg[t.v]++
				}
			}
		}
		best := Var(-1)
		bc := 1 << 30
		for v := range pos {
			p, n := pos[v], neg[v]
			if withBounds {
				p, n = p+1, n+1
			}
			c := p*n - p - n
			if c < bc || (c == bc && v < best) {
				best, bc = v, c
			}
		}
		for v := range neg {
			if pos[v] > 0 {
				continue
			}
			c := -neg[v]
			if withBounds {
				c = neg[v] * 1
			}
			if c < bc || (c == bc && v < best) {
				best, bc = v, c
			}
		}
		if best < 0 {
			return true
		}
		if withBounds && !boundsDone[best] {
			boundsDone[best] = true
			lo, hi, hl, hh := boundsOf(best)
			if hl {
				s.add(combine(linB(lo), 1, linV(best), -1))
			}
			if hh {
				s.add(combine(linV(best), 1, linB(hi), -1))
			}
		}
		var ps, ns []fmRow
		old := s.rows
		s.reset()
		for _, r := range old {
			k := r.l.coef(best)
			if k > 0 {
				ps = append(ps, r)
			} else if k < 0 {
				ns = append(ns, r)
			} else {
				s.addRow(r.l, r.anc)
			}
		}
		elim++
		if len(ps)*len(ns)+len(s.rows) > fmMaxRows {
			fmGive++
			if !partial {
				return false
			}
			continue // drop rows with best: sound weakening
		}
		for _, p := range ps {
			for _, q := range ns {
				kp, kq := p.l.coef(best), -q.l.coef(best)
				g := int64(gcd64(uint64(kp), uint64(kq)))
				var anc [4]uint64
				cnt := 0
				for i := range anc {
					anc[i] = p.anc[i] | q.anc[i]
					cnt += bits.OnesCount64(anc[i])
				}
				if cnt > elim+1 && s.norig <= 256 {
					continue // redundant
				}
				s.addRow(combine(p.l, kq/g, q.l, kp/g), anc)
				if s.bad {
					return true
				}
			}
		}
	}
	return true
}

// slice returns the constraints connected to the seed variables.
func sliceCons(cons []Con, seed []*Lin) []Con {
	seen := map[Var]bool{}
	for _, l := range seed {
		for _, t := range l.t {
			seen[t.v] = true
		}
	}
	used := make([]bool, len(cons))
	for ch := true; ch; {
		ch = false
		for i, c := range cons {
			if used[i] || !c.l.hasAny(seen) {
				continue
			}
			used[i] = true
			ch = true
			for _, t := range c.l.t {
				seen[t.v] = true
			}
		}
	}
	var out []Con
	for i, c := range cons {
		if used[i] {
			out = append(out, c)
		}
	}
	return out
}

// refute reports whether cons (and q<=0 when non-nil) is unsatisfiable.
func refute(n *Num, q *Lin) bool {
	fmCount++
	sol := n.solve()
	if sol.bad {
		return true
	}
	s := newFM()
	if q != nil {
		if q = q.subst(sol.def); q == nil {
			return false
		}
		if len(q.t) == 0 {
			return q.c.sign() > 0
		}
		r := sol.lpMax(q.neg())
		if r.ok && !r.inf && r.pt != nil {
			// a point where all constraints and q hold
			if x, ok := evalAt(q, r.pt); ok && x.sign() <= 0 {
				lpNo++
				return false
			}
		}
		if r.ok {
			s.add(q)
			sort.Ints(r.supp)
			for _, i := range r.supp {
				s.addCon(sol.cons[i])
			}
			if s.eliminate(nil, true, false); s.bad {
				lpYes++
				return true
			}
			s = newFM()
		}
		lpFM++
		s.add(q)
		for _, i := range sol.slice(q) {
			s.addCon(sol.cons[i])
		}
	} else {
		for _, c := range sol.cons {
			s.addCon(c)
		}
	}
	if s.bad {
		return true
	}
	s.eliminate(nil, true, false)
	return s.bad
}

var lpNo, lpYes, lpFM, upLP, upFM int

// solved is a system whose equalities have been used to express some of the
// variables by the others.
type solved struct {
	bad  bool
	def  map[Var]*Lin
	cons []Con
	by   map[Var][]int32
	comp map[Var]*lp
}

func (n *Num) solve() *solved {
	if n.sol != nil {
		return n.sol
	}
	r := &solved{def: map[Var]*Lin{}, by: map[Var][]int32{}}
	n.sol = r
	s := newFM()
	for _, c := range n.cons {
		s.addCon(c)
	}
	for progress := true; progress && !s.bad; {
		progress = false
		for i, e := range s.eqs {
			var pick Var
			var pk int64
			for _, t := range e.t {
				if t.k == 1 || t.k == -1 {
					pick, pk = t.v, t.k
					break
				}
			}
			if pk == 0 {
				continue
			}
			def := combine(e, 1, linV(pick), -pk)
			if pk == 1 {
				def = def.neg()
			}
			if def == nil {
				continue
			}
			m := map[Var]*Lin{pick: def}
			ok := true
			for v, d := range r.def {
				nd := d.subst(m)
				if nd == nil {
					ok = false
					break
				}
				r.def[v] = nd
			}
			if !ok {
				// (some definitions may mention the variable and some not: both are right)
				continue
			}
			r.def[pick] = def
			eqs := append(append([]*Lin(nil), s.eqs[:i]...), s.eqs[i+1:]...)
			s.eqs = nil
			for _, x := range eqs {
				s.addEq(x.subst(m))
			}
			touched := false
			for _, row := range s.rows {
				if row.l.coef(pick) != 0 {
					touched = true
					break
				}
			}
			if touched {
				old := s.rows
				s.reset()
				for _, row := range old {
					s.addRow(row.l.subst(m), row.anc)
				}
			}
			lo, hi, hl, hh := boundsOf(pick)
			if hl {
				s.add(combine(linB(lo), 1, def, -1))
			}
			if hh {
				s.add(combine(def, 1, linB(hi), -1))
			}
			progress = true
			break
		}
	}
	if s.bad {
		r.bad = true
		return r
	}
	for _, e := range s.eqs {
		r.cons = append(r.cons, Con{e, true})
	}
	for _, row := range s.rows {
		if !impliedByBounds(row.l) {
			r.cons = append(r.cons, Con{row.l, false})
		}
	}
	for i, c := range r.cons {
		for _, t := range c.l.t {
			r.by[t.v] = append(r.by[t.v], int32(i))
		}
	}
	return r
}

// slice lists the constraints connected with a term, in order.
func (r *solved) slice(l *Lin) []int {
	used := map[int32]bool{}
	seen := map[Var]bool{}
	var todo []Var
	see := func(l *Lin) {
		for _, t := range l.t {
			if !seen[t.v] {
				seen[t.v] = true
				todo = append(todo, t.v)
			}
		}
	}
	see(l)
	var out []int
	for len(todo) > 0 {
		v := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, i := range r.by[v] {
			if !used[i] {
				used[i] = true
				out = append(out, int(i))
				see(r.cons[i].l)
			}
		}
	}
	sort.Ints(out)
	return out
}

func (s *fmSys) addCon(c Con) {
	if c.eq {
		s.addEq(c.l)
	} else {
		s.add(c.l)
	}
}

// upper returns the tightest derivable upper bound of l.
func (n *Num) upper(l *Lin) (I128, bool) {
	if len(l.t) == 0 {
		return l.c, true
	}
	b, ok := maxByBounds(l)
	sol := n.solve()
	if sol.bad {
		return b, ok
	}
	l = l.subst(sol.def)
	if l == nil {
		return b, ok
	}
	if b2, ok2 := maxByBounds(l); ok2 && (!ok || b2.cmp(b) < 0) {
		b, ok = b2, true
	}
	if len(l.t) == 0 {
		return l.c, true
	}
	r := sol.lpMax(l)
	if r.ok && !r.inf {
		if math.IsInf(r.max, 1) {
			return b, ok
		}
		if ok && r.pt != nil {
			if x, ok2 := evalAt(l, r.pt); ok2 && x.cmp(b) == 0 {
				return b, ok
			}
		}
		if u, ok2 := sol.upperFrom(l, r.supp); ok2 && (!ok || u.cmp(b) < 0) {
			b, ok = u, true
		}
		if ok && r.pt != nil {
			// the bound is exact if it is reached
			if x, ok2 := evalAt(l, r.pt); ok2 && x.cmp(b) == 0 {
				upLP++
				return b, ok
			}
		}
	}
	upFM++
	if u, ok2 := sol.upperFrom(l, sol.slice(l)); ok2 && (!ok || u.cmp(b) < 0) {
		b, ok = u, true
	}
	return b, ok
}

// upperFrom is the bound which some of the constraints imply.
func (sol *solved) upperFrom(l *Lin, cons []int) (b I128, ok bool) {
	z := newVar("z")
	s := newFM()
	sort.Ints(cons)
	for _, i := range cons {
		s.addCon(sol.cons[i])
	}
	// z <= l : maximise z
	s.add(combine(linV(z), 1, l, -1))
	s.eliminate(map[Var]bool{z: true}, true, true)
	vars = vars[:len(vars)-1]
	if s.bad {
		return
	}
	for _, row := range s.rows {
		r := row.l
		if len(r.t) == 1 && r.t[0].v == z && r.t[0].k == 1 {
			v := r.c.neg()
			if !ok || v.cmp(b) < 0 {
				b, ok = v, true
			}
		}
	}
	return
}

// project keeps only constraints over keep.
func (n *Num) project(keep map[Var]bool) *Num {
	s := newFM()
	need := false
	for _, c := range n.cons {
		for _, t := range c.l.t {
			if !keep[t.v] {
				need = true
			}
		}
	}
	var ne []*Lin
	for _, x := range n.ne {
		ok := true
		for _, t := range x.t {
			if !keep[t.v] {
				ok = false
			}
		}
		if ok {
			ne = append(ne, x)
		}
	}
	if !need {
		if len(ne) == len(n.ne) {
			return n
		}
		return &Num{cons: n.cons, ne: ne}
	}
	var pure []Con
	for _, c := range n.cons {
		ok := true
		for _, t := range c.l.t {
			if !keep[t.v] {
				ok = false
			}
		}
		if ok {
			pure = append(pure, c)
			continue
		}
		if c.eq {
			s.addEq(c.l)
		} else {
			s.add(c.l)
		}
	}
	s.eliminate(keep, true, true)
	out := &Num{cons: pure, ne: ne}
	for _, e := range s.eqs {
		out = out.addCon(e, true)
	}
	for _, row := range s.rows {
		r := row.l
		if !impliedByBounds(r) && useful(r) {
			out = out.addCon(r, false)
		}
	}
	return out
}

func (n *Num) addNe(x *Lin) *Num {
	for _, y := range n.ne {
		if eqLin(x, y) {
			return n
		}
	}
	if len(n.ne) > 24 {
		return n
	}
	return &Num{cons: n.cons, ne: append(append([]*Lin(nil), n.ne...), x), sol: n.sol}
}

// useful drops derived inequalities that only carry the static bounds of an
// eliminated variable or that have grown too large to matter.
func useful(l *Lin) bool {
	if len(l.t) < 2 {
		return true
	}
	sum := int64(0)
	for _, t := range l.t {
		if t.k < 0 {
			sum -= int64(t.k)
		} else {
			sum += int64(t.k)
		}
	}
	if len(l.t) > 2 && sum > 6 {
		return false
	}
	c := l.c
	if c.sign() < 0 {
		c = c.neg()
	}
	if c.cmp(I128{4, 0}) >= 0 {
		return false
	}
	return !(c.cmp(i128(1<<45)) >= 0 && c.cmp(i128(1<<54)) <= 0)
}

func (n *Num) substAll(m map[Var]*Lin) *Num {
	out := &Num{}
	for _, c := range n.cons {
		l := c.l.subst(m)
		if l != nil {
			out.cons = append(out.cons, Con{l, c.eq})
		}
	}
	for _, x := range n.ne {
		if l := x.subst(m); l != nil {
			out.ne = append(out.ne, l)
		}
	}
	return out
}

func (n *Num) String() string {
	var b strings.Builder
	for _, c := range n.cons {
		b.WriteString("  " + c.String() + "\n")
	}
	for _, x := range n.ne {
		b.WriteString("  " + x.String() + " != 0\n")
	}
	return b.String()
}
