package main

import (
	"math"
	"sort"
)

// A floating-point simplex. It only ever speeds things up: "not entailed" is
// always a safe answer, and what it believes to be entailed is proved by
// exact elimination from the few constraints which take part.

type lp struct {
	idx      map[Var]int
	vars     []Var
	cons     []int // constraints of the component
	n, m     int
	t        [][]float64
	basic    []int
	nonb     []int
	val      []float64
	lo, hi   []float64
	loX, hiX []I128
	state    int // 0 new, 1 feasible, 2 infeasible, 3 unknown
	supp     []int
	pivots   int
	obj, rd  []float64
}

const lpEps = 1e-9

func fl(a I128) float64 {
	if a.isI64() {
		return float64(a.i64())
	}
	return float64(a.hi)*18446744073709551616.0 + float64(a.lo)
}

func newLP(sol *solved, cons []int) *lp {
	p := &lp{idx: map[Var]int{}, cons: cons}
	for _, i := range cons {
		for _, t := range sol.cons[i].l.t {
			if _, ok := p.idx[t.v]; !ok {
				p.idx[t.v] = -1
				p.vars = append(p.vars, t.v)
			}
		}
	}
	sort.Slice(p.vars, func(a, b int) bool { return p.vars[a] < p.vars[b] })
	for i, v := range p.vars {
		p.idx[v] = i
	}
	p.n, p.m = len(p.vars), len(cons)
	p.init(sol)
	return p
}

func (p *lp) init(sol *solved) {
	n, m := p.n, p.m
	p.val = make([]float64, n+m)
	p.lo, p.hi = make([]float64, n+m), make([]float64, n+m)
	p.loX, p.hiX = make([]I128, n+m), make([]I128, n+m)
	p.basic, p.nonb = make([]int, m), make([]int, n)
	p.rd, p.obj = make([]float64, n), make([]float64, n)
	p.pivots, p.state, p.supp = 0, 0, nil
	for i, v := range p.vars {
		p.nonb[i] = i
		lo, hi, hl, hh := boundsOf(v)
		p.lo[i], p.hi[i] = math.Inf(-1), math.Inf(1)
		if hl {
			p.lo[i], p.loX[i] = fl(lo), lo
		}
		if hh {
			p.hi[i], p.hiX[i] = fl(hi), hi
		}
		switch {
		case p.lo[i] > 0:
			p.val[i] = p.lo[i]
		case p.hi[i] < 0:
			p.val[i] = p.hi[i]
		}
		// a variable outside of the basis sits at a bound or, if both are far
		// away, in between
	}
	cells := make([]float64, n*m)
	p.t = make([][]float64, m)
	for i, k := range p.cons {
		c := sol.cons[k]
		row := cells[i*n : (i+1)*n]
		p.t[i] = row
		s := 0.0
		for _, t := range c.l.t {
			row[p.idx[t.v]] = float64(t.k)
			s += float64(t.k) * p.val[p.idx[t.v]]
		}
		p.basic[i] = n + i
		p.val[n+i] = s
		p.hi[n+i], p.hiX[n+i] = -fl(c.l.c), c.l.c.neg()
		p.lo[n+i] = math.Inf(-1)
		if c.eq {
			p.lo[n+i], p.loX[n+i] = p.hi[n+i], p.hiX[n+i]
		}
	}
}

func (p *lp) pivot(i, j int) {
	p.pivots++
	row := p.t[i]
	a := 1 / row[j]
	for k := range row {
		row[k] *= -a
	}
	row[j] = a
	for r, o := range p.t {
		if r == i {
			continue
		}
		f := o[j]
		if f == 0 {
			continue
		}
		o[j] = 0
		for k, x := range row {
			if x != 0 {
				o[k] += f * x
			}
		}
	}
	if f := p.rd[j]; f != 0 {
		p.rd[j] = 0
		for k, x := range row {
			if x != 0 {
				p.rd[k] += f * x
			}
		}
	}
	p.basic[i], p.nonb[j] = p.nonb[j], p.basic[i]
}

// shift changes a variable outside of the basis.
func (p *lp) shift(j int, d float64) {
	p.val[p.nonb[j]] += d
	for i, row := range p.t {
		if row[j] != 0 {
			p.val[p.basic[i]] += row[j] * d
		}
	}
}

func tol(b float64) float64 { return 1e-7 + 1e-13*math.Abs(b) }

func (p *lp) feasible() {
	for it := 0; it < 400; it++ {
		best := -1
		low := false
		for i, b := range p.basic {
			if best >= 0 && b > p.basic[best] {
				continue
			}
			v := p.val[b]
			if v < p.lo[b]-tol(p.lo[b]) {
				best, low = i, true
			} else if v > p.hi[b]+tol(p.hi[b]) {
				best, low = i, false
			}
		}
		if best < 0 {
			p.state = 1
			return
		}
		b := p.basic[best]
		want := p.hi[b]
		if low {
			want = p.lo[b]
		}
		ent := -1
		for j, x := range p.t[best] {
			if x > -lpEps && x < lpEps {
				continue
			}
			if ent >= 0 && p.nonb[j] > p.nonb[ent] {
				continue
			}
			k := p.nonb[j]
			if up := (x > 0) == low; up && p.val[k] < p.hi[k] || !up && p.val[k] > p.lo[k] {
				ent = j
			}
		}
		if ent < 0 {
			p.state = 2
			if b >= p.n {
				p.supp = append(p.supp, b-p.n)
			}
			for j, x := range p.t[best] {
				if (x < -lpEps || x > lpEps) && p.nonb[j] >= p.n {
					p.supp = append(p.supp, p.nonb[j]-p.n)
				}
			}
			return
		}
		p.shift(ent, (want-p.val[b])/p.t[best][ent])
		p.val[b] = want
		p.pivot(best, ent)
	}
	p.state = 3
}

type lpRes struct {
	ok   bool // not given up
	inf  bool // infeasible
	max  float64
	supp []int
	pt   map[Var]I128 // an integral point where the maximum is reached, or nil
}

// max maximises a linear form.
func (p *lp) max(sol *solved, obj map[Var]float64) (r lpRes) {
	if p.pivots > 300 {
		p.init(sol)
	}
	for j := range p.rd {
		p.rd[j] = 0
	}
	if p.state == 0 {
		p.feasible()
	}
	if p.state == 3 {
		return
	}
	if p.state == 2 {
		r.ok, r.inf, r.supp = true, true, p.supp
		return
	}
	for j := range p.obj {
		p.obj[j] = 0
	}
	for v, k := range obj {
		p.obj[p.idx[v]] = k
	}
	for j, k := range p.nonb {
		if k < p.n {
			p.rd[j] += p.obj[k]
		}
	}
	for i, b := range p.basic {
		if b < p.n && p.obj[b] != 0 {
			for j, x := range p.t[i] {
				p.rd[j] += p.obj[b] * x
			}
		}
	}
	for it := 0; ; it++ {
		if it > 300 {
			p.state = 0
			p.init(sol)
			return
		}
		ent, dir, bd := -1, 1.0, 0.0
		for j, d := range p.rd {
			k := p.nonb[j]
			if d > lpEps && p.val[k] < p.hi[k] || d < -lpEps && p.val[k] > p.lo[k] {
				if it > 60 { // Bland
					if ent < 0 || k < p.nonb[ent] {
						ent = j
					}
				} else if math.Abs(d) > bd {
					ent, bd = j, math.Abs(d)
				}
			}
		}
		if ent < 0 {
			break
		}
		if p.rd[ent] < 0 {
			dir = -1
		}
		k := p.nonb[ent]
		t, leave := math.Inf(1), -1
		if dir > 0 {
			t = p.hi[k] - p.val[k]
		} else {
			t = p.val[k] - p.lo[k]
		}
		for i, row := range p.t {
			a := row[ent] * dir
			b := p.basic[i]
			var lim float64
			if a > lpEps {
				lim = (p.hi[b] - p.val[b]) / a
			} else if a < -lpEps {
				lim = (p.lo[b] - p.val[b]) / a
			} else {
				continue
			}
			if lim < 0 {
				lim = 0
			}
			if lim < t || lim == t && leave >= 0 && b < p.basic[leave] {
				t, leave = lim, i
			}
		}
		if math.IsInf(t, 1) {
			r.ok, r.max = true, math.Inf(1)
			return
		}
		if leave < 0 {
			to := p.hi[k]
			if dir < 0 {
				to = p.lo[k]
			}
			p.shift(ent, t*dir)
			p.val[k] = to
			continue
		}
		b := p.basic[leave]
		to := p.hi[b]
		if p.t[leave][ent]*dir < 0 {
			to = p.lo[b]
		}
		p.shift(ent, t*dir)
		p.val[b] = to
		p.pivot(leave, ent)
	}
	r.ok = true
	for v, k := range obj {
		r.max += k * p.val[p.idx[v]]
	}
	for j, d := range p.rd {
		if (d > lpEps || d < -lpEps) && p.nonb[j] >= p.n {
			r.supp = append(r.supp, p.nonb[j]-p.n)
		}
	}
	r.pt = p.point(sol)
	return
}

// lpMax maximises l (its constant included) over all components it touches,
// and lists the constraints which take part in the bound.
func (sol *solved) lpMax(l *Lin) (r lpRes) {
	r.ok = true
	r.max = fl(l.c)
	r.pt = map[Var]I128{}
	objs := map[*lp]map[Var]float64{}
	var order []*lp
	for _, t := range l.t {
		k := float64(t.k)
		p := sol.component(t.v)
		if p == nil {
			lo, hi, hl, hh := boundsOf(t.v)
			switch {
			case k > 0 && hh:
				r.max += k * fl(hi)
				r.pt[t.v] = hi
			case k < 0 && hl:
				r.max += k * fl(lo)
				r.pt[t.v] = lo
			default:
				r.max = math.Inf(1)
			}
			continue
		}
		if objs[p] == nil {
			objs[p] = map[Var]float64{}
			order = append(order, p)
		}
		objs[p][t.v] = k
	}
	for _, p := range order {
		x := p.max(sol, objs[p])
		if !x.ok {
			return x
		}
		for _, i := range x.supp {
			r.supp = append(r.supp, p.cons[i])
		}
		if x.inf {
			r.inf = true
			return
		}
		r.max += x.max
		if x.pt == nil {
			r.pt = nil
		} else if r.pt != nil {
			for v, y := range x.pt {
				r.pt[v] = y
			}
		}
	}
	return
}

// component is the part of the system a variable belongs to.
func (sol *solved) component(v Var) *lp {
	if len(sol.by[v]) == 0 {
		return nil
	}
	if p := sol.comp[v]; p != nil {
		return p
	}
	if sol.comp == nil {
		sol.comp = map[Var]*lp{}
	}
	p := newLP(sol, sol.slice(linV(v)))
	for _, w := range p.vars {
		sol.comp[w] = p
	}
	return p
}

// point is the current vertex, computed exactly, if it is integral and
// satisfies all constraints.
func (p *lp) point(sol *solved) map[Var]I128 {
	exact := make([]I128, p.n+p.m)
	for _, k := range p.nonb {
		switch v := p.val[k]; {
		case v == p.lo[k]:
			exact[k] = p.loX[k]
		case v == p.hi[k]:
			exact[k] = p.hiX[k]
		case v == math.Trunc(v) && math.Abs(v) < 1e15:
			exact[k] = i128(int64(v))
		default:
			return nil
		}
	}
	out := make(map[Var]I128, p.n)
	for i, b := range p.basic {
		if b >= p.n {
			continue
		}
		s := i128(0)
		for j, x := range p.t[i] {
			if x > -lpEps && x < lpEps {
				continue
			}
			y := math.Round(x)
			if math.Abs(x-y) > 1e-6 || math.Abs(y) > 1e9 {
				return nil
			}
			d, ok := exact[p.nonb[j]].mul(int64(y))
			if ok {
				s, ok = s.add(d)
			}
			if !ok {
				return nil
			}
		}
		exact[b] = s
	}
	for i, v := range p.vars {
		x := exact[i]
		if p.lo[i] > math.Inf(-1) && x.cmp(p.loX[i]) < 0 || p.hi[i] < math.Inf(1) && x.cmp(p.hiX[i]) > 0 {
			return nil
		}
		out[v] = x
	}
	for _, k := range p.cons {
		c := sol.cons[k]
		x, ok := evalAt(c.l, out)
		if !ok || x.sign() > 0 || c.eq && x.sign() != 0 {
			return nil
		}
	}
	return out
}

func evalAt(l *Lin, at map[Var]I128) (I128, bool) {
	s := l.c
	for _, t := range l.t {
		x, ok := at[t.v]
		if !ok {
			return s, false
		}
		d, ok := x.mul(int64(t.k))
		if !ok {
			return s, false
		}
		if s, ok = s.add(d); !ok {
			return s, false
		}
	}
	return s, true
}
