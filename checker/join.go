package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path is one disjunct inside a function activation: an abstract state plus
// the live SSA registers and pending defers.
type Path struct {
	st     *State
	env    map[ssa.Value]Val
	defers []*deferred
}

type deferred struct {
	instr *ssa.Defer
	fn    Val
	args  []Val
	recv  Val
}

func (p *Path) clone() *Path {
	e := make(map[ssa.Value]Val, len(p.env))
	for k, v := range p.env {
		e[k] = v
	}
	return &Path{st: p.st.clone(), env: e, defers: append([]*deferred(nil), p.defers...)}
}

func sortedVals(env map[ssa.Value]Val) []ssa.Value {
	vs := make([]ssa.Value, 0, len(env))
	for v := range env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool {
		if vs[i].Name() != vs[j].Name() {
			return vs[i].Name() < vs[j].Name()
		}
		return vs[i].String() < vs[j].String()
	})
	return vs
}

// ---------------------------------------------------------------- reachability

type reachSet struct {
	objs  map[ObjID]bool
	vars  map[Var]bool
	terms map[*Term]bool
	todo  []ObjID
}

func newReach() *reachSet {
	return &reachSet{objs: map[ObjID]bool{}, vars: map[Var]bool{}, terms: map[*Term]bool{}}
}
func (r *reachSet) lin(l *Lin) {
	if l == nil {
		return
	}
	for _, t := range l.t {
		r.vars[t.v] = true
	}
}
func (r *reachSet) o(id ObjID) {
	if !r.objs[id] {
		r.objs[id] = true
		r.todo = append(r.todo, id)
	}
}
func (r *reachSet) val(v Val) {
	if v != nil {
		walkVal(v, r.lin, r.o, func(t *Term) { r.terms[t] = true })
	}
}
func (r *reachSet) close(st *State) {
	for len(r.todo) > 0 {
		id := r.todo[len(r.todo)-1]
		r.todo = r.todo[:len(r.todo)-1]
		if o := st.heap[id]; o != nil {
			walkObj(o, r.lin, r.o, func(t *Term) { r.terms[t] = true })
		}
	}
}

func (in *Interp) pathRoots(r *reachSet, p *Path, fr *Frame) {
	for _, v := range p.env {
		r.val(v)
	}
	for _, d := range p.defers {
		r.val(d.fn)
		r.val(d.recv)
		for _, a := range d.args {
			r.val(a)
		}
	}
	for _, v := range p.st.g {
		r.val(v)
	}
	for _, id := range in.globals {
		r.o(id)
	}
	for _, id := range in.kept {
		if p.st.hasObj(id) {
			r.o(id)
		}
	}
	for f := fr; f != nil; f = f.parent {
		for _, v := range f.pinned {
			r.val(v)
		}
	}
}

// lazyVars adds the constrained variables that name components of reachable
// values which have not been materialised.
func (r *reachSet) lazyVars(n *Num) {
	add := func(l *Lin) {
		for _, t := range l.t {
			if r.vars[t.v] {
				continue
			}
			vt := varTerm[t.v]
			if vt != nil && vt.mentions(func(x *Term) bool { return r.terms[x] }) {
				r.vars[t.v] = true
			}
		}
	}
	for _, c := range n.cons {
		add(c.l)
	}
	for _, l := range n.ne {
		add(l)
	}
}

// gc drops unreachable objects and projects dead variables.
func (in *Interp) gc(p *Path, fr *Frame) {
	r := newReach()
	in.pathRoots(r, p, fr)
	r.close(p.st)
	for id := range p.st.heap {
		if !r.objs[id] {
			delete(p.st.heap, id)
		}
	}
	r.lazyVars(p.st.num)
	p.st.num = p.st.num.project(r.vars)
}

// ---------------------------------------------------------------- join

type jvar struct {
	v     Var
	a, b  *Lin
	isNew bool
}

type joiner struct {
	in      *Interp
	a, b    *State
	out     *State
	linMemo map[string]*Lin
	jv      []*jvar
	usedA   map[Var]bool
	hv      map[Var]bool   // reusable head variables (loop join)
	ht      map[*Term]bool // reusable head terms
	usedT   map[*Term]bool
	objMemo map[[2]ObjID]ObjID
	mA, mB  map[ObjID]bool
	termMem map[[2]*Term]*Term
	tPairs  [][3]*Term
	queue   [][3]ObjID
	copyA   []ObjID
	copyB   []ObjID
	changed bool
	widen   bool
	typ     types.Type // of the value being joined, if known

	termsA, termsB func() map[*Term]bool
}

// lazyTerms gives the terms a path knows, found when first asked for.
func (in *Interp) lazyTerms(p *Path, fr *Frame, pin *reachSet) func() map[*Term]bool {
	var m map[*Term]bool
	return func() map[*Term]bool {
		if m == nil {
			r := newReach()
			in.pathRoots(r, p, fr)
			r.close(p.st)
			m = r.terms
			for t := range pin.terms {
				m[t] = true
			}
		}
		return m
	}
}

func (j *joiner) chg(f string, a ...interface{}) {
	j.changed = true
	if debugJoin && j.ht != nil {
		fmt.Fprintf(os.Stderr, "   join: "+f+"\n", a...)
	}
}

var debugJoin = os.Getenv("DEBUGJOIN") != ""

func (j *joiner) lin(a, b *Lin) *Lin {
	if a == nil || b == nil {
		if a != b {
			j.chg("nil lin")
		}
		return nil
	}
	if eqLin(a, b) {
		return a
	}
	k := a.key() + "~" + b.key()
	if l := j.linMemo[k]; l != nil {
		return l
	}
	var out *Lin
	if v, ok := a.singleVar(); ok && j.hv[v] && !j.usedA[v] && j.within(v, b) {
		j.usedA[v] = true
		j.jv = append(j.jv, &jvar{v: v, a: a, b: b})
		out = a
	} else {
		for _, x := range j.jv {
			d1, d2 := a.sub(x.a), b.sub(x.b)
			if d1 != nil && d2 != nil && eqLin(d1, d2) {
				// common offset; only sound when over common variables
				out = linV(x.v).add(d1)
				if out != nil {
					if v, ok := a.singleVar(); ok && j.hv[v] {
						_ = v
					}
					break
				}
			}
		}
		if out == nil {
			lo, hi, ok := j.hullBounds(a, b)
			var v Var
			if j.typ != nil {
				if l, h, isInt := intRange(j.typ); isInt {
					if !ok || l.cmp(lo) > 0 {
						lo = l
					}
					if !ok || h.cmp(hi) < 0 {
						hi = h
					}
					ok = true
				}
			}
			if ok {
				v = newVarRange("φ", lo, hi)
			} else {
				v = newVar("φ")
			}
			j.jv = append(j.jv, &jvar{v: v, a: a, b: b, isNew: true})
			out = linV(v)
		}
		if !eqLin(out, a) {
			if debugJoin {
				if v, ok := a.singleVar(); ok {
					lo, hi, hl, hh := boundsOf(v)
					j.chg("   hv=%v used=%v within=%v [%v %v %v %v]", j.hv[v], j.usedA[v], j.within(v, b), lo, hi, hl, hh)
				}
			}
			j.chg("lin %v ~ %v -> %v", a, b, out)
		}
	}
	j.linMemo[k] = out
	return out
}

// within: does b respect the static bounds of v?
func (j *joiner) within(v Var, b *Lin) bool {
	lo, hi, hl, hh := boundsOf(v)
	if hl && !j.b.num.le(combine(linB(lo), 1, b, -1)) {
		return false
	}
	return !hh || j.b.num.le(combine(b, 1, linB(hi), -1))
}

// hullBounds gives static bounds of a joint variable from type-level bounds.
func (j *joiner) hullBounds(a, b *Lin) (I128, I128, bool) {
	h1, o1 := maxByBounds(a)
	h2, o2 := maxByBounds(b)
	na, nb := a.neg(), b.neg()
	if na == nil || nb == nil {
		return I128{}, I128{}, false
	}
	l1, o3 := maxByBounds(na)
	l2, o4 := maxByBounds(nb)
	if !(o1 && o2 && o3 && o4) {
		return I128{}, I128{}, false
	}
	if j.widen || j.hv != nil {
		// widen to a coarse static range so that bounds do not creep
		h := h1
		if h2.cmp(h) > 0 {
			h = h2
		}
		l := l1.neg()
		if l2.neg().cmp(l) < 0 {
			l = l2.neg()
		}
		l, h = widenLo(l), widenHi(h)
		return l, h, l.cmp(loThr[len(loThr)-1]) >= 0 && h.cmp(hiThr[len(hiThr)-1]) <= 0
	}
	h := h1
	if h2.cmp(h) > 0 {
		h = h2
	}
	l := l1.neg()
	if l2.neg().cmp(l) < 0 {
		l = l2.neg()
	}
	return l, h, true
}

var loThr, hiThr []I128

func init() {
	m := i128(-1 << 63)
	mm, _ := m.mul(1 << 20)
	loThr = []I128{i128(0), i128(-1), m, mm}
	h := u128(1<<64 - 1)
	hh, _ := h.mul(1 << 20)
	hiThr = []I128{i128(0), i128(maxLen), i128(1<<63 - 1), h, hh}
}
func widenLo(l I128) I128 {
	for _, t := range loThr {
		if l.cmp(t) >= 0 {
			return t
		}
	}
	return l
}
func widenHi(h I128) I128 {
	for _, t := range hiThr {
		if h.cmp(t) <= 0 {
			return t
		}
	}
	return h
}

func (j *joiner) term(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a == nil || b == nil {
		j.chg("term nil")
		if a == nil {
			return freshTerm("φt")
		}
		return freshTerm("φt")
	}
	k := [2]*Term{a, b}
	if t := j.termMem[k]; t != nil {
		return t
	}
	var t *Term
	if j.ht[a] && !j.usedT[a] {
		j.usedT[a] = true
		t = a
	} else {
		t = freshTerm("φt")
		j.chg("term %v ~ %v", a, b)
	}
	j.termMem[k] = t
	j.tPairs = append(j.tPairs, [3]*Term{t, a, b})
	return t
}

func typeEq(a, b types.Type) bool {
	if a == nil || b == nil {
		return a == b
	}
	return types.Identical(a, b)
}

// obj pairs two objects; ok=false when they must stay distinct alternatives.
func (j *joiner) obj(a, b ObjID) (ObjID, bool) {
	if a == b {
		j.pairObj(a, a, a)
		return a, true
	}
	if r, ok := j.objMemo[[2]ObjID{a, b}]; ok {
		return r, true
	}
	if j.b.heap[a] != nil || j.a.heap[b] != nil || j.mA[a] || j.mB[b] {
		return 0, false
	}
	oa, ob := j.a.obj(a), j.b.obj(b)
	if oa.kind != ob.kind || !typeEq(oa.typ, ob.typ) {
		return 0, false
	}
	o := a
	if _, isSym := symObjs[a]; isSym {
		o = newObjID()
		j.chg("symbolic object joined")
	}
	j.objMemo[[2]ObjID{a, b}] = o
	j.mA[a] = true
	j.mB[b] = true
	j.queue = append(j.queue, [3]ObjID{o, a, b})
	return o, true
}
func (j *joiner) pairObj(o, a, b ObjID) {
	k := [2]ObjID{a, b}
	if _, ok := j.objMemo[k]; ok {
		return
	}
	j.objMemo[k] = o
	j.mA[a] = true
	j.mB[b] = true
	j.queue = append(j.queue, [3]ObjID{o, a, b})
}

func alts(v Val) []Val {
	if a, ok := v.(VAlt); ok {
		return a.A
	}
	return []Val{v}
}

func (j *joiner) val(a, b Val) Val {
	if a == nil || b == nil {
		if a != b {
			j.chg("nil val")
		}
		return nil
	}
	if r, ok := j.try(a, b); ok {
		return r
	}
	if x, ok := a.(VOpaque); ok && j.hv != nil {
		j.retainB(b)
		return VOpaque{j.term(x.T, freshTerm("any")), x.typ}
	}
	A, B := alts(a), alts(b)
	out := make([]Val, len(A))
	copy(out, A)
	done := make([]bool, len(A))
	for _, y := range B {
		hit := false
		// first pass: identical pointers/kinds
		for pass := 0; pass < 2 && !hit; pass++ {
			for i := range out {
				if i < len(done) && done[i] {
					continue
				}
				if pass == 0 && !sameID(out[i], y) {
					continue
				}
				if i >= len(A) {
					continue
				}
				if r, ok := j.try(A[i], y); ok {
					out[i] = r
					done[i] = true
					hit = true
					break
				}
			}
		}
		if !hit {
			// may join with an already joined alternative of the same kind
			dup := false
			for i := range out {
				if sameID(out[i], y) {
					dup = true
					break
				}
			}
			if dup {
				continue
			}
			j.chg("alt grows by %s (from %s)", valString(y), valString(a))
			out = append(out, y)
			j.retainB(y)
		}
	}
	for i := range A {
		if !done[i] {
			j.retainA(A[i])
		}
	}
	if len(out) > 8 {
		j.chg("alt too big")
		return VOpaque{freshTerm("altwide"), nil}
	}
	if len(out) == 1 {
		return out[0]
	}
	return VAlt{out}
}

func sameID(a, b Val) bool {
	switch x := a.(type) {
	case VPtr:
		y, ok := b.(VPtr)
		return ok && x.Obj == y.Obj && len(x.Path) == len(y.Path)
	case VNil:
		_, ok := b.(VNil)
		return ok
	case VIface:
		y, ok := b.(VIface)
		if !ok {
			return false
		}
		if x.Dyn == nil || y.Dyn == nil {
			return x.Dyn == nil && y.Dyn == nil && x.T == y.T
		}
		return types.Identical(x.Dyn, y.Dyn) && sameID(x.V, y.V)
	case VFunc:
		y, ok := b.(VFunc)
		return ok && x.Fn == y.Fn
	case VBool:
		y, ok := b.(VBool)
		return ok && x.P.key() == y.P.key()
	}
	return false
}

func (j *joiner) retainA(v Val) {
	walkVal(v, func(*Lin) {}, func(o ObjID) { j.copyA = append(j.copyA, o) }, nil)
}
func (j *joiner) retainB(v Val) {
	walkVal(v, func(*Lin) {}, func(o ObjID) { j.copyB = append(j.copyB, o) }, nil)
}

// try joins structurally compatible values.
func (j *joiner) try(a, b Val) (Val, bool) {
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			return VInt{j.lin(x.L, y.L)}, true
		}
	case VBool:
		if y, ok := b.(VBool); ok {
			if x.P.key() == y.P.key() {
				return x, true
			}
			return VBool{j.pred(x.P, y.P)}, true
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			if x.Const != nil && y.Const != nil && *x.Const == *y.Const {
				return x, true
			}
			return VStr{T: j.term(x.T, y.T), Len: j.lin(x.Len, y.Len)}, true
		}
	case VNil:
		if _, ok := b.(VNil); ok {
			return x, true
		}
	case VOpaque:
		if y, ok := b.(VOpaque); ok {
			return VOpaque{j.term(x.T, y.T), x.typ}, true
		}
	case VSlice:
		y, ok := b.(VSlice)
		if !ok {
			return nil, false
		}
		out := VSlice{Off: j.lin(x.Off, y.Off), Len: j.lin(x.Len, y.Len), Cap: j.lin(x.Cap, y.Cap)}
		if x.nilK == 1 && y.nilK == 1 {
			out.nilK = 1
		} else if x.nilK == y.nilK && x.nilK == 0 {
			out.nilK = 0
		} else {
			out.nilK = 2
			ta, tb := x.T, y.T
			if x.nilK != 2 {
				ta = tm("nilness" + strconv.Itoa(int(x.nilK)))
			}
			if y.nilK != 2 {
				tb = tm("nilness" + strconv.Itoa(int(y.nilK)))
			}
			out.T = j.term(ta, tb)
			if x.nilK != 2 {
				j.chg("slice nilness")
			}
		}
		out.R = j.regions(x.R, y.R)
		return out, true
	case VPtr:
		y, ok := b.(VPtr)
		if !ok || len(x.Path) != len(y.Path) || (x.Idx == nil) != (y.Idx == nil) {
			return nil, false
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return nil, false
			}
		}
		o, ok := j.obj(x.Obj, y.Obj)
		if !ok {
			return nil, false
		}
		out := VPtr{Obj: o, Path: x.Path}
		if x.Idx != nil {
			out.Idx = j.lin(x.Idx, y.Idx)
		}
		if x.T != nil || y.T != nil {
			ta, tb := x.T, y.T
			if ta == nil {
				ta = tm("nilness0")
			}
			if tb == nil {
				tb = tm("nilness0")
			}
			out.T = j.term(ta, tb)
		}
		return out, true
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.F) != len(y.F) {
			return nil, false
		}
		out := VStruct{F: make([]Val, len(x.F)), typ: x.typ}
		if x.T == y.T && x.T != nil {
			out.T = x.T
		}
		for i := range x.F {
			if x.F[i] == nil && y.F[i] == nil {
				if x.T == y.T {
					continue
				}
				if out.T == nil {
					out.T = j.term(x.T, y.T)
				}
				continue
			}
			out.F[i] = j.val(x.field(i), y.field(i))
		}
		if out.T == nil {
			for i := range out.F {
				if out.F[i] == nil {
					out.T = j.term(x.T, y.T)
					break
				}
			}
		}
		return out, true
	case VIface:
		y, ok := b.(VIface)
		if !ok {
			return nil, false
		}
		if (x.Dyn == nil) != (y.Dyn == nil) {
			return nil, false
		}
		if x.Dyn == nil {
			return VIface{T: j.term(x.T, y.T)}, true
		}
		if !types.Identical(x.Dyn, y.Dyn) {
			return nil, false
		}
		v, ok := j.try(x.V, y.V)
		if !ok {
			return nil, false
		}
		return VIface{Dyn: x.Dyn, V: v}, true
	case VFunc:
		y, ok := b.(VFunc)
		if !ok || x.Fn != y.Fn || len(x.Bind) != len(y.Bind) {
			return nil, false
		}
		out := VFunc{Fn: x.Fn, Bind: make([]Val, len(x.Bind))}
		for i := range x.Bind {
			out.Bind[i] = j.val(x.Bind[i], y.Bind[i])
		}
		return out, true
	case VTuple:
		y, ok := b.(VTuple)
		if !ok || len(x.E) != len(y.E) {
			return nil, false
		}
		out := VTuple{E: make([]Val, len(x.E))}
		for i := range x.E {
			out.E[i] = j.val(x.E[i], y.E[i])
		}
		return out, true
	}
	return nil, false
}

func (j *joiner) pred(a, b *Pred) *Pred {
	if a.k == b.k {
		switch a.k {
		case pLe:
			return pLE(j.lin(a.l, b.l))
		case pEq:
			return pEQ(j.lin(a.l, b.l))
		case pNot:
			return pNOT(j.pred(a.a, b.a))
		}
	}
	j.chg("pred %s ~ %s", a.key(), b.key())
	return pATOM(freshTerm("φb").op)
}

func (j *joiner) regions(A, B []ObjID) []ObjID {
	out := append([]ObjID(nil), A...)
	used := map[int]bool{}
	var rest []ObjID
	for _, y := range B {
		hit := false
		for i, x := range A {
			if x == y && !used[i] {
				j.pairObj(x, x, x)
				used[i] = true
				hit = true
				break
			}
		}
		if !hit {
			rest = append(rest, y)
		}
	}
	for _, y := range rest {
		hit := false
		for i, x := range A {
			if used[i] {
				continue
			}
			if o, ok := j.obj(x, y); ok {
				out[i] = o
				used[i] = true
				hit = true
				break
			}
		}
		if !hit {
			// a region already merged into one of ours?
			for i, x := range A {
				if r, ok := j.objMemo[[2]ObjID{x, y}]; ok && r == out[i] {
					hit = true
					break
				}
			}
		}
		if !hit {
			dup := false
			for _, x := range out {
				if x == y {
					dup = true
				}
			}
			if top := topRegion(j.b.obj(y).typ); !dup && j.hv != nil && (len(out) > 12 || hasObjID(out, top)) {
				// too many allocations to keep apart: one stands for the rest
				n := j.b.obj(y).copy()
				n.written, n.cells, n.n, n.zero = true, nil, nil, false
				j.b.heap[y] = n
				y = top
				dup = hasObjID(out, top)
				j.b.mut(top).written = true
			}
			if !dup {
				j.chg("region set grows %v + %d", A, y)
				out = append(out, y)
				j.copyB = append(j.copyB, y)
			}
		}
	}
	for i, x := range A {
		if !used[i] {
			j.copyA = append(j.copyA, x)
		}
	}
	sort.Slice(out, func(i, k int) bool { return out[i] < out[k] })
	return out
}

var topTerms = map[string]*Term{}

func topRegion(t types.Type) ObjID {
	k := t.String()
	if topTerms[k] == nil {
		topTerms[k] = freshTerm("anyregion")
	}
	return symObjID(oRegion, t, topTerms[k])
}
func hasObjID(s []ObjID, x ObjID) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

func joinShape(a, b *Shape, chg *bool) *Shape {
	if a == nil || b == nil {
		if b != nil && a == nil {
			*chg = true
			return b
		}
		return a
	}
	out := &Shape{any: a.any || b.any, maybe0: a.maybe0 || b.maybe0}
	if out.any != a.any || out.maybe0 != a.maybe0 {
		*chg = true
	}
	out.fns = append(out.fns, a.fns...)
	for _, f := range b.fns {
		has := false
		for _, g := range out.fns {
			if f == g {
				has = true
			}
		}
		if !has {
			out.fns = append(out.fns, f)
			*chg = true
		}
	}
	out.dyns = append(out.dyns, a.dyns...)
	for _, f := range b.dyns {
		has := false
		for _, g := range out.dyns {
			if types.Identical(f, g) {
				has = true
			}
		}
		if !has {
			out.dyns = append(out.dyns, f)
			*chg = true
		}
	}
	if len(a.fields) == len(b.fields) {
		for i := range a.fields {
			out.fields = append(out.fields, joinShape(a.fields[i], b.fields[i], chg))
		}
	} else {
		out.any = true
	}
	return out
}

func (j *joiner) content(o, a, b ObjID) {
	oa, ob := j.a.obj(a), j.b.obj(b)
	if oa == ob {
		j.out.heap[o] = oa
		// nested ids are identities
		walkObj(oa, func(*Lin) {}, func(x ObjID) {
			if j.a.hasObj(x) && j.b.hasObj(x) {
				j.pairObj(x, x, x)
			}
		}, nil)
		return
	}
	n := oa.copy()
	mat := false
	if oa.sym != ob.sym {
		switch {
		case oa.kind == oCell && oa.val == nil && ob.val == nil && oa.sym != nil && ob.sym != nil:
			n.sym = j.term(oa.sym, ob.sym)
		case oa.kind == oCell:
			mat = true
		case oa.written:
			// content no longer derives from sym
		case !ob.written && oa.sym != nil && ob.sym != nil:
			n.sym = j.term(oa.sym, ob.sym)
		default:
			n.written = true
			j.chg("content unknown")
		}
	}
	if oa.val != nil || ob.val != nil || mat {
		va, vb := oa.val, ob.val
		if va == nil {
			va = cellInit(oa)
		}
		if vb == nil {
			vb = cellInit(ob)
		}
		n.val = j.val(va, vb)
	}
	if oa.written != ob.written {
		n.written = true
		if !oa.written {
			j.chg("written")
		}
	}
	if oa.zero != ob.zero {
		n.zero = false
		if oa.zero {
			j.chg("zero")
		}
	}
	n.shape = oa.shape
	if oa.shape != ob.shape {
		c := false
		n.shape = joinShape(oa.shape, ob.shape, &c)
		if c {
			j.chg("shape")
		}
	}
	if oa.n != nil && ob.n != nil {
		n.n = j.lin(oa.n, ob.n)
	} else {
		n.n = nil
	}
	if len(oa.aux) > 0 || len(ob.aux) > 0 {
		n.aux = map[string]Val{}
		for _, k := range sortedKeys(oa.aux) {
			if y, ok := ob.aux[k]; ok {
				n.aux[k] = j.val(oa.aux[k], y)
			} else {
				j.chg("aux")
			}
		}
	}
	n.cells = nil
	j.out.heap[o] = n
}

func cellInit(o *Obj) Val {
	if o.val != nil {
		return o.val
	}
	if o.sym != nil {
		return symVal(o.typ, o.sym)
	}
	return zeroVal(o.typ)
}

// cells pairs indexed content facts through already paired indices.
func (j *joiner) joinCells(o, a, b ObjID) {
	oa, ob := j.a.obj(a), j.b.obj(b)
	n := j.out.heap[o]
	if oa == ob || len(oa.cells) == 0 {
		return
	}
	n = n.copy()
	used := map[int]bool{}
	for _, ca := range oa.cells {
		hit := -1
		var idx *Lin
		for k, cb := range ob.cells {
			if used[k] {
				continue
			}
			if eqLin(ca.idx, cb.idx) {
				hit, idx = k, ca.idx
				break
			}
		}
		if hit < 0 {
		search:
			for k, cb := range ob.cells {
				if used[k] {
					continue
				}
				for _, x := range j.jv {
					d1, d2 := ca.idx.sub(x.a), cb.idx.sub(x.b)
					if d1 != nil && d2 != nil && eqLin(d1, d2) {
						hit, idx = k, linV(x.v).add(d1)
						break search
					}
				}
				// two joint variables, e.g. off+len-1
				for xi, x := range j.jv {
					for _, y := range j.jv[xi+1:] {
						s1 := ca.idx.sub(x.a)
						s2 := cb.idx.sub(x.b)
						if s1 == nil || s2 == nil {
							continue
						}
						s1, s2 = s1.sub(y.a), s2.sub(y.b)
						if s1 != nil && s2 != nil && eqLin(s1, s2) {
							hit, idx = k, linV(x.v).add(linV(y.v)).add(s1)
							break search
						}
					}
				}
			}
		}
		if hit < 0 {
			j.chg("cell dropped %v", ca.idx)
			continue
		}
		used[hit] = true
		if !eqLin(idx, ca.idx) {
			j.chg("cell idx")
		}
		n.cells = append(n.cells, Cell{idx, j.val(ca.v, ob.cells[hit].v)})
	}
	j.out.heap[o] = n
}

// retained copies one-sided reachable objects.
func (j *joiner) retain(src *State, ids []ObjID) {
	r := newReach()
	for _, id := range ids {
		r.o(id)
	}
	r.close(src)
	for id := range r.objs {
		if j.out.heap[id] == nil && src.heap[id] != nil {
			j.out.heap[id] = src.heap[id]
		}
	}
}

type loopNames struct {
	hv   map[Var]bool
	ht   map[*Term]bool
	objs map[ObjID]bool
}

// joinPaths joins b into a. For loop joins, names carries the head's own
// names, which may be reused for joint values.
func (in *Interp) joinPaths(a, b *Path, fr *Frame, live []ssa.Value, names *loopNames, widen bool) (*Path, bool) {
	in.nJoins++
	j := &joiner{in: in, a: a.st, b: b.st, linMemo: map[string]*Lin{}, usedA: map[Var]bool{},
		usedT: map[*Term]bool{}, objMemo: map[[2]ObjID]ObjID{}, mA: map[ObjID]bool{}, mB: map[ObjID]bool{},
		termMem: map[[2]*Term]*Term{}, widen: widen}
	if names != nil {
		j.hv, j.ht = names.hv, names.ht
	}
	j.out = &State{heap: map[ObjID]*Obj{}, facts: map[string]bool{}, g: map[string]Val{}, d: map[string]string{}}
	// pinned roots are identities
	pin := newReach()
	for f := fr; f != nil; f = f.parent {
		for _, v := range f.pinned {
			pin.val(v)
		}
	}
	for _, id := range in.globals {
		pin.o(id)
	}
	for _, id := range in.kept {
		if a.st.hasObj(id) && b.st.hasObj(id) {
			pin.o(id)
		}
	}
	pinIDs := make([]ObjID, 0, len(pin.objs))
	for id := range pin.objs {
		pinIDs = append(pinIDs, id)
	}
	sort.Slice(pinIDs, func(x, y int) bool { return pinIDs[x] < pinIDs[y] })
	for _, id := range pinIDs {
		if j.a.hasObj(id) && j.b.hasObj(id) {
			j.pairObj(id, id, id)
		}
	}
	out := &Path{st: j.out, env: map[ssa.Value]Val{}}
	for _, v := range live {
		x, y := a.env[v], b.env[v]
		if x == nil && y == nil {
			continue
		}
		if x == nil || y == nil {
			j.chg("env %s one-sided", v.Name())
			continue
		}
		if j.in.exact {
			j.typ = v.Type()
		}
		out.env[v] = j.val(x, y)
		j.typ = nil
	}
	// ghosts
	for _, k := range sortedKeys(a.st.g) {
		if y, ok := b.st.g[k]; ok {
			out.st.g[k] = j.val(a.st.g[k], y)
		} else {
			j.chg("ghost %s", k)
		}
	}
	for k, v := range a.st.d {
		out.st.d[k] = v
	}
	// defers (same list by Sig)
	for i, d := range a.defers {
		e := b.defers[i]
		nd := &deferred{instr: d.instr}
		if d.fn != nil {
			nd.fn = j.val(d.fn, e.fn)
		}
		if d.recv != nil {
			nd.recv = j.val(d.recv, e.recv)
		}
		for k := range d.args {
			nd.args = append(nd.args, j.val(d.args[k], e.args[k]))
		}
		out.defers = append(out.defers, nd)
	}
	var order [][3]ObjID
	for len(j.queue) > 0 {
		q := j.queue[0]
		j.queue = j.queue[1:]
		j.content(q[0], q[1], q[2])
		order = append(order, q)
	}
	for i := 0; i < len(order); i++ {
		q := order[i]
		j.joinCells(q[0], q[1], q[2])
		for len(j.queue) > 0 {
			q := j.queue[0]
			j.queue = j.queue[1:]
			j.content(q[0], q[1], q[2])
			order = append(order, q)
		}
	}
	j.retain(a.st, j.copyA)
	j.retain(b.st, j.copyB)
	// facts
	for k, v := range a.st.facts {
		if w, ok := b.st.facts[k]; ok && w == v {
			j.out.facts[k] = v
		}
	}
	for _, t := range j.tPairs {
		na, oka := factNil(a.st, t[1])
		nb, okb := factNil(b.st, t[2])
		delete(j.out.facts, nilKey(t[0]))
		if oka && okb && na == nb {
			j.out.facts[nilKey(t[0])] = na
		}
	}
	for k, v := range a.st.facts {
		if w, ok := j.out.facts[k]; !ok || w != v {
			if in.factRelevant(k) {
				j.chg("fact %s", k)
			}
		}
	}
	// numeric part
	r := newReach()
	r.vars, r.terms = pin.vars, pin.terms
	in.pathRoots(r, out, fr)
	r.close(j.out)
	for id := range j.out.heap {
		if !r.objs[id] {
			delete(j.out.heap, id)
		}
	}
	r.lazyVars(j.a.num)
	r.lazyVars(j.b.num)
	j.termsA = in.lazyTerms(a, fr, pin)
	j.termsB = in.lazyTerms(b, fr, pin)
	j.numeric(r.vars)
	return out, j.changed
}

func (in *Interp) factRelevant(k string) bool { return true }

func factNil(st *State, t *Term) (bool, bool) {
	switch t.op {
	case "nilness0":
		return false, true
	case "nilness1":
		return true, true
	}
	b, ok := st.facts[nilKey(t)]
	return b, ok
}

func (j *joiner) numeric(keep map[Var]bool) {
	joint := map[Var]*jvar{}
	var jvs []*jvar
	for _, x := range j.jv {
		if keep[x.v] {
			joint[x.v] = x
			jvs = append(jvs, x)
		}
	}
	side := func(n *Num, f func(*jvar) *Lin) *Num {
		out := &Num{cons: append([]Con(nil), n.cons...), ne: n.ne}
		for _, x := range jvs {
			l := f(x)
			if v, ok := l.singleVar(); ok && v == x.v {
				continue
			}
			d := linV(x.v).sub(l)
			if d != nil {
				out = out.addCon(d, true)
			}
		}
		return out.project(keep)
	}
	A := side(j.a.num, func(x *jvar) *Lin { return x.a })
	B := side(j.b.num, func(x *jvar) *Lin { return x.b })
	inA, inB := map[Var]bool{}, map[Var]bool{}
	mark := func(m map[Var]bool, s *State) {
		for _, c := range s.num.cons {
			for _, t := range c.l.t {
				m[t.v] = true
			}
		}
		for _, o := range s.heap {
			walkObj(o, func(l *Lin) {
				for _, t := range l.t {
					m[t.v] = true
				}
			}, func(ObjID) {}, nil)
		}
	}
	mark(inA, j.a)
	mark(inB, j.b)
	// only: does l speak about nothing the other side could speak about?
	only := func(l *Lin, other map[Var]bool, terms func() map[*Term]bool) bool {
		for _, t := range l.t {
			if other[t.v] || joint[t.v] != nil {
				return false
			}
			// a value which is looked up when it is needed
			if vt := varTerm[t.v]; vt != nil && vt.mentions(func(x *Term) bool { return terms()[x] }) {
				return false
			}
		}
		return true
	}
	out := emptyNum
	var lost []*Lin
	for _, c := range A.cons {
		if B.le(c.l) && (!c.eq || B.le(c.l.neg())) {
			out = out.addCon(c.l, c.eq)
			continue
		}
		if only(c.l, inB, j.termsB) {
			out = out.addCon(c.l, c.eq)
			continue
		}
		j.chg("con lost %v", c)
		lost = append(lost, c.l)
		if c.eq {
			if B.le(c.l) {
				out = out.addCon(c.l, false)
			} else if n := c.l.neg(); B.le(n) {
				out = out.addCon(n, false)
			}
		}
	}
	for _, x := range A.ne {
		if B.ne0(x) || only(x, inB, j.termsB) {
			out = out.addNe(x)
		} else {
			j.chg("ne lost %v", x)
		}
	}
	for _, c := range B.cons {
		if only(c.l, inA, j.termsA) {
			out = out.addCon(c.l, c.eq)
			continue
		}
		if j.widen && !j.hasNew(c.l, joint) {
			continue
		}
		if A.le(c.l) && (!c.eq || A.le(c.l.neg())) {
			out = out.addCon(c.l, c.eq)
		} else if c.eq {
			if A.le(c.l) {
				out = out.addCon(c.l, false)
			} else if n := c.l.neg(); A.le(n) {
				out = out.addCon(n, false)
			}
		}
	}
	for _, x := range B.ne {
		if A.ne0(x) {
			out = out.addNe(x)
		}
	}
	// equalities between pairs of joint variables (sum and difference)
	for i, x := range jvs {
		for _, y := range jvs[i+1:] {
			if j.widen && !x.isNew && !y.isNew {
				continue
			}
			s1, s2 := x.a.add(y.a), x.b.add(y.b)
			if s1 != nil && s2 != nil && eqLin(s1, s2) && allIn(s1, keep) {
				out = out.addCon(linV(x.v).add(linV(y.v)).sub(s1), true)
			}
		}
	}
	// templates for new joint variables: own bounds and differences with the
	// variables they were built from first, then with other related ones
	try := func(c *Lin) {
		u1, ok := A.upper(c)
		if !ok {
			return
		}
		u2, ok := B.upper(c)
		if !ok {
			return
		}
		if u2.cmp(u1) > 0 {
			u1 = u2
		}
		l := combine(c, 1, linB(u1), -1)
		if l != nil && !impliedByBounds(l) && useful(l) && !out.le(l) {
			out = out.addCon(l, false)
		}
	}
	seen := map[string]bool{}
	diff := func(x *jvar, rel map[Var]bool, budget *int) {
		rs := make([]Var, 0, len(rel))
		for v := range rel {
			if v != x.v {
				rs = append(rs, v)
			}
		}
		sort.Slice(rs, func(a, b int) bool { return rs[a] < rs[b] })
		for _, v := range rs {
			d := linV(x.v).sub(linV(v))
			for _, c := range []*Lin{d, d.neg()} {
				if seen[c.key()] || *budget <= 0 {
					continue
				}
				seen[c.key()] = true
				*budget--
				try(c)
			}
		}
	}
	b1, b2 := 80, 30
	for _, x := range jvs {
		if !x.isNew {
			continue
		}
		try(linV(x.v))
		try(linV(x.v).neg())
		rel := map[Var]bool{}
		addRel := func(l *Lin) {
			for _, t := range l.t {
				if keep[t.v] {
					rel[t.v] = true
				}
			}
		}
		addRel(x.a)
		addRel(x.b)
		for _, y := range jvs {
			if y != x && (shareVar(y.a, x.a) || shareVar(y.b, x.b)) {
				rel[y.v] = true
			}
		}
		diff(x, rel, &b1)
	}
	for _, x := range jvs {
		if !x.isNew || b2 <= 0 {
			continue
		}
		rel := map[Var]bool{}
		for _, y := range jvs {
			if y != x {
				rel[y.v] = true
			}
		}
		for _, n := range []*Num{A, B} {
			for _, c := range n.cons {
				if c.l.coef(x.v) != 0 && len(c.l.t) <= 3 {
					for _, t := range c.l.t {
						if keep[t.v] {
							rel[t.v] = true
						}
					}
				}
			}
		}
		diff(x, rel, &b2)
	}
	// a bound that is lost may have implied a relation which still holds
	if j.hv != nil && len(lost) > 0 {
		rel := map[Var]bool{}
		for _, c := range A.cons {
			if len(c.l.t) <= 2 {
				for _, t := range c.l.t {
					if keep[t.v] {
						rel[t.v] = true
					}
				}
			}
		}
		rs := make([]Var, 0, len(rel))
		for v := range rel {
			rs = append(rs, v)
		}
		sort.Slice(rs, func(a, b int) bool { return rs[a] < rs[b] })
		b3 := 60
		done := map[Var]bool{}
		for _, c := range lost {
			if len(c.t) > 1 {
				continue
			}
			for _, t := range c.t {
				if done[t.v] || !isLoopVar(t.v, jvs) {
					continue
				}
				done[t.v] = true
				for _, v := range rs {
					if v == t.v || b3 <= 0 {
						continue
					}
					d := linV(t.v).sub(linV(v))
					if t.k < 0 {
						d = d.neg()
					}
					b3--
					u1, ok := A.upper(d)
					if !ok {
						continue
					}
					l := combine(d, 1, linB(u1), -1)
					if l != nil && !impliedByBounds(l) && useful(l) && B.le(l) && !out.le(l) {
						out = out.addCon(l, false)
					}
				}
			}
		}
	}
	j.out.num = out
}

func (j *joiner) hasNew(l *Lin, joint map[Var]*jvar) bool {
	for _, t := range l.t {
		if x := joint[t.v]; x != nil && x.isNew {
			return true
		}
	}
	return false
}
func allIn(l *Lin, m map[Var]bool) bool {
	for _, t := range l.t {
		if !m[t.v] {
			return false
		}
	}
	return true
}

// renameHead gives the head's own names fresh identities for one body pass.
func (in *Interp) renameHead(p *Path, names *loopNames) *Path {
	m := &substMap{lin: map[Var]*Lin{}, obj: map[ObjID]ObjID{}, term: map[*Term]*Term{}}
	hv := make([]Var, 0, len(names.hv))
	for v := range names.hv {
		hv = append(hv, v)
	}
	sort.Slice(hv, func(a, b int) bool { return hv[a] < hv[b] })
	for _, v := range hv {
		i := vars[v]
		vars = append(vars, i)
		m.lin[v] = linV(Var(len(vars) - 1))
	}
	obs := make([]ObjID, 0, len(names.objs))
	for o := range names.objs {
		obs = append(obs, o)
	}
	sort.Slice(obs, func(a, b int) bool { return obs[a] < obs[b] })
	for _, o := range obs {
		m.obj[o] = newObjID()
	}
	hts := make([]*Term, 0, len(names.ht))
	for t := range names.ht {
		hts = append(hts, t)
	}
	sort.Slice(hts, func(a, b int) bool { return hts[a].String() < hts[b].String() })
	for _, t := range hts {
		m.term[t] = freshTerm(strings.TrimRight(t.op, "'0123456789"))
	}
	q := &Path{st: m.state(p.st), env: make(map[ssa.Value]Val, len(p.env))}
	for k, v := range p.env {
		q.env[k] = m.v(v)
	}
	for _, d := range p.defers {
		nd := &deferred{instr: d.instr}
		if d.fn != nil {
			nd.fn = m.v(d.fn)
		}
		if d.recv != nil {
			nd.recv = m.v(d.recv)
		}
		for _, a := range d.args {
			nd.args = append(nd.args, m.v(a))
		}
		q.defers = append(q.defers, nd)
	}
	return q
}

func isLoopVar(v Var, jvs []*jvar) bool {
	for _, x := range jvs {
		if x.v == v {
			return true
		}
	}
	return false
}
