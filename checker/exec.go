package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// splitOps forks a path so that the named operands hold no alternatives and
// slices designate a single region.
func (in *Interp) splitOps(ps []*Path, vs ...ssa.Value) []*Path {
	for _, v := range vs {
		if v == nil || !trackable(v) {
			continue
		}
		var out []*Path
		for _, p := range ps {
			x := in.get(p, v)
			as := flatAlts(x)
			if len(as) == 1 {
				p.env[v] = as[0]
				out = append(out, p)
				continue
			}
			for i, a := range as {
				q := p
				if i < len(as)-1 {
					q = p.clone()
				}
				q.env[v] = a
				out = append(out, q)
			}
		}
		ps = out
	}
	return ps
}

func flatAlts(v Val) []Val {
	switch x := v.(type) {
	case VAlt:
		var out []Val
		for _, a := range x.A {
			out = append(out, flatAlts(a)...)
		}
		return out
	case VSlice:
		if len(x.R) > 1 {
			var out []Val
			for _, r := range x.R {
				y := x
				y.R = []ObjID{r}
				out = append(out, y)
			}
			return out
		}
	case VIface:
		if x.Dyn != nil {
			as := flatAlts(x.V)
			if len(as) > 1 {
				var out []Val
				for _, a := range as {
					out = append(out, VIface{Dyn: x.Dyn, V: a})
				}
				return out
			}
		}
	}
	return []Val{v}
}

func single(p *Path, v ssa.Value, x Val) []*Path {
	p.env[v] = x
	return []*Path{p}
}

// require checks a run-time safety condition and continues where it holds.
func (in *Interp) require(fr *Frame, p *Path, ins ssa.Instruction, what string, cond ...*Lin) bool {
	ok := true
	for _, c := range cond {
		if !p.st.num.le(c) {
			ok = false
		}
	}
	in.mod.Bounds(in, fr, p.st, ins, what, ok)
	if !ok {
		for _, c := range cond {
			n := p.st.num.assumeLe(c)
			if n == nil {
				return false
			}
			p.st.num = n
		}
	}
	return true
}

// ptr resolves a pointer operand; nil when the path ends there.
func (in *Interp) ptr(fr *Frame, p *Path, ins ssa.Instruction, v Val) (VPtr, bool) {
	switch x := v.(type) {
	case VPtr:
		if x.T != nil {
			if b, ok := p.st.facts[nilKey(x.T)]; ok && b {
				in.mod.Bounds(in, fr, p.st, ins, "nil dereference", false)
				return x, false
			} else if !ok {
				p.st.facts[nilKey(x.T)] = false
			}
			x.T = nil
		}
		return x, true
	case VNil:
		in.mod.Bounds(in, fr, p.st, ins, "nil dereference", false)
		return VPtr{}, false
	}
	in.lenient["pointer operand not tracked"]++
	t := freshTerm("ptr")
	return VPtr{Obj: symObjID(oCell, types.Typ[types.Int], t)}, true
}

func (in *Interp) exec(fr *Frame, p *Path, ins ssa.Instruction) []*Path {
	in.steps++
	if in.steps > in.maxSteps {
		panic(undecided{"analysis budget exhausted in " + fr.stack(in)})
	}
	in.mark(ins)
	in.mod.Instr(in, fr, p, ins)
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return []*Path{p}
	case *ssa.Alloc:
		elem := x.Type().Underlying().(*types.Pointer).Elem()
		site := in.pr.fname(fr.fn) + ":" + x.Name()
		if a, ok := elem.Underlying().(*types.Array); ok {
			id := p.st.alloc(&Obj{kind: oRegion, typ: a.Elem(), zero: true, n: linC(a.Len()), site: site})
			return single(p, x, VPtr{Obj: id})
		}
		id := p.st.alloc(&Obj{kind: oCell, typ: elem, val: zeroVal(elem), site: site})
		return single(p, x, VPtr{Obj: id})
	case *ssa.UnOp:
		var out []*Path
		for _, q := range in.splitOps([]*Path{p}, x.X) {
			out = append(out, in.unop(fr, q, x)...)
		}
		return out
	case *ssa.BinOp:
		var out []*Path
		for _, q := range in.splitOps([]*Path{p}, x.X, x.Y) {
			if in.wraps && (x.Op == token.ADD || x.Op == token.SUB) {
				a, ok := in.get(q, x.X).(VInt)
				b, ok2 := in.get(q, x.Y).(VInt)
				if ok && ok2 {
					l := a.L.add(b.L)
					if x.Op == token.SUB {
						l = a.L.sub(b.L)
					}
					if ps := in.wrapped(q, x, l, x.Type()); ps != nil {
						out = append(out, ps...)
						continue
					}
				}
			}
			q.env[x] = in.binop(q, x.Op, in.get(q, x.X), in.get(q, x.Y), x.X.Type(), x.Type(), x.Y)
			out = append(out, q)
		}
		return out
	case *ssa.ChangeType:
		return single(p, x, retype(in.get(p, x.X), x.Type()))
	case *ssa.ChangeInterface:
		return single(p, x, in.get(p, x.X))
	case *ssa.MakeInterface:
		v := in.get(p, x.X)
		var as []Val
		for _, a := range flatAlts(v) {
			as = append(as, VIface{Dyn: x.X.Type(), V: a})
		}
		if len(as) == 1 {
			return single(p, x, as[0])
		}
		return single(p, x, VAlt{as})
	case *ssa.Convert:
		var out []*Path
		for _, q := range in.splitOps([]*Path{p}, x.X) {
			if i, ok := in.get(q, x.X).(VInt); ok && in.wraps {
				if b, isB := x.Type().Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 {
					if ps := in.wrapped(q, x, i.L, x.Type()); ps != nil {
						out = append(out, ps...)
						continue
					}
				}
			}
			q.env[x] = in.convert(q, in.get(q, x.X), x.X.Type(), x.Type())
			out = append(out, q)
		}
		return out
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		v := ins.(ssa.Value)
		return single(p, v, symVal(v.Type(), freshTerm("conv")))
	case *ssa.FieldAddr:
		var out []*Path
		for _, q := range in.splitOps([]*Path{p}, x.X) {
			pt, ok := in.ptr(fr, q, x, in.get(q, x.X))
			if !ok {
				continue
			}
			pt.Path = append(append([]int(nil), pt.Path...), x.Field)
			q.env[x] = pt
			out = append(out, q)
		}
		return out
	case *ssa.Field:
		var out []*Path
		for _, q := range in.splitOps([]*Path{p}, x.X) {
			if s, ok := in.get(q, x.X).(VStruct); ok && x.Field < len(s.F) {
				q.env[x] = s.field(x.Field)
			} else {
				q.env[x] = symVal(x.Type(), freshTerm("field"))
			}
			out = append(out, q)
		}
		return out
	case *ssa.IndexAddr:
		var out []*Path
		for _, q := range in.splitOps([]*Path{p}, x.X, x.Index) {
			out = append(out, in.indexAddr(fr, q, x)...)
		}
		return out
	case *ssa.Index:
		var out []*Path
		for _, q := range in.splitOps([]*Path{p}, x.X, x.Index) {
			i, ok := in.get(q, x.Index).(VInt)
			if !ok {
				q.env[x] = symVal(x.Type(), freshTerm("index"))
				out = append(out, q)
				continue
			}
			switch c := in.get(q, x.X).(type) {
			case VStr:
				if !in.require(fr, q, x, "index", i.L.neg(), i.L.sub(c.Len).addC(1)) {
					continue
				}
				if k, ok := i.L.constI64(); ok && c.Const != nil && k < int64(len(*c.Const)) {
					q.env[x] = vint(int64((*c.Const)[k]))
				} else {
					q.env[x] = symVal(x.Type(), tm("["+i.L.key()+"]", c.T))
				}
			case VStruct:
				if k, ok := i.L.constI64(); ok && int(k) < len(c.F) {
					q.env[x] = c.field(int(k))
				} else {
					if !in.require(fr, q, x, "index", i.L.neg(), i.L.addC(1-int64(len(c.F)))) {
						continue
					}
					q.env[x] = symVal(x.Type(), freshTerm("index"))
				}
			default:
				q.env[x] = symVal(x.Type(), freshTerm("index"))
			}
			out = append(out, q)
		}
		return out
	case *ssa.Slice:
		var out []*Path
		for _, q := range in.splitOps([]*Path{p}, x.X) {
			out = append(out, in.slice(fr, q, x)...)
		}
		return out
	case *ssa.Store:
		var out []*Path
		for _, q := range in.splitOps([]*Path{p}, x.Addr) {
			pt, ok := in.ptr(fr, q, x, in.get(q, x.Addr))
			if !ok {
				continue
			}
			out = append(out, in.storeAt(fr, q, pt, in.get(q, x.Val), x)...)
		}
		return out
	case *ssa.MapUpdate:
		p.env = copyEnv(p.env)
		m := in.get(p, x.Map)
		v := in.get(p, x.Value)
		in.mod.MapUpdate(in, fr, p.st, m, in.get(p, x.Key), v, x)
		for _, a := range flatAlts(m) {
			if mp, ok := a.(VPtr); ok {
				in.mapStore(p.st, mp.Obj, v)
			} else if _, ok := a.(VNil); ok {
				in.mod.Bounds(in, fr, p.st, x, "write to nil map", false)
			}
		}
		return []*Path{p}
	case *ssa.Lookup:
		var out []*Path
		for _, q := range in.splitOps([]*Path{p}, x.X) {
			out = append(out, in.lookup(fr, q, x)...)
		}
		return out
	case *ssa.Range:
		return single(p, x, VTuple{[]Val{in.get(p, x.X)}})
	case *ssa.Next:
		return in.next(fr, p, x)
	case *ssa.MakeSlice:
		var out []*Path
		for _, q := range in.splitOps([]*Path{p}, x.Len, x.Cap) {
			l, ok1 := in.get(q, x.Len).(VInt)
			c, ok2 := in.get(q, x.Cap).(VInt)
			if !ok1 || !ok2 {
				l, c = VInt{freshLin("mklen", i128(0), i128(maxLen))}, VInt{freshLin("mkcap", i128(0), i128(maxLen))}
			}
			if !in.require(fr, q, x, "make", l.L.neg(), l.L.sub(c.L)) {
				continue
			}
			bound := func(x *Lin) *Lin { // an allocation that succeeds is at most maxLen long
				if hi, ok := maxByBounds(x); ok && hi.cmp(i128(maxLen)) <= 0 {
					return x
				}
				v := freshLin("mk", i128(0), i128(maxLen))
				if n := q.st.num.assumeEq(v.sub(x)); n != nil {
					q.st.num = n
				}
				return v
			}
			same := eqLin(l.L, c.L)
			c.L = bound(c.L)
			if same {
				l.L = c.L
			} else {
				l.L = bound(l.L)
			}
			id := q.st.alloc(&Obj{kind: oRegion, typ: x.Type().Underlying().(*types.Slice).Elem(), zero: true, n: c.L, site: in.pr.fname(fr.fn) + ":" + x.Name()})
			if k, ok := c.L.constI64(); ok && k <= 4 && in.small {
				o := q.st.mut(id)
				for i := int64(0); i < k; i++ {
					o.cells = append(o.cells, Cell{linC(i), zeroVal(o.typ)})
				}
			}
			q.env[x] = VSlice{R: []ObjID{id}, Off: linC(0), Len: l.L, Cap: c.L}
			out = append(out, q)
		}
		return out
	case *ssa.MakeMap:
		id := p.st.alloc(&Obj{kind: oMap, typ: x.Type(), site: in.pr.fname(fr.fn) + ":" + x.Name()})
		return single(p, x, VPtr{Obj: id})
	case *ssa.MakeChan:
		o := &Obj{kind: oChan, typ: x.Type(), site: in.pr.fname(fr.fn) + ":" + x.Name()}
		if n, ok := in.get(p, x.Size).(VInt); ok {
			o.n = n.L
			if !in.require(fr, p, x, "make", n.L.neg()) {
				return nil
			}
		}
		id := p.st.alloc(o)
		return single(p, x, VPtr{Obj: id})
	case *ssa.MakeClosure:
		f := VFunc{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, in.get(p, b))
		}
		return single(p, x, f)
	case *ssa.Extract:
		t := in.get(p, x.Tuple)
		if tt, ok := t.(VTuple); ok && x.Index < len(tt.E) {
			return single(p, x, tt.E[x.Index])
		}
		if a, ok := t.(VAlt); ok {
			var out []*Path
			for i, y := range a.A {
				q := p
				if i < len(a.A)-1 {
					q = p.clone()
				}
				q.env[x.Tuple] = y
				out = append(out, in.exec(fr, q, x)...)
			}
			return out
		}
		return single(p, x, symVal(x.Type(), freshTerm("extract")))
	case *ssa.TypeAssert:
		var out []*Path
		for _, q := range in.splitOps([]*Path{p}, x.X) {
			out = append(out, in.typeAssert(fr, q, x)...)
		}
		return out
	case *ssa.Select:
		return in.selectStmt(fr, p, x)
	case *ssa.Send:
		in.mod.Send(in, fr, p.st, in.get(p, x.Chan), in.get(p, x.X), x)
		return []*Path{p}
	case *ssa.Call:
		var out []*Path
		in.call(fr, p, x, &x.Call, func(q *Path, v Val) {
			q.env[x] = v
			out = append(out, q)
		})
		return out
	case *ssa.Go:
		in.goStmt(fr, p, x)
		return []*Path{p}
	case *ssa.Defer:
		d := &deferred{instr: x}
		if x.Call.IsInvoke() {
			d.recv = in.get(p, x.Call.Value)
		} else {
			d.fn = in.get(p, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, in.get(p, a))
		}
		p.defers = append(append([]*deferred(nil), p.defers...), d)
		return []*Path{p}
	case *ssa.RunDefers:
		cur := []*Path{p}
		for {
			var next []*Path
			again := false
			for _, q := range cur {
				if len(q.defers) == 0 {
					next = append(next, q)
					continue
				}
				again = true
				d := q.defers[len(q.defers)-1]
				q.defers = append([]*deferred(nil), q.defers[:len(q.defers)-1]...)
				in.invokeCommon(fr, q, d.instr, &d.instr.Call, d.fn, d.recv, d.args, func(r *Path, _ Val) {
					next = append(next, r)
				})
			}
			cur = next
			if !again {
				return cur
			}
		}
	}
	panic(undecided{fmt.Sprintf("instruction not supported: %T in %s", ins, in.pr.fname(fr.fn))})
}

func copyEnv(e map[ssa.Value]Val) map[ssa.Value]Val { return e }

func retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case VOpaque:
		x.typ = t
		return x
	case VStruct:
		x.typ = t
		return x
	}
	return v
}

func (in *Interp) mapStore(st *State, id ObjID, v Val) {
	n := st.mut(id)
	n.written = true
	sh := in.shapeOf(st, v)
	if n.shape == nil {
		n.shape = sh
	} else {
		c := false
		n.shape = joinShape(n.shape, sh, &c)
	}
}

func (in *Interp) storeAt(fr *Frame, p *Path, pt VPtr, v Val, ins ssa.Instruction) []*Path {
	var out []*Path
	o := p.st.obj(pt.Obj)
	// variable index into an inline array
	var old Val
	if o.kind == oCell && len(pt.Path) > 0 && o.val != nil {
		old = getPath(o.val, pt.Path)
	}
	ss := in.store(p.st, pt, v)
	for i, s := range ss {
		q := p
		if i < len(ss)-1 {
			q = p.clone()
		}
		q.st = s
		in.mod.Store(in, fr, s, pt, old, v, ins)
		out = append(out, q)
	}
	return out
}

// ---------------------------------------------------------------- unary

func (in *Interp) unop(fr *Frame, p *Path, x *ssa.UnOp) []*Path {
	v := in.get(p, x.X)
	switch x.Op {
	case token.MUL:
		pt, ok := in.ptr(fr, p, x, v)
		if !ok {
			return nil
		}
		var out []*Path
		rs := in.load(p.st, pt)
		for i, r := range rs {
			q := p
			if i < len(rs)-1 {
				q = p.clone()
			}
			q.st = r.st
			y := r.v
			if op, ok := y.(VOpaque); ok && op.typ == nil {
				y = symVal(x.Type(), op.T)
			}
			q.env[x] = y
			in.mod.Load(in, fr, q.st, pt, y, x)
			out = append(out, q)
		}
		return out
	case token.NOT:
		if b, ok := v.(VBool); ok {
			return single(p, x, VBool{pNOT(b.P)})
		}
		return single(p, x, symVal(x.Type(), freshTerm("not")))
	case token.SUB:
		if i, ok := v.(VInt); ok {
			if in.wraps {
				if ps := in.wrapped(p, x, i.L.neg(), x.Type()); ps != nil {
					return ps
				}
			}
			return single(p, x, VInt{in.fit(p.st, i.L.neg(), x.Type(), false)})
		}
		return single(p, x, VOpaque{tm("neg", termOf(v)), x.Type()})
	case token.XOR:
		return single(p, x, symVal(x.Type(), tm("xor", termOf(v))))
	case token.ARROW:
		return in.recv(fr, p, x, v, x.CommaOk, func(q *Path, val Val) Val { return val })
	}
	panic(undecided{"unary operator " + x.Op.String()})
}

func (in *Interp) recvVal(fr *Frame, st *State, ch Val, t types.Type, ins ssa.Instruction) Val {
	if v := in.mod.Recv(in, fr, st, ch, t, ins); v != nil {
		return v
	}
	return nonNil(symVal(t, freshTerm("recv")))
}

func (in *Interp) recv(fr *Frame, p *Path, x *ssa.UnOp, ch Val, commaOk bool, f func(*Path, Val) Val) []*Path {
	if _, never := ch.(VNil); never {
		return nil // blocks for ever
	}
	et := x.X.Type().Underlying().(*types.Chan).Elem()
	if !commaOk {
		return single(p, x, in.recvVal(fr, p.st, ch, et, x))
	}
	q := p.clone()
	p.env[x] = VTuple{[]Val{in.recvVal(fr, p.st, ch, et, x), vbool(true)}}
	q.env[x] = VTuple{[]Val{zeroVal(et), vbool(false)}}
	return []*Path{p, q}
}

func (in *Interp) selectStmt(fr *Frame, p *Path, x *ssa.Select) []*Path {
	var out []*Path
	n := len(x.States)
	mk := func(k int) *Path {
		q := p.clone()
		t := VTuple{[]Val{vint(int64(k)), vbool(true)}}
		for i, s := range x.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			if i == k {
				t.E = append(t.E, in.recvVal(fr, q.st, in.get(q, s.Chan), et, x))
			} else {
				t.E = append(t.E, zeroVal(et))
			}
		}
		q.env[x] = t
		return q
	}
	for i := 0; i < n; i++ {
		if _, never := in.get(p, x.States[i].Chan).(VNil); never {
			continue // a nil channel is never ready
		}
		q := mk(i)
		if s := x.States[i]; s.Dir == types.SendOnly {
			in.mod.Send(in, fr, q.st, in.get(q, s.Chan), in.get(q, s.Send), x)
		}
		out = append(out, q)
	}
	if !x.Blocking {
		out = append(out, mk(-1))
	}
	return out
}

// ---------------------------------------------------------------- arithmetic

func linTerm1(l *Lin) *Term { return tm("lin:" + l.key()) }

func termOf(v Val) *Term {
	switch x := v.(type) {
	case VInt:
		return linTerm1(x.L)
	case VBool:
		return tm("b:" + x.P.key())
	case VStr:
		return x.T
	case VOpaque:
		return x.T
	case VNil:
		return tm("nil")
	case VPtr:
		return tm("ptr:" + valString(x))
	case VIface:
		if x.T != nil {
			return x.T
		}
		return tm("iface:"+x.Dyn.String(), termOf(x.V))
	case VStruct:
		if x.T != nil {
			clean := true
			for _, f := range x.F {
				if f != nil {
					clean = false
				}
			}
			if clean {
				return x.T
			}
		}
		ts := make([]*Term, len(x.F))
		for i := range x.F {
			ts[i] = termOf(x.field(i))
		}
		return tm("struct", ts...)
	case VFunc:
		return tm("fn:" + x.Fn.String())
	case VSlice:
		return tm("slice:" + valString(x))
	}
	return freshTerm("v")
}

// fit keeps an exact result when it cannot leave its type's range. 64-bit
// signed results are assumed not to wrap when small (a documented
// assumption), otherwise the result is unknown.
func (in *Interp) fit(st *State, l *Lin, t types.Type, small bool) *Lin {
	if in.exact {
		small = false
	}
	lo, hi, ok := intRange(t)
	if !ok || l == nil {
		return freshLin("?", i128(-1<<63), i128(1<<63-1))
	}
	a := combine(l, 1, linB(hi), -1)
	b := combine(linB(lo), 1, l, -1)
	if a == nil || b == nil {
		return freshLin("?", lo, hi)
	}
	if (impliedByBounds(a) || st.num.le(a)) && (impliedByBounds(b) || st.num.le(b)) {
		return l
	}
	if small && !isUnsigned(t) && hi.cmp(i128(1<<62)) > 0 {
		n := st.num.assumeLe(a)
		if n != nil {
			n = n.assumeLe(b)
		}
		if n != nil {
			st.num = n
			return l
		}
	}
	return freshLin("wrap", lo, hi)
}

// wrapped tells apart whether a sum stays in the range of its type or wraps
// around.
func (in *Interp) wrapped(p *Path, x ssa.Value, l *Lin, t types.Type) []*Path {
	lo, hi, ok := intRange(t)
	if !ok || l == nil || l.isConst() || isUnsigned(t) || hi.cmp(i128(1<<62)) < 0 {
		return nil
	}
	over, under := combine(l, 1, linB(hi), -1), combine(linB(lo), 1, l, -1)
	if over == nil || under == nil {
		return nil
	}
	var out []*Path
	add := func(v *Lin, cs ...*Lin) {
		if v == nil {
			return
		}
		n := p.st.num
		for _, c := range cs {
			if n = n.assumeLe(c); n == nil {
				return
			}
		}
		q := p.clone()
		q.st.num = n
		q.env[x] = VInt{v}
		out = append(out, q)
	}
	add(l, over, under)
	add(combine(l, 1, linB(u128(1<<63)), -2), over.neg().addC(1))
	add(combine(l, 1, linB(u128(1<<63)), 2), under.neg().addC(1))
	return out
}

func (in *Interp) binop(p *Path, op token.Token, a, b Val, xt, rt types.Type, yv ssa.Value) Val {
	st := p.st
	switch op {
	case token.EQL:
		return VBool{in.equal(st, a, b)}
	case token.NEQ:
		return VBool{pNOT(in.equal(st, a, b))}
	}
	x, xi := a.(VInt)
	y, yi := b.(VInt)
	if xi && yi {
		switch op {
		case token.LSS:
			return VBool{pLE(x.L.sub(y.L).addC(1))}
		case token.LEQ:
			return VBool{pLE(x.L.sub(y.L))}
		case token.GTR:
			return VBool{pLE(y.L.sub(x.L).addC(1))}
		case token.GEQ:
			return VBool{pLE(y.L.sub(x.L))}
		case token.ADD:
			return VInt{in.fit(st, x.L.add(y.L), rt, smallC(x.L) || smallC(y.L) || in.byteCounts && st.num.le(x.L.neg()) && st.num.le(y.L.neg()))}
		case token.SUB:
			return VInt{in.fit(st, x.L.sub(y.L), rt, smallC(x.L) || smallC(y.L))}
		case token.MUL:
			if k, ok := y.L.constI64(); ok {
				return VInt{in.fit(st, x.L.scale(k), rt, sizeFactor(rt, k))}
			}
			if k, ok := x.L.constI64(); ok {
				return VInt{in.fit(st, y.L.scale(k), rt, sizeFactor(rt, k))}
			}
			return symVal(rt, tm("mul", linTerm1(x.L), linTerm1(y.L)))
		case token.QUO, token.REM:
			if k, ok := y.L.constI64(); ok && k > 0 {
				return in.divConst(st, x.L, k, op, rt)
			}
			return symVal(rt, tm(op.String(), linTerm1(x.L), linTerm1(y.L)))
		case token.SHL:
			if k, ok := y.L.constI64(); ok && k >= 0 && k < 62 {
				return VInt{in.fit(st, x.L.scale(1<<uint(k)), rt, false)}
			}
			return symVal(rt, tm("shl", linTerm1(x.L), linTerm1(y.L)))
		case token.SHR:
			if k, ok := y.L.constI64(); ok && k >= 0 && k < 62 && st.num.le(x.L.neg()) {
				return in.divConst(st, x.L, 1<<uint(k), token.QUO, rt)
			}
			return symVal(rt, tm("shr", linTerm1(x.L), linTerm1(y.L)))
		case token.AND:
			for _, pr := range [][2]*Lin{{x.L, y.L}, {y.L, x.L}} {
				if m, ok := pr[1].constI64(); ok && m >= 0 {
					if m&(m+1) == 0 && st.num.le(pr[0].neg()) && st.num.le(pr[0].addC(-m)) {
						return VInt{pr[0]}
					}
					v := symVar(tm("and"+strconv.FormatInt(m, 10), linTerm1(pr[0])), "and", i128(0), i128(m))
					return VInt{linV(v)}
				}
			}
			return symVal(rt, tm("and", linTerm1(x.L), linTerm1(y.L)))
		case token.OR, token.XOR, token.AND_NOT:
			if k, ok := y.L.constI64(); ok && k == 0 {
				return x
			}
			return symVal(rt, tm(op.String(), linTerm1(x.L), linTerm1(y.L)))
		}
	}
	if _, ok := a.(VStr); ok && op == token.ADD {
		s, t := a.(VStr), b.(VStr)
		if s.Const != nil && t.Const != nil {
			return vstr(*s.Const + *t.Const)
		}
		return VStr{T: tm("+", s.T, t.T), Len: s.Len.add(t.Len)}
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return VBool{pATOM("cmp" + op.String() + ":" + termOf(a).String() + "," + termOf(b).String())}
	}
	if bb, ok := rt.Underlying().(*types.Basic); ok && bb.Info()&types.IsBoolean != 0 {
		x, ok1 := a.(VBool)
		y, ok2 := b.(VBool)
		if ok1 && ok2 {
			switch op {
			case token.AND:
				return VBool{&Pred{k: pAnd, a: x.P, c: y.P}}
			case token.OR:
				return VBool{&Pred{k: pOr, a: x.P, c: y.P}}
			}
		}
	}
	return symVal(rt, tm(op.String(), termOf(a), termOf(b)))
}

// sizeFactor: an int (the type of sizes and counts) is assumed not to wrap
// when it is multiplied by a small constant.
func sizeFactor(t types.Type, k int64) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int && k >= -1024 && k <= 1024
}

func smallC(l *Lin) bool {
	if m, ok := maxByBounds(l); ok && m.cmp(i128(1<<47)) <= 0 {
		if n := l.neg(); n != nil {
			if m, ok := maxByBounds(n); ok && m.cmp(i128(1<<47)) <= 0 {
				return true
			}
		}
	}
	return false
}

func (in *Interp) divConst(st *State, x *Lin, k int64, op token.Token, rt types.Type) Val {
	if k == 1 {
		if op == token.QUO {
			return VInt{x}
		}
		return vint(0)
	}
	if c, ok := x.constI64(); ok {
		if op == token.QUO {
			return vint(c / k)
		}
		return vint(c % k)
	}
	lo, hi, ok := intRange(rt)
	if !ok {
		return symVal(rt, freshTerm("div"))
	}
	q := linV(symVar(tm("quo"+strconv.FormatInt(k, 10), linTerm1(x)), "quo", lo, hi))
	r := x.sub(q.scale(k))
	if r == nil {
		return symVal(rt, freshTerm("div"))
	}
	if st.num.le(x.neg()) {
		st.num = st.num.addCon(r.neg(), false).addCon(r.addC(-(k - 1)), false)
	} else if st.num.le(x) {
		st.num = st.num.addCon(r, false).addCon(r.neg().addC(-(k - 1)), false)
	} else {
		st.num = st.num.addCon(r.neg().addC(-(k-1)), false).addCon(r.addC(-(k - 1)), false)
	}
	if op == token.QUO {
		return VInt{q}
	}
	return VInt{r}
}

func (in *Interp) nilPred(v Val) *Pred {
	switch x := v.(type) {
	case VNil:
		return predTrue
	case VPtr:
		if x.T != nil {
			return pATOM(nilKey(x.T))
		}
		return predFalse
	case VSlice:
		switch x.nilK {
		case 0:
			return predFalse
		case 1:
			return predTrue
		}
		k := nilKey(x.T)
		atomImp[k] = [2][]*Pred{{pEQ(x.Len)}, nil}
		return pATOM(k)
	case VIface:
		if x.Dyn != nil {
			return predFalse
		}
		return pATOM(nilKey(x.T))
	case VFunc:
		return predFalse
	case VOpaque:
		return pATOM(nilKey(x.T))
	}
	return pATOM(freshTerm("isnil").op)
}

func isNilVal(v Val) bool {
	switch x := v.(type) {
	case VNil:
		return true
	case VSlice:
		return x.nilK == 1
	}
	return false
}

func (in *Interp) equal(st *State, a, b Val) *Pred {
	if isNilVal(b) {
		return in.nilPred(a)
	}
	if isNilVal(a) {
		return in.nilPred(b)
	}
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			return pEQ(x.L.sub(y.L))
		}
	case VBool:
		if y, ok := b.(VBool); ok {
			if y.P.k == pConst {
				if y.P.b {
					return x.P
				}
				return pNOT(x.P)
			}
			if x.P.k == pConst {
				if x.P.b {
					return y.P
				}
				return pNOT(y.P)
			}
			if x.P.key() == y.P.key() {
				return predTrue
			}
			np := pNOT(y.P)
			return &Pred{k: pOr, a: &Pred{k: pAnd, a: x.P, c: y.P}, c: &Pred{k: pAnd, a: pNOT(x.P), c: np}}
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			return strEq(x, y)
		}
	case VPtr:
		if y, ok := b.(VPtr); ok {
			if x.Obj == y.Obj && samePath(x.Path, y.Path) && (x.Idx == nil) == (y.Idx == nil) {
				if x.Idx == nil {
					return predTrue
				}
				return pEQ(x.Idx.sub(y.Idx))
			}
			_, s1 := symObjs[x.Obj]
			_, s2 := symObjs[y.Obj]
			if x.Obj != y.Obj && !(s1 && s2) {
				return predFalse
			}
		}
	case VIface:
		if y, ok := b.(VIface); ok {
			if x.Dyn != nil && y.Dyn != nil {
				if !types.Identical(x.Dyn, y.Dyn) {
					return predFalse
				}
				return in.equal(st, x.V, y.V)
			}
			if x.Dyn == nil && y.Dyn == nil {
				if x.T == y.T {
					return predTrue
				}
				k := "ifeq:" + strconv.Itoa(x.T.id) + "=" + strconv.Itoa(y.T.id)
				// equal to a value known non-nil implies non-nil
				if nb, ok := st.facts[nilKey(y.T)]; ok && !nb {
					atomImp[k] = [2][]*Pred{{pNOT(pATOM(nilKey(x.T)))}, nil}
				}
				return pATOM(k)
			}
		}
	}
	t, u := termOf(a), termOf(b)
	if t == u {
		return predTrue
	}
	return pATOM("eq:" + t.String() + "==" + u.String())
}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func strEq(x, y VStr) *Pred {
	if x.Const != nil && y.Const != nil {
		return map[bool]*Pred{true: predTrue, false: predFalse}[*x.Const == *y.Const]
	}
	if x.T == y.T {
		return predTrue
	}
	if x.Const != nil {
		x, y = y, x
	}
	if y.Const != nil {
		if *y.Const == "" {
			return pEQ(x.Len)
		}
		k := "streq:" + strconv.Itoa(x.T.id) + "=" + *y.Const
		atomImp[k] = [2][]*Pred{{pEQ(x.Len.addC(-int64(len(*y.Const))))}, nil}
		return pATOM(k)
	}
	k := "streq2:" + strconv.Itoa(x.T.id) + "," + strconv.Itoa(y.T.id)
	atomImp[k] = [2][]*Pred{{pEQ(x.Len.sub(y.Len))}, nil}
	return pATOM(k)
}

func (in *Interp) convert(p *Path, v Val, from, to types.Type) Val {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if i, ok := v.(VInt); ok && tok && tb.Info()&types.IsInteger != 0 {
		lo, hi, _ := intRange(to)
		a := combine(i.L, 1, linB(hi), -1)
		b := combine(linB(lo), 1, i.L, -1)
		if a != nil && b != nil && p.st.num.le(a) && p.st.num.le(b) {
			return i
		}
		return symVal(to, tm("conv:"+to.String(), linTerm1(i.L)))
	}
	if tok && tb.Info()&types.IsString != 0 {
		switch x := v.(type) {
		case VSlice:
			return VStr{T: in.bytesTerm(p.st, x), Len: x.Len}
		case VStr:
			return x
		}
		return symVal(to, freshTerm("str"))
	}
	if fok && fb.Info()&types.IsString != 0 {
		if s, ok := v.(VStr); ok && isByteSlice(to) {
			id := p.st.alloc(&Obj{kind: oRegion, typ: types.Typ[types.Uint8], sym: tm("bytes", s.T), n: s.Len, site: "[]byte(string)"})
			if s.Const != nil {
				o := p.st.mut(id)
				for i := 0; i < len(*s.Const) && i < 16; i++ {
					o.cells = append(o.cells, Cell{linC(int64(i)), vint(int64((*s.Const)[i]))})
				}
			}
			return VSlice{R: []ObjID{id}, Off: linC(0), Len: s.Len, Cap: s.Len}
		}
		if s, ok := v.(VStr); ok && s.Const != nil {
			return symVal(to, tm("runes", s.T))
		}
	}
	if _, ok := v.(VOpaque); ok || tok {
		return symVal(to, tm("conv:"+to.String(), termOf(v)))
	}
	return retype(v, to)
}

// bytesTerm names the current content of a byte slice.
func (in *Interp) bytesTerm(st *State, s VSlice) *Term {
	if len(s.R) == 1 {
		o := st.obj(s.R[0])
		if !o.written && o.sym != nil {
			return tm("content", o.sym, linTerm1(s.Off), linTerm1(s.Len))
		}
	}
	return freshTerm("string")
}

// ---------------------------------------------------------------- indexing

func (in *Interp) indexAddr(fr *Frame, p *Path, x *ssa.IndexAddr) []*Path {
	iv, ok := in.get(p, x.Index).(VInt)
	if !ok {
		iv = VInt{freshLin("idx", i128(0), i128(maxLen))}
	}
	i := iv.L
	switch b := in.get(p, x.X).(type) {
	case VSlice:
		if !in.require(fr, p, x, "index", i.neg(), i.sub(b.Len).addC(1)) {
			return nil
		}
		if len(b.R) == 0 {
			return nil
		}
		if a, ok := p.st.obj(b.R[0]).aux["inline"].(VPtr); ok {
			// the elements are those of an array
			var out []*Path
			n, _ := p.st.obj(b.R[0]).n.constI64()
			at := b.Off.add(i)
			for k := int64(0); k < n; k++ {
				m := p.st.num.assumeEq(at.addC(-k))
				if m == nil {
					continue
				}
				q := p.clone()
				q.st.num = m
				c := a
				c.Path = append(append([]int(nil), a.Path...), int(k))
				q.env[x] = c
				out = append(out, q)
			}
			return out
		}
		return single(p, x, VPtr{Obj: b.R[0], Idx: b.Off.add(i)})
	case VNil:
		in.mod.Bounds(in, fr, p.st, x, "index", false)
		return nil
	case VPtr:
		b, ok := in.ptr(fr, p, x, b)
		if !ok {
			return nil
		}
		at, _ := x.X.Type().Underlying().(*types.Pointer)
		n := int64(-1)
		if at != nil {
			if a, ok := at.Elem().Underlying().(*types.Array); ok {
				n = a.Len()
			}
		}
		if n >= 0 && !in.require(fr, p, x, "index", i.neg(), i.addC(1-n)) {
			return nil
		}
		o := p.st.obj(b.Obj)
		if o.kind == oRegion && b.Idx == nil {
			b.Idx = i
			return single(p, x, b)
		}
		if k, ok := i.constI64(); ok {
			b.Path = append(append([]int(nil), b.Path...), int(k))
			return single(p, x, b)
		}
		if n >= 0 && n <= 8 {
			var out []*Path
			for k := int64(0); k < n; k++ {
				m := p.st.num.assumeEq(i.addC(-k))
				if m == nil {
					continue
				}
				q := p.clone()
				q.st.num = m
				c := b
				c.Path = append(append([]int(nil), b.Path...), int(k))
				q.env[x] = c
				out = append(out, q)
			}
			return out
		}
		in.lenient["variable index into inline array"]++
		t := freshTerm("inline")
		et := x.Type().Underlying().(*types.Pointer).Elem()
		return single(p, x, VPtr{Obj: symObjID(oCell, et, t)})
	}
	in.lenient["index of untracked value"]++
	et := x.Type().Underlying().(*types.Pointer).Elem()
	return single(p, x, VPtr{Obj: symObjID(oCell, et, freshTerm("ix"))})
}

func (in *Interp) slice(fr *Frame, p *Path, x *ssa.Slice) []*Path {
	num := func(v ssa.Value) *Lin {
		if v == nil {
			return nil
		}
		if i, ok := in.get(p, v).(VInt); ok {
			return i.L
		}
		return freshLin("slix", i128(0), i128(maxLen))
	}
	lo, hi, mx := num(x.Low), num(x.High), num(x.Max)
	if lo == nil {
		lo = linC(0)
	}
	switch s := in.get(p, x.X).(type) {
	case VStr:
		if hi == nil {
			hi = s.Len
		}
		if !in.require(fr, p, x, "slice", lo.neg(), lo.sub(hi), hi.sub(s.Len)) {
			return nil
		}
		if eqLin(lo, linC(0)) && eqLin(hi, s.Len) {
			return single(p, x, s)
		}
		if a, ok1 := lo.constI64(); ok1 && s.Const != nil {
			if b, ok2 := hi.constI64(); ok2 {
				return single(p, x, vstr((*s.Const)[a:b]))
			}
		}
		return single(p, x, VStr{T: tm("substr["+lo.key()+":"+hi.key()+"]", s.T), Len: hi.sub(lo)})
	case VSlice:
		if hi == nil {
			hi = s.Len
		}
		cp := s.Cap
		// every slice satisfies 0 <= len <= cap
		if n := p.st.num.assumeLe(s.Len.sub(cp)); n != nil {
			if n = n.assumeLe(s.Len.neg()); n != nil {
				p.st.num = n
			}
		}
		if mx != nil {
			if !in.require(fr, p, x, "slice", lo.neg(), lo.sub(hi), hi.sub(mx), mx.sub(cp)) {
				return nil
			}
			cp = mx
		} else if !in.require(fr, p, x, "slice", lo.neg(), lo.sub(hi), hi.sub(cp)) {
			return nil
		}
		r := s
		r.Off, r.Len, r.Cap = s.Off.add(lo), hi.sub(lo), cp.sub(lo)
		if s.nilK == 2 {
			if p.st.num.lt(r.Len.neg()) {
				r.nilK, r.T = 0, nil
			}
		}
		return single(p, x, r)
	case VNil:
		return single(p, x, zeroVal(x.Type()))
	case VPtr:
		b, ok := in.ptr(fr, p, x, s)
		if !ok {
			return nil
		}
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if hi == nil {
			hi = linC(n)
		}
		cp := linC(n)
		if mx != nil {
			cp = mx
		}
		if !in.require(fr, p, x, "slice", lo.neg(), lo.sub(hi), hi.sub(cp), cp.addC(-n)) {
			return nil
		}
		o := p.st.obj(b.Obj)
		if o.kind == oRegion {
			return single(p, x, VSlice{R: []ObjID{b.Obj}, Off: lo, Len: hi.sub(lo), Cap: cp.sub(lo)})
		}
		in.lenient["slice of inline array"]++
		et := x.Type().Underlying().(*types.Slice).Elem()
		id := symObjID(oRegion, et, tm("inlarr:"+valString(b)))
		if n <= 8 && b.Idx == nil {
			o := p.st.mut(id)
			o.aux = map[string]Val{"inline": b}
			o.n = linC(n)
		}
		return single(p, x, VSlice{R: []ObjID{id}, Off: lo, Len: hi.sub(lo), Cap: cp.sub(lo)})
	}
	in.lenient["slice of untracked value"]++
	return single(p, x, symVal(x.Type(), freshTerm("slice")))
}

// ---------------------------------------------------------------- maps

func (in *Interp) lookup(fr *Frame, p *Path, x *ssa.Lookup) []*Path {
	m := in.get(p, x.X)
	if s, ok := m.(VStr); ok {
		i, ok := in.get(p, x.Index).(VInt)
		if !ok {
			return single(p, x, symVal(x.Type(), freshTerm("sidx")))
		}
		if !in.require(fr, p, x, "index", i.L.neg(), i.L.sub(s.Len).addC(1)) {
			return nil
		}
		if k, ok := i.L.constI64(); ok && s.Const != nil && k >= 0 && k < int64(len(*s.Const)) {
			return single(p, x, vint(int64((*s.Const)[k])))
		}
		return single(p, x, symVal(x.Type(), tm("["+i.L.key()+"]", s.T)))
	}
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		return single(p, x, symVal(x.Type(), freshTerm("lookup")))
	}
	if v, ok := in.mod.Lookup(in, fr, p.st, m, in.get(p, x.Index), x); ok {
		return single(p, x, v)
	}
	val := func(st *State) Val {
		if mp, ok := m.(VPtr); ok {
			o := st.obj(mp.Obj)
			if o.sym == nil || o.written {
				return in.freshByShape(mt.Elem(), o.shape, "mapval")
			}
			return nonNil(symVal(mt.Elem(), tm("mapval", o.sym, termOf(in.get(p, x.Index)))))
		}
		return symVal(mt.Elem(), freshTerm("mapval"))
	}
	_, isNil := m.(VNil)
	empty := isNil
	if mp, ok := m.(VPtr); ok {
		o := p.st.obj(mp.Obj)
		if o.sym == nil && !o.written {
			empty = true
		}
	}
	z := zeroVal(mt.Elem())
	if !x.CommaOk {
		if empty {
			return single(p, x, z)
		}
		q := p.clone()
		p.env[x] = val(p.st)
		q.env[x] = z
		return []*Path{p, q}
	}
	q := p.clone()
	q.env[x] = VTuple{[]Val{z, vbool(false)}}
	if empty {
		return []*Path{q}
	}
	p.env[x] = VTuple{[]Val{val(p.st), vbool(true)}}
	return []*Path{p, q}
}

func (in *Interp) next(fr *Frame, p *Path, x *ssa.Next) []*Path {
	rt := x.Type().(*types.Tuple)
	it, _ := in.get(p, x.Iter).(VTuple)
	var src Val
	if len(it.E) == 1 {
		src = it.E[0]
	}
	q := p.clone()
	fill := func(ok bool) VTuple {
		t := VTuple{[]Val{vbool(ok)}}
		for i := 1; i < rt.Len(); i++ {
			et := rt.At(i).Type()
			if b, isB := et.(*types.Basic); isB && b.Kind() == types.Invalid {
				t.E = append(t.E, VNil{})
				continue
			}
			if !ok {
				t.E = append(t.E, zeroVal(et))
				continue
			}
			if s, isS := src.(VStr); isS && i == 1 {
				k := freshLin("ri", i128(0), i128(maxLen))
				p.st.num = p.st.num.addCon(k.sub(s.Len).addC(1), false)
				t.E = append(t.E, VInt{k})
				continue
			}
			var sh *Shape
			if mp, isM := src.(VPtr); isM && i == 2 {
				sh = p.st.obj(mp.Obj).shape
			}
			v := in.freshByShape(et, sh, "rng")
			if sh == nil {
				v = nonNil(v)
			}
			t.E = append(t.E, v)
		}
		return t
	}
	q.env[x] = fill(false)
	if mp, ok := src.(VPtr); ok && p.st.obj(mp.Obj).sym == nil && !p.st.obj(mp.Obj).written {
		return []*Path{q}
	}
	if isNilVal(src) {
		return []*Path{q}
	}
	p.env[x] = fill(true)
	return []*Path{p, q}
}

// ---------------------------------------------------------------- type assertions

func (in *Interp) typeAssert(fr *Frame, p *Path, x *ssa.TypeAssert) []*Path {
	v := in.get(p, x.X)
	res := func(q *Path, val Val, ok bool) *Path {
		if x.CommaOk {
			q.env[x] = VTuple{[]Val{val, vbool(ok)}}
		} else {
			q.env[x] = val
		}
		return q
	}
	fail := func(q *Path) []*Path {
		if x.CommaOk {
			return []*Path{res(q, zeroVal(x.AssertedType), false)}
		}
		in.mod.Bounds(in, fr, q.st, x, "type assertion", false)
		return nil
	}
	iv, ok := v.(VIface)
	if !ok {
		if isNilVal(v) {
			return fail(p)
		}
		iv = VIface{T: freshTerm("ta")}
	}
	ifc, isI := x.AssertedType.Underlying().(*types.Interface)
	if iv.Dyn != nil {
		if isI {
			if types.Implements(iv.Dyn, ifc) {
				return []*Path{res(p, iv, true)}
			}
			return fail(p)
		}
		if types.Identical(iv.Dyn, x.AssertedType) {
			return []*Path{res(p, iv.V, true)}
		}
		return fail(p)
	}
	var val Val
	if isI {
		val = VIface{T: iv.T}
	} else {
		val = nonNil(symVal(x.AssertedType, tm("ta:"+x.AssertedType.String(), iv.T)))
	}
	if !x.CommaOk {
		return []*Path{res(p, val, true)}
	}
	q := p.clone()
	return []*Path{res(p, val, true), res(q, zeroVal(x.AssertedType), false)}
}

// ---------------------------------------------------------------- calls

func (in *Interp) goStmt(fr *Frame, p *Path, x *ssa.Go) {
	if in.rootsOff {
		return
	}
	var fn Val
	var args []Val
	if x.Call.IsInvoke() {
		recv := in.get(p, x.Call.Value)
		iv, ok := recv.(VIface)
		if !ok || iv.Dyn == nil {
			return
		}
		m := in.method(iv.Dyn, x.Call.Method)
		if m == nil {
			return
		}
		fn = VFunc{Fn: m}
		args = append(args, iv.V)
	} else {
		fn = in.get(p, x.Call.Value)
	}
	for _, a := range x.Call.Args {
		args = append(args, in.get(p, a))
	}
	in.addRoot("go", fn, args, p, x)
}

// addRoot registers a function that runs later on its own.
func (in *Interp) addRoot(kind string, fn Val, args []Val, p *Path, site ssa.Instruction) {
	if !in.rec || in.rootsOff {
		return
	}
	for _, a := range flatAlts(fn) {
		f, ok := a.(VFunc)
		if !ok || len(f.Fn.Blocks) == 0 {
			continue
		}
		key := kind + ":" + f.Fn.String() + fmt.Sprintf("@%p", site)
		r := in.rootIdx[key]
		if r == nil {
			r = &Root{key: key, kind: kind, site: site}
			in.rootIdx[key] = r
			in.roots = append(in.roots, r)
		}
		q := &Path{st: p.st.clone(), env: map[ssa.Value]Val{}}
		q.env[rootFnKey] = f
		q.env[rootArgKey] = VTuple{args}
		r.states = append(r.states, q)
	}
}

var rootFnKey ssa.Value = ssa.NewConst(constant.MakeInt64(1), types.Typ[types.Int])
var rootArgKey ssa.Value = ssa.NewConst(constant.MakeInt64(2), types.Typ[types.Int])

func (in *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	sel := in.pr.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return in.pr.prog.MethodValue(sel)
}

func (in *Interp) call(fr *Frame, p *Path, ins ssa.Instruction, c *ssa.CallCommon, k func(*Path, Val)) {
	// split the callee and, for builtins, the arguments
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		for _, q := range in.splitOps([]*Path{p}, c.Args...) {
			var args []Val
			for _, a := range c.Args {
				args = append(args, in.get(q, a))
			}
			in.builtin(fr, q, ins, c, b.Name(), args, k)
		}
		return
	}
	for _, q := range in.splitOps([]*Path{p}, c.Value) {
		var args []Val
		for _, a := range c.Args {
			args = append(args, in.get(q, a))
		}
		if c.IsInvoke() {
			in.invokeCommon(fr, q, ins, c, nil, in.get(q, c.Value), args, k)
		} else {
			in.invokeCommon(fr, q, ins, c, in.get(q, c.Value), nil, args, k)
		}
	}
}

func (in *Interp) invokeCommon(fr *Frame, p *Path, ins ssa.Instruction, c *ssa.CallCommon, fv, recv Val, args []Val, k func(*Path, Val)) {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		in.builtin(fr, p, ins, c, b.Name(), args, k)
		return
	}
	var rt types.Type = c.Signature().Results()
	if c.Signature().Results().Len() == 1 {
		rt = c.Signature().Results().At(0).Type()
	}
	cl := &Call{in: in, fr: fr, st: p.st, instr: ins, rtyp: rt, args: args}
	if c.IsInvoke() {
		for _, rv := range flatAlts(recv) {
			q := p
			if len(flatAlts(recv)) > 1 {
				q = p.clone()
			}
			cc := *cl
			cc.st = q.st
			switch iv := rv.(type) {
			case VIface:
				if iv.Dyn != nil {
					if m := in.method(iv.Dyn, c.Method); m != nil {
						cc.fn = m
						cc.name = in.pr.fname(m)
						cc.args = append([]Val{iv.V}, args...)
						in.enter(fr, q, &cc, k)
						continue
					}
				} else {
					if b, ok := q.st.facts[nilKey(iv.T)]; ok && b {
						in.mod.Bounds(in, fr, q.st, ins, "nil dereference", false)
						continue
					}
				}
			case VNil:
				in.mod.Bounds(in, fr, q.st, ins, "nil dereference", false)
				continue
			}
			cc.name = in.pr.short(c.Method.FullName())
			cc.args = append([]Val{rv}, args...)
			in.enter(fr, q, &cc, k)
		}
		return
	}
	as := flatAlts(fv)
	for _, f := range as {
		q := p
		if len(as) > 1 {
			q = p.clone()
		}
		cc := *cl
		cc.st = q.st
		switch x := f.(type) {
		case VFunc:
			cc.fn = x.Fn
			cc.bind = x.Bind
			cc.name = in.pr.fname(x.Fn)
		case VNil:
			in.mod.Bounds(in, fr, q.st, ins, "nil dereference", false)
			continue
		default:
			cc.name = "dynamic"
			in.lenient["dynamic call of unknown function"]++
		}
		in.enter(fr, q, &cc, k)
	}
}

// enter runs one resolved call.
func (in *Interp) enter(fr *Frame, p *Path, c *Call, k func(*Path, Val)) {
	outs, handled := in.mod.Pre(c)
	if !handled {
		if c.fn != nil && len(c.fn.Blocks) > 0 && (in.opaque == nil || !in.opaque(c)) {
			outs = in.inline(fr, p, c)
		} else if m := models[c.name]; m != nil {
			outs = m(c)
		} else {
			outs = defaultModel(c)
		}
	}
	for i := range outs {
		in.mod.Post(c, &outs[i])
		q := p
		if i < len(outs)-1 {
			q = p.clone()
		}
		q.st = outs[i].st
		k(q, outs[i].ret)
	}
}

func (in *Interp) inline(fr *Frame, p *Path, c *Call) []Outcome {
	depth, rec := 0, 0
	for f := fr; f != nil; f = f.parent {
		depth++
		if f.fn == c.fn {
			rec++
		}
	}
	if rec > 0 || depth > 40 {
		in.lenient["recursive call "+c.name]++
		return []Outcome{{c.st, symVal(c.rtyp, freshTerm("rec"))}}
	}
	nf := &Frame{fn: c.fn, parent: fr, site: c.instr, depth: depth}
	if fr != nil && fr.fn != nil && c.instr != nil && c.instr.Block() != nil {
		for _, v := range in.liveAfter(in.info(fr.fn), c.instr.Block(), c.instr) {
			if x := p.env[v]; x != nil {
				nf.pinned = append(nf.pinned, x)
			}
		}
	} else {
		for _, x := range p.env {
			nf.pinned = append(nf.pinned, x)
		}
	}
	for _, d := range p.defers {
		if d.fn != nil {
			nf.pinned = append(nf.pinned, d.fn)
		}
		if d.recv != nil {
			nf.pinned = append(nf.pinned, d.recv)
		}
		nf.pinned = append(nf.pinned, d.args...)
	}
	return in.runBody(nf, c.args, c.bind, c.st)
}

// ---------------------------------------------------------------- builtins

func lenOf(v Val) *Lin {
	switch x := v.(type) {
	case VSlice:
		return x.Len
	case VStr:
		return x.Len
	case VNil:
		return linC(0)
	}
	return nil
}

func (in *Interp) builtin(fr *Frame, p *Path, ins ssa.Instruction, c *ssa.CallCommon, name string, args []Val, k func(*Path, Val)) {
	switch name {
	case "len", "cap":
		v := args[0]
		if s, ok := v.(VSlice); ok && name == "cap" {
			k(p, VInt{s.Cap})
			return
		}
		if l := lenOf(v); l != nil {
			k(p, VInt{l})
			return
		}
		if a, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
			k(p, vint(a.Len()))
			return
		}
		if mp, ok := v.(VPtr); ok {
			if pt, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := pt.Elem().Underlying().(*types.Array); ok {
					k(p, vint(a.Len()))
					return
				}
			}
			o := p.st.obj(mp.Obj)
			if name == "cap" && o.kind == oChan && o.n != nil {
				k(p, VInt{o.n})
				return
			}
			if o.kind == oMap && o.sym == nil && !o.written {
				k(p, vint(0))
				return
			}
			if name == "len" && o.kind == oMap && o.sym != nil && !o.written {
				n := mapLen(o)
				p.st.num = p.st.num.addCon(n.L.neg(), false)
				k(p, n)
				return
			}
		}
		k(p, VInt{freshLin("len", i128(0), i128(maxLen))})
	case "append":
		for _, r := range in.appendVal(fr, p.st, args[0], args[1], c.Args[0].Type(), ins) {
			q := p
			if r.st != p.st {
				q = p.clone()
				q.st = r.st
			}
			k(q, r.v)
		}
	case "copy":
		in.copyBytes(fr, p, ins, args[0], args[1], k)
	case "delete":
		in.mod.MapUpdate(in, fr, p.st, args[0], args[1], nil, ins)
		k(p, VTuple{})
	case "close":
		in.mod.Send(in, fr, p.st, args[0], nil, ins)
		k(p, VTuple{})
	case "print", "println":
		k(p, VTuple{})
	case "recover":
		k(p, VNil{})
	case "ssa:wrapnilchk":
		k(p, args[0])
	case "min", "max":
		x, ok := args[0].(VInt)
		if !ok {
			k(p, symVal(c.Args[0].Type(), freshTerm(name)))
			return
		}
		cur := []stVal{{p.st, x}}
		for _, a := range args[1:] {
			y, ok := a.(VInt)
			if !ok {
				k(p, symVal(c.Args[0].Type(), freshTerm(name)))
				return
			}
			var nx []stVal
			for _, s := range cur {
				u := s.v.(VInt)
				d := u.L.sub(y.L)
				for i, pr := range []*Pred{pLE(d), pNOT(pLE(d))} {
					for _, t := range in.assume(s.st, pr, true) {
						if (i == 0) == (name == "min") {
							nx = append(nx, stVal{t, u})
						} else {
							nx = append(nx, stVal{t, y})
						}
					}
				}
			}
			cur = nx
		}
		for _, s := range cur {
			q := p.clone()
			q.st = s.st
			k(q, s.v)
		}
	case "clear":
		k(p, VTuple{})
	default:
		k(p, symVal(c.Signature().Results(), freshTerm(name)))
	}
}

// appendVal models append(dst, src...).
func (in *Interp) appendVal(fr *Frame, st *State, dst, src Val, t types.Type, ins ssa.Instruction) []stVal {
	d, ok := dst.(VSlice)
	if !ok {
		d = zeroVal(t).(VSlice)
	}
	var s VSlice
	var n *Lin
	var srcObj *Obj
	switch y := src.(type) {
	case VSlice:
		s, n = y, y.Len
		if len(y.R) > 0 {
			srcObj = st.obj(y.R[0])
		}
	case VStr:
		n = y.Len
		if y.Const != nil {
			b := in.convert(&Path{st: st}, y, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8])).(VSlice)
			s = b
			srcObj = st.obj(b.R[0])
		} else {
			s = VSlice{Off: linC(0), Len: n, Cap: n}
		}
	default:
		n = linC(0)
	}
	if c, ok := n.constI64(); ok && c == 0 {
		return []stVal{{st, d}}
	}
	nl := d.Len.add(n)
	if nl == nil {
		nl = freshLin("applen", i128(0), i128(maxLen))
	}
	var sp *VSlice
	if srcObj != nil {
		sp = &s
	}
	inPlace := func(st *State) stVal {
		in.bulkWrite(fr, st, d.R[0], d.Off.add(d.Len), n, sp, srcObj, ins)
		r := d
		r.Len = nl
		r.nilK, r.T = 0, nil
		return stVal{st, r}
	}
	grow := func(st *State) stVal {
		st.num = st.num.addCon(nl.addC(-maxLen), false)
		cp := linV(newVarRange("cap", i128(0), i128(maxLen)))
		st.num = st.num.addCon(nl.sub(cp), false)
		et := t.Underlying().(*types.Slice).Elem()
		o := &Obj{kind: oRegion, typ: et, site: in.pr.fname(fr.fn) + ":append", n: cp}
		id := st.alloc(o)
		if len(d.R) > 0 {
			old := st.obj(d.R[0])
			for _, c := range old.cells {
				rel := c.idx.sub(d.Off)
				if rel != nil && st.num.le(rel.neg()) && st.num.lt(rel.sub(d.Len)) {
					o.cells = append(o.cells, Cell{rel, c.v})
				}
			}
			o.shape = old.shape
			if !old.written && old.sym != nil && !isByteElem(et) {
				o.shape = &Shape{any: true}
			}
			if old.written {
				o.written = true
			}
			o.sym = freshTerm("grown")
			o.written = true
		}
		in.bulkWrite(fr, st, id, d.Len, n, sp, srcObj, ins)
		return stVal{st, VSlice{R: []ObjID{id}, Off: linC(0), Len: nl, Cap: cp}}
	}
	room := nl.sub(d.Cap) // <=0 : fits
	if len(d.R) == 0 || st.num.lt(room.neg()) {
		return []stVal{grow(st)}
	}
	if st.num.le(room) {
		return []stVal{inPlace(st)}
	}
	if in.alias {
		var out []stVal
		if m := st.num.assumeLe(room.neg().addC(1)); m != nil {
			s2 := st.clone()
			s2.num = m
			out = append(out, grow(s2))
		}
		if m := st.num.assumeLe(room); m != nil {
			s2 := st.clone()
			s2.num = m
			out = append(out, inPlace(s2))
		}
		return out
	}
	return []stVal{grow(st)}
}

func (in *Interp) copyBytes(fr *Frame, p *Path, ins ssa.Instruction, dst, src Val, k func(*Path, Val)) {
	d, ok := dst.(VSlice)
	sl := lenOf(src)
	if !ok || sl == nil || len(d.R) == 0 {
		k(p, vint(0))
		return
	}
	diff := d.Len.sub(sl)
	for i, pr := range []*Pred{pLE(diff), pNOT(pLE(diff))} {
		for _, s := range in.assume(p.st, pr, true) {
			q := p.clone()
			q.st = s
			n := d.Len
			if i == 1 {
				n = sl
			}
			var sp *VSlice
			var so *Obj
			if ss, ok := src.(VSlice); ok && len(ss.R) > 0 {
				sp = &ss
				so = q.st.obj(ss.R[0])
			}
			if !in.copyInline(q.st, d, sp, n) {
				in.bulkWrite(fr, q.st, d.R[0], d.Off, n, sp, so, ins)
			}
			k(q, VInt{n})
		}
	}
}

func isPkg(name string, pk ...string) bool {
	for _, p := range pk {
		if strings.HasPrefix(name, p+".") || strings.HasPrefix(name, "("+p+".") || strings.HasPrefix(name, "(*"+p+".") {
			return true
		}
	}
	return false
}

// copyInline copies between parts of small arrays.
func (in *Interp) copyInline(st *State, d VSlice, s *VSlice, n *Lin) bool {
	at := func(x VSlice, i int64) (VPtr, bool) {
		a, ok := st.obj(x.R[0]).aux["inline"].(VPtr)
		k, ok2 := x.Off.constI64()
		a.Path = append(append([]int(nil), a.Path...), int(k+i))
		return a, ok && ok2
	}
	c, ok := n.constI64()
	if !ok || s == nil {
		return false
	}
	var vals []Val
	for i := int64(0); i < c; i++ {
		p, ok := at(*s, i)
		if !ok {
			return false
		}
		r := in.load(st, p)
		if len(r) != 1 || r[0].st != st {
			return false
		}
		vals = append(vals, r[0].v)
	}
	for i, v := range vals {
		p, ok := at(d, int64(i))
		if !ok || i == 0 && !st.hasObj(p.Obj) {
			return false
		}
		r := in.store(st, p, v)
		if len(r) != 1 || r[0] != st {
			panic(undecided{"a copy within an array"})
		}
	}
	return true
}

// mapLen is the number of entries of a map nothing was written to.
func mapLen(o *Obj) VInt {
	return symVal(types.Typ[types.Int], tm("entries", o.sym)).(VInt)
}
