package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An inclusion-based points-to analysis in which every call path is its own
// instance of the called function, so that objects allocated by the same
// statement on behalf of different callers stay apart.

type pInst struct {
	p      *PTA
	fn     *ssa.Function
	parent *pInst
	site   ssa.CallInstruction
	root   *pRoot
	depth  int
	vals   map[ssa.Value]*pObj
	ret    *pObj
	kids   map[pCallKey]*pInst
	order  []*pInst
	calls  map[ssa.CallInstruction][]*pInst
	exts   map[ssa.CallInstruction][]pExt
	done   bool
	sync   bool // called by an external function
	n      int
}

type pExt struct {
	name string
	fn   *types.Func
	recv *pLoc
}

type pCallKey struct {
	site ssa.CallInstruction
	fn   *ssa.Function
	bind *pObj
}

// pRoot is a concurrently running part: a goroutine, a callback or the start
// function itself.
type pRoot struct {
	kind   string // start, stop, go, http, nats, timer
	inst   *pInst
	parent *pInst // where it was started
	site   ssa.Instruction
	id     int
}

type pObj struct {
	id    int
	kind  string // alloc, box, func, map, chan, region, global, ext, val
	typ   types.Type
	inst  *pInst
	site  ssa.Instruction
	fn    *ssa.Function
	binds []*pObj
	name  string
	locs  map[string]*pLoc
	ord   []*pLoc
	kids  map[string]*pObj
	up    *pObj // ext: the object it was read from
	p     *PTA
}

type pLoc struct {
	o    *pObj
	path string
	typ  types.Type
	node *pNode
}

type pNode struct {
	pts  map[*pLoc]bool
	list []*pLoc
	succ []*pNode
	has  map[*pNode]bool
	cons []func(*pLoc)
}

type PTA struct {
	pr      *Program
	objN    int
	globals map[*ssa.Global]*pObj
	funcs   map[*ssa.Function]*pObj
	roots   []*pRoot
	rootIdx map[string]*pRoot
	insts   []*pInst
	work    []pWork
	todo    []*pInst
	objs    []*pObj
	sent    map[*pNode]bool // channel contents
	opaque  func(f *ssa.Function) bool
}

type pWork struct {
	n *pNode
	l *pLoc
}

func newPTA(pr *Program) *PTA {
	return &PTA{pr: pr, globals: map[*ssa.Global]*pObj{}, funcs: map[*ssa.Function]*pObj{}, rootIdx: map[string]*pRoot{}, sent: map[*pNode]bool{}}
}

func (p *PTA) newObj(kind string, t types.Type, in *pInst, site ssa.Instruction) *pObj {
	p.objN++
	o := &pObj{id: p.objN, kind: kind, typ: t, inst: in, site: site, locs: map[string]*pLoc{}, p: p}
	if kind != "val" {
		p.objs = append(p.objs, o)
	}
	return o
}

func (o *pObj) String() string {
	s := o.kind
	if o.fn != nil {
		return "func " + o.p.pr.fname(o.fn)
	}
	if o.typ != nil {
		s += " " + o.p.pr.short(types.TypeString(o.typ, nil))
	}
	if o.name != "" {
		s += " " + o.name
	}
	if o.site != nil {
		s += " @" + o.p.pr.posString(o.site.Pos())
	}
	return s
}

func pointerish(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return t == types.Typ[types.UnsafePointer]
}

// loc gives the part of an object at a path.
func (o *pObj) loc(path string, t types.Type) *pLoc {
	if l := o.locs[path]; l != nil {
		return l
	}
	l := &pLoc{o: o, path: path, typ: t, node: &pNode{pts: map[*pLoc]bool{}, has: map[*pNode]bool{}}}
	o.locs[path] = l
	o.ord = append(o.ord, l)
	if o.kind == "ext" && t != nil && pointerish(t) {
		o.p.add(l.node, o.p.extTarget(o, path, t))
	}
	return l
}

// extTarget gives what a pointer of type t held by an external object refers to.
func (p *PTA) extTarget(o *pObj, path string, t types.Type) *pLoc {
	key := t.String() + path
	root := o
	depth := 0
	for root.up != nil {
		root = root.up
		depth++
	}
	if depth >= 3 {
		key = "deep:" + t.String()
	} else {
		root = o
	}
	if root.kids == nil {
		root.kids = map[string]*pObj{}
	}
	k := root.kids[key]
	if k == nil {
		k = p.newObj("ext", t, o.inst, o.site)
		k.up = o
		k.name = o.name + path
		root.kids[key] = k
	}
	return p.extLoc(k, t)
}

// extLoc gives the item a value of type t has when it refers to ext object k.
func (p *PTA) extLoc(k *pObj, t types.Type) *pLoc {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		k.typ = u.Elem()
		return k.loc("", u.Elem())
	case *types.Slice:
		return k.loc("[]", u.Elem())
	case *types.Map:
		return k.loc("", t)
	case *types.Chan:
		return k.loc("", t)
	}
	return k.loc("", nil)
}

// leaves lists the pointer-like parts of a type.
type leaf struct {
	path string
	t    types.Type
}

var leafMemo = map[types.Type][]leaf{}

func leaves(t types.Type) []leaf {
	if l, ok := leafMemo[t]; ok {
		return l
	}
	leafMemo[t] = nil
	var out []leaf
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				out = append(out, leaf{"." + u.Field(i).Name() + l.path, l.t})
			}
		}
	case *types.Array:
		for _, l := range leaves(u.Elem()) {
			out = append(out, leaf{"[]" + l.path, l.t})
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				out = append(out, leaf{fmt.Sprintf("#%d", i) + l.path, l.t})
			}
		}
	default:
		if pointerish(t) {
			out = append(out, leaf{"", t})
		}
	}
	leafMemo[t] = out
	return out
}

func (p *PTA) add(n *pNode, l *pLoc) {
	if l == nil || n.pts[l] {
		return
	}
	n.pts[l] = true
	n.list = append(n.list, l)
	p.work = append(p.work, pWork{n, l})
}

func (p *PTA) edge(from, to *pNode) {
	if from == to || from.has[to] {
		return
	}
	from.has[to] = true
	from.succ = append(from.succ, to)
	for _, l := range from.list {
		p.add(to, l)
	}
}

func (p *PTA) each(n *pNode, f func(*pLoc)) {
	n.cons = append(n.cons, f)
	for _, l := range append([]*pLoc(nil), n.list...) {
		f(l)
	}
}

func (p *PTA) copyVal(dst *pObj, dp string, src *pObj, sp string, t types.Type) {
	for _, l := range leaves(t) {
		p.edge(src.loc(sp+l.path, l.t).node, dst.loc(dp+l.path, l.t).node)
	}
}

func (p *PTA) solve() {
	for len(p.work) > 0 || len(p.todo) > 0 {
		if len(p.work) == 0 {
			in := p.todo[0]
			p.todo = p.todo[1:]
			p.body(in)
			continue
		}
		w := p.work[len(p.work)-1]
		p.work = p.work[:len(p.work)-1]
		for _, s := range w.n.succ {
			p.add(s, w.l)
		}
		for i := 0; i < len(w.n.cons); i++ {
			w.n.cons[i](w.l)
		}
	}
}

// val gives the node of an SSA value.
func (in *pInst) val(v ssa.Value) *pObj {
	p := in.p
	switch x := v.(type) {
	case *ssa.Const:
		return p.newObj("val", x.Type(), nil, nil)
	case *ssa.Global:
		o := in.vals[v]
		if o == nil {
			o = p.newObj("val", v.Type(), in, nil)
			in.vals[v] = o
			p.add(o.loc("", v.Type()).node, p.global(x).loc("", x.Type().Underlying().(*types.Pointer).Elem()))
		}
		return o
	case *ssa.Function:
		o := in.vals[v]
		if o == nil {
			o = p.newObj("val", v.Type(), in, nil)
			in.vals[v] = o
			p.add(o.loc("", v.Type()).node, p.function(x).loc("", nil))
		}
		return o
	}
	o := in.vals[v]
	if o == nil {
		o = p.newObj("val", v.Type(), in, nil)
		in.vals[v] = o
	}
	return o
}

func (p *PTA) global(g *ssa.Global) *pObj {
	o := p.globals[g]
	if o == nil {
		kind := "global"
		if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), p.pr.mod) {
			kind = "ext"
		}
		o = p.newObj(kind, g.Type().Underlying().(*types.Pointer).Elem(), nil, nil)
		o.name = p.pr.short(g.String())
		p.globals[g] = o
	}
	return o
}

func (p *PTA) function(f *ssa.Function) *pObj {
	o := p.funcs[f]
	if o == nil {
		o = p.newObj("func", f.Type(), nil, nil)
		o.fn = f
		p.funcs[f] = o
	}
	return o
}

func (in *pInst) node(v ssa.Value) *pNode { return in.val(v).loc("", v.Type()).node }

func (p *PTA) inst(parent *pInst, site ssa.CallInstruction, fn *ssa.Function, bind *pObj, root *pRoot) *pInst {
	if parent != nil {
		k := pCallKey{site, fn, bind}
		if c := parent.kids[k]; c != nil {
			return c
		}
		for a := parent; a != nil; a = a.parent { // recursion
			if a.fn == fn {
				parent.kids[k] = a
				return a
			}
		}
		c := p.newInst(fn, parent, site, parent.root)
		parent.kids[k] = c
		parent.order = append(parent.order, c)
		return c
	}
	return p.newInst(fn, nil, site, root)
}

func (p *PTA) newInst(fn *ssa.Function, parent *pInst, site ssa.CallInstruction, root *pRoot) *pInst {
	c := &pInst{p: p, fn: fn, parent: parent, site: site, root: root, vals: map[ssa.Value]*pObj{}, kids: map[pCallKey]*pInst{},
		calls: map[ssa.CallInstruction][]*pInst{}, exts: map[ssa.CallInstruction][]pExt{}, n: len(p.insts)}
	if parent != nil {
		c.depth = parent.depth + 1
	}
	if len(p.insts) > 20000 || c.depth > 60 {
		panic(undecided{"call tree too large at " + p.pr.fname(fn)})
	}
	c.ret = p.newObj("val", fn.Signature.Results(), c, nil)
	p.insts = append(p.insts, c)
	p.todo = append(p.todo, c)
	return c
}

// extResult gives a value of an external type.
func (p *PTA) extResult(in *pInst, site ssa.Instruction, dst *pObj, prefix string, t types.Type, name string) {
	for _, l := range leaves(t) {
		key := name + prefix + l.path
		o := dst.kids[key]
		if o == nil {
			o = p.newObj("ext", l.t, in, site)
			o.name = name + prefix + l.path
			if dst.kids == nil {
				dst.kids = map[string]*pObj{}
			}
			dst.kids[key] = o
		}
		p.add(dst.loc(prefix+l.path, l.t).node, p.extLoc(o, l.t))
	}
}

func (p *PTA) root(kind string, parent *pInst, site ssa.Instruction, fo *pObj, recv func(*pInst)) *pRoot {
	key := fmt.Sprintf("%s/%p/%d", kind, site, fo.id)
	if parent != nil {
		key += fmt.Sprintf("/%d", parent.n)
	}
	r := p.rootIdx[key]
	if r == nil {
		r = &pRoot{kind: kind, parent: parent, site: site, id: len(p.roots)}
		p.rootIdx[key] = r
		p.roots = append(p.roots, r)
		if len(p.roots) > 300 {
			panic(undecided{"too many concurrent entry points"})
		}
		r.inst = p.inst(nil, nil, fo.fn, fo, r)
		p.bindFree(r.inst, fo)
		if recv != nil {
			recv(r.inst)
		}
	}
	return r
}

func (p *PTA) bindFree(c *pInst, fo *pObj) {
	for i, fv := range c.fn.FreeVars {
		if i < len(fo.binds) {
			p.copyVal(c.val(fv), "", fo.binds[i], "", fv.Type())
		}
	}
}

func (p *PTA) extParams(c *pInst, from int) {
	for i, q := range c.fn.Params {
		if i >= from {
			p.extResult(c, nil, c.val(q), "", q.Type(), "param "+q.Name())
		}
	}
}

// body generates the constraints of one instance.
func (p *PTA) body(in *pInst) {
	if in.done {
		return
	}
	in.done = true
	for _, b := range in.fn.Blocks {
		for _, ins := range b.Instrs {
			p.gen(in, ins)
		}
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (p *PTA) gen(in *pInst, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		o := p.newObj("alloc", deref(x.Type()), in, x)
		p.add(in.node(x), o.loc("", o.typ))
	case *ssa.MakeSlice:
		o := p.newObj("region", x.Type(), in, x)
		p.add(in.node(x), o.loc("[]", x.Type().Underlying().(*types.Slice).Elem()))
	case *ssa.MakeMap:
		o := p.newObj("map", x.Type(), in, x)
		p.add(in.node(x), o.loc("", x.Type()))
	case *ssa.MakeChan:
		o := p.newObj("chan", x.Type(), in, x)
		p.add(in.node(x), o.loc("", x.Type()))
	case *ssa.MakeClosure:
		o := p.newObj("func", x.Type(), in, x)
		o.fn = x.Fn.(*ssa.Function)
		for _, b := range x.Bindings {
			o.binds = append(o.binds, in.val(b))
		}
		p.add(in.node(x), o.loc("", nil))
	case *ssa.MakeInterface:
		t := x.X.Type()
		if _, ok := t.Underlying().(*types.Pointer); ok {
			p.edge(in.node(x.X), in.node(x))
		} else {
			o := p.newObj("box", t, in, x)
			p.copyVal(o, "", in.val(x.X), "", t)
			p.add(in.node(x), o.loc("!", t))
		}
	case *ssa.ChangeInterface:
		p.edge(in.node(x.X), in.node(x))
	case *ssa.ChangeType:
		p.copyVal(in.val(x), "", in.val(x.X), "", x.Type())
	case *ssa.Convert:
		if pointerish(x.Type()) && pointerish(x.X.Type()) {
			p.edge(in.node(x.X), in.node(x))
		} else if s, ok := x.Type().Underlying().(*types.Slice); ok {
			o := p.newObj("region", x.Type(), in, x)
			p.add(in.node(x), o.loc("[]", s.Elem()))
		}
	case *ssa.SliceToArrayPointer:
		p.edge(in.node(x.X), in.node(x))
	case *ssa.Phi:
		for _, e := range x.Edges {
			p.copyVal(in.val(x), "", in.val(e), "", x.Type())
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			t := x.Type()
			if len(leaves(t)) > 0 {
				p.each(in.node(x.X), func(l *pLoc) { p.copyVal(in.val(x), "", l.o, l.path, t) })
			}
		case token.ARROW:
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			pre := ""
			if x.CommaOk {
				pre = "#0"
			}
			p.each(in.node(x.X), func(l *pLoc) { p.copyVal(in.val(x), pre, l.o, "<-", et) })
		}
	case *ssa.Store:
		t := x.Val.Type()
		if len(leaves(t)) > 0 {
			p.each(in.node(x.Addr), func(l *pLoc) { p.copyVal(l.o, l.path, in.val(x.Val), "", t) })
		}
	case *ssa.FieldAddr:
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		f := st.Field(x.Field)
		p.each(in.node(x.X), func(l *pLoc) { p.add(in.node(x), l.o.loc(l.path+"."+f.Name(), f.Type())) })
	case *ssa.Field:
		f := x.X.Type().Underlying().(*types.Struct).Field(x.Field)
		p.copyVal(in.val(x), "", in.val(x.X), "."+f.Name(), f.Type())
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			p.edge(in.node(x.X), in.node(x))
		} else {
			et := deref(x.Type())
			p.each(in.node(x.X), func(l *pLoc) { p.add(in.node(x), l.o.loc(l.path+"[]", et)) })
		}
	case *ssa.Index:
		p.copyVal(in.val(x), "", in.val(x.X), "[]", x.Type())
	case *ssa.Slice:
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			p.edge(in.node(x.X), in.node(x))
		case *types.Pointer:
			et := u.Elem().Underlying().(*types.Array).Elem()
			p.each(in.node(x.X), func(l *pLoc) { p.add(in.node(x), l.o.loc(l.path+"[]", et)) })
		}
	case *ssa.Lookup:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			pre := ""
			if x.CommaOk {
				pre = "#0"
			}
			p.each(in.node(x.X), func(l *pLoc) { p.copyVal(in.val(x), pre, l.o, "{v}", m.Elem()) })
		}
	case *ssa.MapUpdate:
		m := x.Map.Type().Underlying().(*types.Map)
		p.each(in.node(x.Map), func(l *pLoc) {
			p.copyVal(l.o, "{v}", in.val(x.Value), "", m.Elem())
			p.copyVal(l.o, "{k}", in.val(x.Key), "", m.Key())
		})
	case *ssa.Range:
		if pointerish(x.X.Type()) {
			p.edge(in.node(x.X), in.node(x))
		}
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok {
			if m, ok := r.X.Type().Underlying().(*types.Map); ok {
				p.each(in.node(r), func(l *pLoc) {
					p.copyVal(in.val(x), "#1", l.o, "{k}", m.Key())
					p.copyVal(in.val(x), "#2", l.o, "{v}", m.Elem())
				})
			}
		}
	case *ssa.Send:
		et := x.Chan.Type().Underlying().(*types.Chan).Elem()
		p.each(in.node(x.Chan), func(l *pLoc) { p.copyVal(l.o, "<-", in.val(x.X), "", et) })
	case *ssa.Select:
		k := 2
		for _, s := range x.States {
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			if s.Dir == types.SendOnly {
				v := s.Send
				p.each(in.node(s.Chan), func(l *pLoc) { p.copyVal(l.o, "<-", in.val(v), "", et) })
			} else {
				pre := fmt.Sprintf("#%d", k)
				k++
				p.each(in.node(s.Chan), func(l *pLoc) { p.copyVal(in.val(x), pre, l.o, "<-", et) })
			}
		}
	case *ssa.Extract:
		p.copyVal(in.val(x), "", in.val(x.Tuple), fmt.Sprintf("#%d", x.Index), x.Type())
	case *ssa.TypeAssert:
		pre := ""
		if x.CommaOk {
			pre = "#0"
		}
		at := x.AssertedType
		if types.IsInterface(at) {
			p.edge(in.node(x.X), in.val(x).loc(pre, at).node)
			break
		}
		p.each(in.node(x.X), func(l *pLoc) {
			if l.path == "!" {
				if types.Identical(l.o.typ, at) {
					p.copyVal(in.val(x), pre, l.o, "", at)
				}
				return
			}
			if pt, ok := at.Underlying().(*types.Pointer); ok {
				if l.typ == nil || types.Identical(l.typ, pt.Elem()) {
					p.add(in.val(x).loc(pre, at).node, l)
				}
				return
			}
			if l.typ == nil { // unknown dynamic value
				p.extResult(in, x, in.val(x), pre, at, "asserted")
			}
		})
	case *ssa.Return:
		for i, r := range x.Results {
			p.copyVal(in.ret, fmt.Sprintf("#%d", i), in.val(r), "", r.Type())
		}
	case *ssa.Call:
		p.call(in, x, x.Common())
	case *ssa.Defer:
		p.call(in, x, x.Common())
	case *ssa.Go:
		p.goCall(in, x)
	}
}

// dynMethod finds the method a call on an interface reaches; nil with ok when
// it is outside of the repository.
func (p *PTA) dynMethod(l *pLoc, m *types.Func) (*ssa.Function, types.Type) {
	t := l.typ
	if l.path != "!" {
		if t == nil {
			return nil, nil
		}
		t = types.NewPointer(t)
	}
	sel := p.pr.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil, t
	}
	return p.pr.prog.MethodValue(sel), t
}

func (in *pInst) addCall(site ssa.CallInstruction, c *pInst) {
	for _, x := range in.calls[site] {
		if x == c {
			return
		}
	}
	in.calls[site] = append(in.calls[site], c)
}
func (in *pInst) addExt(site ssa.CallInstruction, e pExt) {
	for _, x := range in.exts[site] {
		if x.name == e.name && x.recv == e.recv {
			return
		}
	}
	in.exts[site] = append(in.exts[site], e)
}

// enter links one call to one callee. recv, when not nil, is the receiver the
// interface held.
func (p *PTA) enter(in *pInst, site ssa.CallInstruction, c *ssa.CallCommon, fn *ssa.Function, fo *pObj, recv *pLoc, boxT types.Type) {
	if !p.pr.inRepo(fn) || len(fn.Blocks) == 0 || (p.opaque != nil && p.opaque(fn)) {
		p.external(in, site, c, p.pr.fname(fn), recv)
		return
	}
	k := p.inst(in, site, fn, fo, nil)
	in.addCall(site, k)
	if fo != nil {
		p.bindFree(k, fo)
	}
	i := 0
	if recv != nil {
		q := fn.Params[0]
		if recv.path == "!" {
			p.copyVal(k.val(q), "", recv.o, "", q.Type())
		} else {
			p.add(k.node(q), recv)
		}
		i = 1
	}
	for _, a := range c.Args {
		if i < len(fn.Params) {
			p.copyVal(k.val(fn.Params[i]), "", in.val(a), "", fn.Params[i].Type())
		}
		i++
	}
	if v := site.Value(); v != nil {
		p.result(in, v, k)
	}
}

func (p *PTA) result(in *pInst, v *ssa.Call, k *pInst) {
	rs := k.fn.Signature.Results()
	if rs.Len() == 1 {
		p.copyVal(in.val(v), "", k.ret, "#0", rs.At(0).Type())
		return
	}
	for i := 0; i < rs.Len(); i++ {
		pre := fmt.Sprintf("#%d", i)
		p.copyVal(in.val(v), pre, k.ret, pre, rs.At(i).Type())
	}
}

func (p *PTA) call(in *pInst, site ssa.CallInstruction, c *ssa.CallCommon) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		p.builtin(in, site, c, b.Name())
		return
	}
	if c.IsInvoke() {
		p.each(in.node(c.Value), func(l *pLoc) {
			fn, t := p.dynMethod(l, c.Method)
			if fn == nil {
				name := c.Method.FullName()
				if t != nil {
					name = "(" + types.TypeString(t, nil) + ")." + c.Method.Name()
				}
				p.external(in, site, c, p.pr.short(name), l)
				return
			}
			p.enter(in, site, c, fn, nil, l, t)
		})
		return
	}
	if fn := c.StaticCallee(); fn != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			p.each(in.node(mc), func(l *pLoc) { p.enter(in, site, c, fn, l.o, nil, nil) })
			return
		}
		p.enter(in, site, c, fn, nil, nil, nil)
		return
	}
	p.each(in.node(c.Value), func(l *pLoc) {
		if l.o.fn != nil {
			p.enter(in, site, c, l.o.fn, l.o, nil, nil)
		} else {
			p.external(in, site, c, "unknown function", l)
		}
	})
}

func (p *PTA) goCall(in *pInst, x *ssa.Go) {
	c := &x.Call
	start := func(fo *pObj, recv *pLoc) {
		if !p.pr.inRepo(fo.fn) || len(fo.fn.Blocks) == 0 {
			p.external(in, x, c, p.pr.fname(fo.fn), recv)
			return
		}
		p.root("go", in, x, fo, func(k *pInst) {
			i := 0
			if recv != nil {
				q := k.fn.Params[0]
				if recv.path == "!" {
					p.copyVal(k.val(q), "", recv.o, "", q.Type())
				} else {
					p.add(k.node(q), recv)
				}
				i = 1
			}
			for _, a := range c.Args {
				p.copyVal(k.val(k.fn.Params[i]), "", in.val(a), "", k.fn.Params[i].Type())
				i++
			}
		})
	}
	if c.IsInvoke() {
		p.each(in.node(c.Value), func(l *pLoc) {
			if fn, _ := p.dynMethod(l, c.Method); fn != nil {
				start(p.function(fn), l)
			}
		})
		return
	}
	if fn := c.StaticCallee(); fn != nil {
		if _, ok := c.Value.(*ssa.MakeClosure); !ok {
			start(p.function(fn), nil)
			return
		}
	}
	p.each(in.node(c.Value), func(l *pLoc) {
		if l.o.fn != nil {
			start(l.o, nil)
		}
	})
}

func (p *PTA) builtin(in *pInst, site ssa.CallInstruction, c *ssa.CallCommon, name string) {
	switch name {
	case "append":
		v := site.Value()
		if v == nil {
			return
		}
		et := v.Type().Underlying().(*types.Slice).Elem()
		o := p.newObj("region", v.Type(), in, v)
		p.add(in.node(v), o.loc("[]", et))
		p.edge(in.node(c.Args[0]), in.node(v))
		if len(leaves(et)) > 0 {
			for _, a := range c.Args {
				p.each(in.node(a), func(l *pLoc) { p.copyVal(o, "[]", l.o, l.path, et) })
			}
			p.each(in.node(c.Args[1]), func(s *pLoc) {
				p.each(in.node(c.Args[0]), func(d *pLoc) { p.copyVal(d.o, d.path, s.o, s.path, et) })
			})
		}
	case "copy":
		if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && len(leaves(s.Elem())) > 0 {
			p.each(in.node(c.Args[1]), func(s2 *pLoc) {
				p.each(in.node(c.Args[0]), func(d *pLoc) { p.copyVal(d.o, d.path, s2.o, s2.path, s.Elem()) })
			})
		}
	}
}

// callbackKinds tells how external functions run the functions they are given.
func callbackKind(name string) string {
	switch {
	case strings.HasSuffix(name, ".HandleFunc") || strings.HasSuffix(name, ".Handle") || strings.HasPrefix(name, "net/http."):
		return "http"
	case strings.HasSuffix(name, ".Subscribe") || strings.HasSuffix(name, ".QueueSubscribe"):
		return "nats"
	case name == "time.AfterFunc":
		return "timer"
	case strings.HasPrefix(name, "nats."):
		return "nats"
	}
	return "sync"
}

func (p *PTA) external(in *pInst, site ssa.CallInstruction, c *ssa.CallCommon, name string, recv *pLoc) {
	in.addExt(site, pExt{name: name, recv: recv})
	key := fmt.Sprintf("ext:%p:%s", site, name)
	mark := in.ret
	if mark.kids == nil {
		mark.kids = map[string]*pObj{}
	}
	if mark.kids[key] != nil {
		return
	}
	mark.kids[key] = mark
	// functions and objects with methods handed over
	ci := c.Signature()
	off := 0
	if !c.IsInvoke() && ci.Recv() != nil {
		off = 1
	}
	for i, a := range c.Args {
		t := a.Type()
		switch t.Underlying().(type) {
		case *types.Signature:
			p.each(in.node(a), func(l *pLoc) {
				if l.o.fn == nil || !p.pr.inRepo(l.o.fn) {
					return
				}
				if kind := callbackKind(name); kind != "sync" {
					p.root(kind, in, site, l.o, func(k *pInst) { p.extParams(k, 0) })
					return
				}
				k := p.inst(in, site, l.o.fn, l.o, nil)
				k.sync = true
				in.addCall(site, k)
				p.bindFree(k, l.o)
				p.extParams(k, 0)
			})
		case *types.Interface:
			j := i - off
			if j < 0 || ci.Params() == nil {
				continue
			}
			if j >= ci.Params().Len() {
				j = ci.Params().Len() - 1
			}
			if j < 0 {
				continue
			}
			it, ok := ci.Params().At(j).Type().Underlying().(*types.Interface)
			if !ok {
				continue
			}
			p.each(in.node(a), func(l *pLoc) {
				for m := 0; m < it.NumMethods(); m++ {
					fn, _ := p.dynMethod(l, it.Method(m))
					if fn == nil || !p.pr.inRepo(fn) {
						continue
					}
					if it.Method(m).Name() == "ServeHTTP" {
						p.root("http", in, site, p.function(fn), func(k *pInst) {
							if l.path == "!" {
								p.copyVal(k.val(fn.Params[0]), "", l.o, "", fn.Params[0].Type())
							} else {
								p.add(k.node(fn.Params[0]), l)
							}
							p.extParams(k, 1)
						})
						continue
					}
					k := p.inst(in, site, fn, nil, nil)
					k.sync = true
					in.addCall(site, k)
					if l.path == "!" {
						p.copyVal(k.val(fn.Params[0]), "", l.o, "", fn.Params[0].Type())
					} else {
						p.add(k.node(fn.Params[0]), l)
					}
					p.extParams(k, 1)
				}
			})
		}
	}
	v := site.Value()
	if isContainer(name) && !c.IsInvoke() && len(c.Args) > 0 {
		p.container(in, site, c, name, v)
	}
	if v == nil {
		return
	}
	// results: something new, or part of an argument of the same type
	rs := c.Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		pre := ""
		if rs.Len() > 1 {
			pre = fmt.Sprintf("#%d", i)
		}
		rt := rs.At(i).Type()
		p.extResult(in, site, in.val(v), pre, rt, name)
		p.alias(in, c, recv, in.val(v), pre, rt, name)
	}
}

func isContainer(name string) bool {
	return strings.HasPrefix(name, "(*container/list.List).") || strings.HasPrefix(name, "(*sync.Map).") || strings.HasPrefix(name, "(*sync.Pool).")
}

// container keeps track of what standard library containers hold.
func (p *PTA) container(in *pInst, site ssa.CallInstruction, c *ssa.CallCommon, name string, v *ssa.Call) {
	p.each(in.node(c.Args[0]), func(l *pLoc) {
		held := l.o.loc(l.path+"<held>", nil).node
		for _, a := range c.Args[1:] {
			if _, ok := a.Type().Underlying().(*types.Interface); ok {
				p.edge(in.node(a), held)
			}
		}
		if v == nil {
			return
		}
		rs := c.Signature().Results()
		for i := 0; i < rs.Len(); i++ {
			pre := ""
			if rs.Len() > 1 {
				pre = fmt.Sprintf("#%d", i)
			}
			rt := rs.At(i).Type()
			switch rt.Underlying().(type) {
			case *types.Interface:
				p.edge(held, in.val(v).loc(pre, rt).node)
			case *types.Pointer: // *list.Element
				p.each(in.val(v).loc(pre, rt).node, func(e *pLoc) {
					p.edge(held, e.o.loc(e.path+".Value", nil).node)
				})
			}
		}
		if strings.HasSuffix(name, "Pool).Get") {
			p.each(l.o.loc(l.path+".New", nil).node, func(f *pLoc) {
				if f.o.fn != nil && p.pr.inRepo(f.o.fn) {
					k := p.inst(in, site, f.o.fn, f.o, nil)
					k.sync = true
					in.addCall(site, k)
					p.bindFree(k, f.o)
					p.edge(k.ret.loc("#0", f.o.fn.Signature.Results().At(0).Type()).node, in.val(v).loc("", v.Type()).node)
				}
			})
		}
	})
}

// alias lets results refer to memory of the arguments.
func (p *PTA) alias(in *pInst, c *ssa.CallCommon, recv *pLoc, dst *pObj, pre string, rt types.Type, name string) {
	args := append([]ssa.Value(nil), c.Args...)
	for _, a := range args {
		at := a.Type()
		switch u := rt.Underlying().(type) {
		case *types.Slice:
			s, ok := at.Underlying().(*types.Slice)
			if !ok {
				continue
			}
			if freshResult(name) {
				continue
			}
			if types.Identical(s.Elem(), u.Elem()) {
				p.edge(in.node(a), dst.loc(pre, rt).node)
			} else if in2, ok := u.Elem().Underlying().(*types.Slice); ok && types.Identical(in2.Elem(), s.Elem()) {
				// [][]byte from []byte
				p.each(in.node(a), func(l *pLoc) {
					p.each(dst.loc(pre, rt).node, func(r *pLoc) {
						if r.o.kind == "ext" {
							p.add(r.o.loc(r.path, u.Elem()).node, l)
						}
					})
				})
			}
		case *types.Pointer, *types.Interface:
			if types.Identical(at, rt) && pointerish(at) {
				p.edge(in.node(a), dst.loc(pre, rt).node)
			}
			_ = u
		}
	}
}

// freshResult lists external functions whose byte slice results never share
// memory with their arguments.
func freshResult(name string) bool {
	switch name {
	case "(hash.Hash).Sum", "bytes.ReplaceAll", "bytes.Replace", "bytes.ToLower", "bytes.ToUpper", "bytes.Join", "bytes.Repeat", "bytes.Clone", "(*regexp.Regexp).ReplaceAll":
		return true
	}
	return false
}

// runInits interprets the package initialisers.
func (p *PTA) start(entry *ssa.Function, kind string) *pRoot {
	r := &pRoot{kind: kind, id: len(p.roots)}
	p.roots = append(p.roots, r)
	r.inst = p.inst(nil, nil, entry, nil, r)
	return r
}

// component builds the call trees of one component.
func (pr *Program) component(start string) (*PTA, *pRoot) {
	p := newPTA(pr)
	for _, sp := range pr.prog.AllPackages() {
		if !strings.HasPrefix(sp.Pkg.Path(), pr.mod) {
			continue
		}
		if f := sp.Func("init"); f != nil && len(f.Blocks) > 0 {
			s := pr.short(sp.Pkg.Path())
			if s == "spouttest" || strings.HasPrefix(s, "cmd/") {
				continue
			}
			p.start(f, "init")
		}
	}
	r := p.start(pr.fn(start), "start")
	p.extParams(r.inst, 0)
	p.solve()
	return p, r
}

func (in *pInst) path() string {
	if in.parent == nil {
		return in.p.pr.fname(in.fn)
	}
	return in.parent.path() + " > " + in.p.pr.fname(in.fn)
}
