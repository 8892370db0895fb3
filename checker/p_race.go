package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C05: data races. Every access of every concurrently running part of a
// component is recorded with the locks held; two accesses to the same memory
// from parts which may run at the same time need a common lock or atomics
// when one of them writes.

type lockset map[*pLoc]bool // true: exclusive

func (l lockset) key() string {
	var s []string
	for k, x := range l {
		s = append(s, fmt.Sprintf("%d%s:%v", k.o.id, k.path, x))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}
func (l lockset) clone() lockset {
	n := lockset{}
	for k, v := range l {
		n[k] = v
	}
	return n
}
func meetLocks(a, b lockset) lockset {
	n := lockset{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			n[k] = v && w
		}
	}
	return n
}

type access struct {
	root   *pRoot
	inst   *pInst
	ins    ssa.Instruction
	loc    *pLoc
	path   string
	write  bool
	atomic bool
	locks  lockset
}

type raceCheck struct {
	c     *Ctx
	p     *PTA
	mode  string
	acc   map[*pObj][]*access
	seen  map[string]bool
	memo  map[string]lockset
	pubs  map[*pRoot][]pubSite
	local map[*pRoot]map[*pObj]bool // reachable from outside
}

type pubSite struct {
	inst  *pInst
	ins   ssa.Instruction
	objs  map[*pObj]bool
	start *pRoot // only published to this root
}

// safeTypes are external types made for concurrent use.
var safeTypes = []string{"nats.Conn", "nats.Subscription", "net/http.Server", "net/http.Client", "net/http.Transport", "net/http.ServeMux", "regexp.Regexp",
	"net.UDPConn", "sync.", "sync/atomic.", "log.Logger", "os.File", "time.Location", "context."}

func safeType(pr *Program, t types.Type) bool {
	if t == nil {
		return false
	}
	s := pr.short(types.TypeString(t, nil))
	for _, x := range safeTypes {
		if strings.HasPrefix(s, x) {
			return true
		}
	}
	return false
}

func (r *raceCheck) rec(in *pInst, ins ssa.Instruction, l *pLoc, path string, write, atomic bool, locks lockset) {
	if l.o.kind == "func" || l.o.kind == "val" {
		return
	}
	if path == "\x00" {
		path = l.path
	}
	if path != "<state>" && safeType(r.p.pr, l.typ) {
		return
	}
	k := fmt.Sprintf("%d/%p/%d/%s/%v/%v/%s", in.n, ins, l.o.id, path, write, atomic, locks.key())
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.acc[l.o] = append(r.acc[l.o], &access{in.root, in, ins, l, path, write, atomic, locks.clone()})
}

// walk records the accesses of an instance and gives the locks held when it returns.
func (r *raceCheck) walk(in *pInst, entry lockset, stack map[*pInst]bool) lockset {
	mk := fmt.Sprintf("%d|%s", in.n, entry.key())
	if l, ok := r.memo[mk]; ok {
		return l
	}
	if stack[in] {
		return entry
	}
	stack[in] = true
	defer delete(stack, in)
	r.c.visit(in.fn)
	at := map[*ssa.BasicBlock]lockset{in.fn.Blocks[0]: entry}
	work := []*ssa.BasicBlock{in.fn.Blocks[0]}
	var exit lockset
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		l := at[b].clone()
		for _, ins := range b.Instrs {
			l = r.instr(in, ins, l, stack)
		}
		if n := len(b.Instrs); n > 0 {
			if _, ok := b.Instrs[n-1].(*ssa.Return); ok {
				if exit == nil {
					exit = l.clone()
				} else {
					exit = meetLocks(exit, l)
				}
			}
		}
		for _, s := range b.Succs {
			old, ok := at[s]
			nw := l
			if ok {
				nw = meetLocks(old, l)
				if nw.key() == old.key() {
					continue
				}
			}
			at[s] = nw
			work = append(work, s)
		}
	}
	if exit == nil {
		exit = entry
	}
	r.memo[mk] = exit
	return exit
}

func (r *raceCheck) instr(in *pInst, ins ssa.Instruction, l lockset, stack map[*pInst]bool) lockset {
	elems := func(v ssa.Value, write bool) {
		if _, ok := v.Type().Underlying().(*types.Slice); ok {
			for _, x := range in.node(v).list {
				r.rec(in, ins, x, "\x00", write, false, l)
			}
		}
	}
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			for _, q := range in.node(x.X).list {
				r.rec(in, ins, q, "\x00", false, false, l)
			}
		}
	case *ssa.Store:
		for _, q := range in.node(x.Addr).list {
			r.rec(in, ins, q, "\x00", true, false, l)
		}
	case *ssa.MapUpdate:
		for _, q := range in.node(x.Map).list {
			r.rec(in, ins, q, "{}", true, false, l)
		}
	case *ssa.Lookup:
		if pointerish(x.X.Type()) {
			for _, q := range in.node(x.X).list {
				r.rec(in, ins, q, "{}", false, false, l)
			}
		}
	case *ssa.Next:
		if rg, ok := x.Iter.(*ssa.Range); ok && pointerish(rg.X.Type()) {
			for _, q := range in.node(rg).list {
				r.rec(in, ins, q, "{}", false, false, l)
			}
		}
	case *ssa.Convert:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			elems(x.X, false)
		}
	case *ssa.Call:
		return r.call(in, x, l, stack, elems)
	case *ssa.RunDefers:
		var ds []*ssa.Defer
		for _, b := range in.fn.Blocks {
			for _, i := range b.Instrs {
				if d, ok := i.(*ssa.Defer); ok {
					ds = append(ds, d)
				}
			}
		}
		for i := len(ds) - 1; i >= 0; i-- {
			l = r.call(in, ds[i], l, stack, elems)
		}
	}
	return l
}

func (r *raceCheck) call(in *pInst, site ssa.CallInstruction, l lockset, stack map[*pInst]bool, elems func(ssa.Value, bool)) lockset {
	c := site.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			elems(c.Args[0], true)
			elems(c.Args[1], false)
		case "copy":
			elems(c.Args[0], true)
			elems(c.Args[1], false)
		case "delete":
			for _, q := range in.node(c.Args[0]).list {
				r.rec(in, site, q, "{}", true, false, l)
			}
		case "len":
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				for _, q := range in.node(c.Args[0]).list {
					r.rec(in, site, q, "{}", false, false, l)
				}
			}
		}
		return l
	}
	var out lockset
	join := func(n lockset) {
		if out == nil {
			out = n
		} else {
			out = meetLocks(out, n)
		}
	}
	for _, k := range in.calls[site] {
		join(r.walk(k, l, stack))
	}
	for _, e := range in.exts[site] {
		join(r.ext(in, site, e, l))
	}
	if out == nil {
		return l
	}
	return out
}

func mutates(name string) bool {
	for _, s := range []string{"sort.", "slices.Sort", "slices.Reverse", "io.Read", "math/rand.", "crypto/rand.", "encoding/binary."} {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	i := strings.LastIndex(name, ").")
	return i >= 0 && strings.HasPrefix(name[i+2:], "Read")
}

func (r *raceCheck) ext(in *pInst, site ssa.CallInstruction, e pExt, l lockset) lockset {
	c := site.Common()
	name := e.name
	arg0 := func() []*pLoc {
		if e.recv != nil {
			return []*pLoc{e.recv}
		}
		if len(c.Args) > 0 {
			return in.node(c.Args[0]).list
		}
		return nil
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(sync.Locker).Lock":
		if a := arg0(); len(a) == 1 {
			n := l.clone()
			n[a[0]] = !strings.HasSuffix(name, "RLock")
			return n
		}
		return l
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(sync.Locker).Unlock":
		n := l.clone()
		for _, a := range arg0() {
			delete(n, a)
		}
		return n
	}
	if strings.HasPrefix(name, "sync/atomic.") {
		for _, a := range arg0() {
			r.rec(in, site, a, "\x00", !strings.HasPrefix(name, "sync/atomic.Load"), true, l)
		}
		return l
	}
	if strings.HasPrefix(name, "(*sync") || strings.HasPrefix(name, "(sync") {
		return l
	}
	args := c.Args
	if e.recv != nil {
		r.extObj(in, site, e.recv, l)
	}
	for i, a := range args {
		switch a.Type().Underlying().(type) {
		case *types.Slice:
			w := mutates(name)
			for _, q := range in.node(a).list {
				r.rec(in, site, q, "\x00", w, false, l)
			}
		case *types.Pointer:
			for _, q := range in.node(a).list {
				if i == 0 && c.Signature().Recv() != nil {
					r.extObj(in, site, q, l)
				} else if !safeType(r.p.pr, q.typ) && q.typ != nil {
					r.rec(in, site, q, "\x00", false, false, l)
				}
			}
		case *types.Interface:
			for _, q := range in.node(a).list {
				if q.path == "!" {
					if s, ok := q.o.typ.Underlying().(*types.Slice); ok && s != nil {
						for _, z := range q.o.loc("", q.o.typ).node.list {
							r.rec(in, site, z, "\x00", mutates(name), false, l)
						}
					}
				}
			}
		}
	}
	return l
}

// extObj records the use of an object of an external type.
func (r *raceCheck) extObj(in *pInst, site ssa.CallInstruction, q *pLoc, l lockset) {
	if q.path == "!" || safeType(r.p.pr, q.typ) {
		return
	}
	if q.typ == nil { // an interface of unknown dynamic type
		if q.o.typ != nil && (safeType(r.p.pr, q.o.typ) || isErrorType(q.o.typ)) {
			return
		}
	}
	r.rec(in, site, q, "<state>", true, false, l)
}

// ---------------------------------------------------------------- sharing

func reach(start map[*pObj]bool) map[*pObj]bool {
	var work []*pObj
	for o := range start {
		work = append(work, o)
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		add := func(n *pNode) {
			for _, q := range n.list {
				if !start[q.o] {
					start[q.o] = true
					work = append(work, q.o)
				}
			}
		}
		for _, l := range o.ord {
			add(l.node)
		}
		for _, b := range o.binds {
			for _, l := range b.ord {
				add(l.node)
			}
		}
	}
	return start
}

// outsideOf gives the objects reachable without the parts in fam.
func (r *raceCheck) outsideOf(fam map[*pRoot]bool, skipVals func(*pInst) bool, keep func(*pObj) bool) map[*pObj]bool {
	s := map[*pObj]bool{}
	for _, o := range r.p.objs {
		if (o.inst == nil || !fam[o.inst.root]) && (keep == nil || keep(o)) {
			s[o] = true
		}
	}
	for _, in := range r.p.insts {
		if fam[in.root] || in.root.kind == "init" || (skipVals != nil && skipVals(in)) {
			continue
		}
		for _, v := range in.vals {
			for _, l := range v.ord {
				for _, q := range l.node.list {
					s[q.o] = true
				}
			}
		}
	}
	return reach(s)
}

func (r *raceCheck) shared(root *pRoot, o *pObj) bool {
	m := r.local[root]
	if m == nil {
		m = r.outsideOf(map[*pRoot]bool{root: true}, nil, nil)
		r.local[root] = m
	}
	return m[o]
}

func (o *pObj) belongs(root *pRoot) bool { return o.inst != nil && o.inst.root == root }

// loopOf gives the blocks of the innermost loop around a block.
func loopOf(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	var best map[*ssa.BasicBlock]bool
	for _, h := range b.Parent().Blocks {
		for _, t := range h.Preds {
			if !h.Dominates(t) {
				continue
			}
			body := map[*ssa.BasicBlock]bool{h: true}
			work := []*ssa.BasicBlock{t}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
			if body[b] && (best == nil || len(body) < len(best)) {
				best = body
			}
		}
	}
	return best
}

// spawnLoop gives the instance and loop in which a root is started repeatedly.
func (root *pRoot) spawnLoop() (*pInst, map[*ssa.BasicBlock]bool) {
	if root.site == nil {
		return nil, nil
	}
	b := root.site.Block()
	for in := root.parent; in != nil; in = in.parent {
		if l := loopOf(b); l != nil {
			return in, l
		}
		if in.site == nil {
			break
		}
		b = in.site.Block()
	}
	return nil, nil
}

func (root *pRoot) multi() bool {
	if root.kind == "http" || root.kind == "timer" {
		return true
	}
	if root.parent == nil {
		return false
	}
	if l, _ := root.spawnLoop(); l != nil {
		return true
	}
	return root.parent.root.multi()
}

// inLoop reports whether an object is allocated by the iteration of a loop.
func (o *pObj) inLoop(in *pInst, loop map[*ssa.BasicBlock]bool) bool {
	if o.inst == nil || o.site == nil {
		return false
	}
	b := o.site.Block()
	for x := o.inst; x != nil; x = x.parent {
		if x == in {
			return loop[b]
		}
		if x.site == nil {
			return false
		}
		b = x.site.Block()
	}
	return false
}

// perInstance reports whether each running instance of a root has its own o.
func (r *raceCheck) perInstance(root *pRoot, o *pObj) bool {
	if o.belongs(root) {
		for root.kind != "http" && root.kind != "timer" && root.parent != nil && root.parent.root.multi() {
			if in, _ := root.spawnLoop(); in != nil {
				break
			}
			root = root.parent.root
		}
		return !r.outsideOf(r.family(root), nil, nil)[o]
	}
	if root.kind == "http" || root.kind == "timer" || root.parent == nil {
		return false
	}
	pr := root.parent.root
	if in, loop := root.spawnLoop(); in != nil {
		if !o.inLoop(in, loop) {
			return false
		}
		fam := r.family(pr)
		out := r.outsideOf(fam, nil, nil)
		if out[o] {
			return false
		}
		s := map[*pObj]bool{} // objects of the parent which outlive the iteration
		for _, q := range r.p.objs {
			if q.inst != nil && q.inst.root == pr && !q.inLoop(in, loop) {
				s[q] = true
			}
		}
		return !reach(s)[o]
	}
	if !pr.multi() {
		return false
	}
	if o.belongs(pr) {
		return !r.outsideOf(r.family(pr), nil, nil)[o]
	}
	return r.perInstance(pr, o)
}

// family gives a root and everything started from it.
func (r *raceCheck) family(root *pRoot) map[*pRoot]bool {
	fam := map[*pRoot]bool{root: true}
	for ch := true; ch; {
		ch = false
		for _, x := range r.p.roots {
			if x.parent != nil && fam[x.parent.root] && !fam[x] {
				fam[x] = true
				ch = true
			}
		}
	}
	return fam
}

// startedBy reports whether b is root or was started, directly or not, by it.
func startedBy(b, root *pRoot) bool {
	for x := b; x != nil; {
		if x == root {
			return true
		}
		if x.parent == nil {
			return false
		}
		x = x.parent.root
	}
	return false
}

// ---------------------------------------------------------------- publication

func (r *raceCheck) publications(root *pRoot) []pubSite {
	if p, ok := r.pubs[root]; ok {
		return p
	}
	var out []pubSite
	for _, in := range r.p.insts {
		if in.root != root {
			continue
		}
		for _, b := range in.fn.Blocks {
			for _, ins := range b.Instrs {
				s := map[*pObj]bool{}
				take := func(v ssa.Value) {
					for _, l := range leaves(v.Type()) {
						for _, q := range in.val(v).loc(l.path, l.t).node.list {
							s[q.o] = true
						}
					}
				}
				sharedDst := func(v ssa.Value) bool {
					for _, q := range in.node(v).list {
						if !q.o.belongs(root) {
							return true
						}
					}
					return false
				}
				switch x := ins.(type) {
				case *ssa.Store:
					if sharedDst(x.Addr) {
						take(x.Val)
					}
				case *ssa.MapUpdate:
					if sharedDst(x.Map) {
						take(x.Value)
						take(x.Key)
					}
				case *ssa.Send:
					take(x.X)
				case *ssa.Select:
					for _, st := range x.States {
						if st.Send != nil {
							take(st.Send)
						}
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "copy") {
						if et, ok := x.Common().Args[0].Type().Underlying().(*types.Slice); ok && len(leaves(et.Elem())) > 0 && sharedDst(x.Common().Args[0]) {
							for _, q := range in.node(x.Common().Args[1]).list {
								s[q.o] = true
							}
						}
					}
				}
				if len(s) > 0 {
					out = append(out, pubSite{in, ins, reach(s), nil})
				}
			}
		}
	}
	for _, k := range r.p.roots {
		if k.parent == nil || k.parent.root != root {
			continue
		}
		s := map[*pObj]bool{}
		for _, v := range append(append([]ssa.Value{}, paramVals(k.inst.fn)...), freeVals(k.inst.fn)...) {
			for _, l := range k.inst.val(v).ord {
				for _, q := range l.node.list {
					s[q.o] = true
				}
			}
		}
		out = append(out, pubSite{k.parent, k.site, reach(s), k})
	}
	r.pubs[root] = out
	return out
}

func paramVals(f *ssa.Function) (o []ssa.Value) {
	for _, p := range f.Params {
		o = append(o, p)
	}
	return
}
func freeVals(f *ssa.Function) (o []ssa.Value) {
	for _, p := range f.FreeVars {
		o = append(o, p)
	}
	return
}

// beforePublication reports that an access happens before the object can be
// seen by root other.
func (r *raceCheck) beforePublication(a *access, other *pRoot) bool {
	o := a.loc.o
	// the start of the other part orders everything before it
	for x := other; x != nil && x.parent != nil; x = x.parent.root {
		if x.parent.root == a.root {
			if x.kind != "http" && x.kind != "timer" || !a.root.multi() {
				if !mayFollow(x.parent, x.site, a.inst, a.ins, o) {
					return true
				}
			}
		}
		if x.parent.root == x {
			break
		}
	}
	if !o.belongs(a.root) || r.fromShared(a) {
		return false
	}
	found := false
	for _, p := range r.publications(a.root) {
		if !p.objs[o] || p.start != nil && !startedBy(other, p.start) {
			continue
		}
		found = true
		if mayFollow(p.inst, p.ins, a.inst, a.ins, o) {
			return false
		}
	}
	return found
}

// fromShared reports whether an access may have found the object in memory
// the other parts can change, so that it can be one from an earlier round.
func (r *raceCheck) fromShared(a *access) bool {
	seen := map[string]bool{}
	root := a.root
	var from func(in *pInst, v ssa.Value) bool
	cells := func(locs []*pLoc) bool {
		for _, q := range locs {
			if !q.o.belongs(root) {
				if q.o.kind != "func" && q.o.kind != "val" {
					return true
				}
				continue
			}
			k := fmt.Sprintf("cell%d", q.o.id)
			if seen[k] {
				continue
			}
			seen[k] = true
			for _, in := range r.p.insts {
				if in.root != root {
					continue
				}
				for _, b := range in.fn.Blocks {
					for _, ins := range b.Instrs {
						if st, ok := ins.(*ssa.Store); ok && len(leaves(st.Val.Type())) > 0 {
							for _, d := range in.node(st.Addr).list {
								if d.o == q.o && from(in, st.Val) {
									return true
								}
							}
						}
						if st, ok := ins.(*ssa.MapUpdate); ok {
							for _, d := range in.node(st.Map).list {
								if d.o == q.o && (from(in, st.Value) || from(in, st.Key)) {
									return true
								}
							}
						}
					}
				}
			}
		}
		return false
	}
	from = func(in *pInst, v ssa.Value) bool {
		k := fmt.Sprintf("%d/%p", in.n, v)
		if seen[k] || len(leaves(v.Type())) == 0 {
			return false
		}
		seen[k] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if from(in, e) {
					return true
				}
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return true
			}
			return from(in, x.X) || cells(in.node(x.X).list)
		case *ssa.Lookup:
			return from(in, x.X) || cells(in.node(x.X).list)
		case *ssa.Next:
			if rg, ok := x.Iter.(*ssa.Range); ok && pointerish(rg.X.Type()) {
				return from(in, rg.X) || cells(in.node(rg).list)
			}
		case *ssa.Parameter:
			if in.parent == nil {
				return false
			}
			c := in.site.Common()
			for _, arg := range c.Args {
				if from(in.parent, arg) {
					return true
				}
			}
			return from(in.parent, c.Value)
		case *ssa.FreeVar:
			if in.parent != nil {
				return from(in.parent, in.site.Common().Value)
			}
		case *ssa.Call:
			for _, kd := range in.calls[x] {
				for _, b := range kd.fn.Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, e := range rt.Results {
							if from(kd, e) {
								return true
							}
						}
					}
				}
			}
			if len(in.calls[x]) == 0 {
				for _, arg := range x.Call.Args {
					if from(in, arg) {
						return true
					}
				}
			}
		case ssa.Instruction:
			for _, op := range x.Operands(nil) {
				if *op != nil && from(in, *op) {
					return true
				}
			}
		}
		return false
	}
	for _, op := range a.ins.Operands(nil) {
		if *op != nil && from(a.inst, *op) {
			return true
		}
	}
	return false
}

type step struct {
	in  *pInst
	ins ssa.Instruction
}

func chain(in *pInst, ins ssa.Instruction) []step {
	var rev []step
	for in != nil {
		rev = append(rev, step{in, ins})
		if in.site == nil {
			break
		}
		ins = in.site
		in = in.parent
	}
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	return rev
}

// mayFollow reports whether the access may execute after the publication
// without the object being allocated anew in between.
func mayFollow(pi *pInst, pins ssa.Instruction, ai *pInst, ains ssa.Instruction, o *pObj) bool {
	pc, ac := chain(pi, pins), chain(ai, ains)
	var oc []step
	if o.inst != nil && o.site != nil && o.inst.root == pi.root {
		oc = chain(o.inst, o.site)
	}
	for k := 0; k < len(pc) && k < len(ac) && pc[k].in == ac[k].in; k++ {
		var barrier ssa.Instruction
		if k < len(oc) && oc[k].in == pc[k].in {
			barrier = oc[k].ins
		}
		if pc[k].ins == ac[k].ins && k+1 < len(pc) && k+1 < len(ac) {
			// the same call: only a loop around it can bring the access back
			if barrier == pc[k].ins {
				continue
			}
			if instrReach(pc[k].ins, ac[k].ins, barrier) {
				return true
			}
			continue
		}
		if barrier != nil && barrier == ac[k].ins {
			// both happen in this call: is the allocation always first?
			for j := k + 1; j < len(oc) && j < len(ac) && oc[j].in == ac[j].in; j++ {
				if oc[j].ins != ac[j].ins {
					if instrDominates(oc[j].ins, ac[j].ins) {
						return false
					}
					break
				}
			}
			barrier = nil
		}
		return instrReach(pc[k].ins, ac[k].ins, barrier)
	}
	return false
}

// instrReach reports whether b may execute after a without barrier in between.
func instrReach(a, b, barrier ssa.Instruction) bool {
	if _, ok := b.(*ssa.Defer); ok {
		if _, ok := a.(*ssa.Defer); ok {
			return a != b
		}
		return true
	}
	if _, ok := a.(*ssa.Defer); ok {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(blk *ssa.BasicBlock, from int) bool
	visit = func(blk *ssa.BasicBlock, from int) bool {
		for _, i := range blk.Instrs[from:] {
			if i == b {
				return true
			}
			if i == barrier {
				return false
			}
		}
		for _, s := range blk.Succs {
			if !seen[s] {
				seen[s] = true
				if visit(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, x := range a.Block().Instrs {
		if x == a {
			return visit(a.Block(), i+1)
		}
	}
	return true
}

// ---------------------------------------------------------------- pairs

func overlap(a, b string) bool { return strings.HasPrefix(a, b) || strings.HasPrefix(b, a) }

func commonLock(a, b *access) bool {
	for k, x := range a.locks {
		if y, ok := b.locks[k]; ok {
			if (x || !a.write) && (y || !b.write) {
				return true
			}
		}
	}
	return false
}

func (r *raceCheck) afterWait(a *access) bool {
	if a.root.kind != "stop" {
		return false
	}
	c := chain(a.inst, a.ins)
	for _, b := range a.root.inst.fn.Blocks {
		for _, i := range b.Instrs {
			site, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, e := range a.root.inst.exts[site] {
				if e.name == "(*sync.WaitGroup).Wait" && instrDominates(i, c[0].ins) {
					return true
				}
			}
		}
	}
	return false
}

func instrDominates(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, i := range a.Block().Instrs {
			if i == a {
				return true
			}
			if i == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

func (r *raceCheck) pairs() {
	c := r.c
	for _, o := range r.p.objs {
		as := r.acc[o]
		if len(as) == 0 {
			continue
		}
		byRoot := map[*pRoot]bool{}
		writes := false
		for _, a := range as {
			byRoot[a.root] = true
			writes = writes || a.write
		}
		self := false
		for k := range byRoot {
			self = self || k.multi()
		}
		if len(byRoot) < 2 && !self {
			continue
		}
		c.count["shared objects "+r.mode]++
		if !writes {
			continue
		}
		per := map[*pRoot]int{}
		for i, a := range as {
			for _, b := range as[i:] {
				if !a.write && !b.write || a.atomic && b.atomic || !overlap(a.path, b.path) {
					continue
				}
				if a.root == b.root {
					if !a.root.multi() {
						continue
					}
					if per[a.root] == 0 {
						per[a.root] = 1
						if r.perInstance(a.root, o) {
							per[a.root] = 2
						}
					}
					if per[a.root] == 2 {
						continue
					}
				} else {
					if a.root.kind == "start" && b.root.kind == "stop" || a.root.kind == "stop" && b.root.kind == "start" {
						continue
					}
					if o.belongs(a.root) && !r.shared(a.root, o) || o.belongs(b.root) && !r.shared(b.root, o) {
						continue
					}
				}
				key := "race:" + r.mode + ":" + objKey(r.p.pr, o) + a.path
				ok := commonLock(a, b) || r.beforePublication(a, b.root) || r.beforePublication(b, a.root) ||
					r.afterWait(a) && b.root.kind == "go" || r.afterWait(b) && a.root.kind == "go"
				c.oblige(key, ok, r.p.pr.posString(posOf(a.ins)), fmt.Sprintf("%s of %s%s in %s (%s) with %d locks and %s in %s (%s, %s) with %d locks may happen at the same time without a common lock",
					verb(a), o, a.path, r.p.pr.fname(a.inst.fn), rootDesc(a.root), len(a.locks), verb(b), r.p.pr.fname(b.inst.fn), r.p.pr.posString(posOf(b.ins)), rootDesc(b.root), len(b.locks)))
			}
		}
	}
}

func verb(a *access) string {
	s := "read"
	if a.write {
		s = "write"
	}
	if a.atomic {
		s = "atomic " + s
	}
	return s
}
func rootDesc(r *pRoot) string { return r.kind + " " + r.inst.p.pr.fname(r.inst.fn) }

func posOf(i ssa.Instruction) token.Pos {
	if i.Pos().IsValid() {
		return i.Pos()
	}
	for _, op := range i.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return (*op).Pos()
		}
	}
	return i.Parent().Pos()
}

func objKey(pr *Program, o *pObj) string {
	s := ""
	if o.typ != nil {
		s = pr.short(types.TypeString(o.typ, nil))
	}
	if o.kind == "global" || o.kind == "ext" {
		s += " " + o.name
	}
	return s
}

func init() {
	register(&Property{id: "C05", level: "other", rule: "lockset analysis over every concurrently running part, on a points-to analysis that keeps call paths apart", run: func(c *Ctx) {
		for _, cp := range componentList {
			p, start := c.pr.component(cp.start)
			// Stop runs concurrently with everything that was started
			res := c.pr.fn(cp.start).Signature.Results().At(0).Type()
			if sel := c.pr.prog.MethodSets.MethodSet(res).Lookup(c.pr.fn(cp.start).Pkg.Pkg, "Stop"); sel != nil {
				st := p.start(c.pr.prog.MethodValue(sel), "stop")
				p.copyVal(st.inst.val(st.inst.fn.Params[0]), "", start.inst.ret, "#0", res)
				p.solve()
			}
			r := &raceCheck{c: c, p: p, mode: cp.mode, acc: map[*pObj][]*access{}, seen: map[string]bool{}, memo: map[string]lockset{}, pubs: map[*pRoot][]pubSite{}, local: map[*pRoot]map[*pObj]bool{}}
			for _, root := range p.roots {
				if root.kind != "init" {
					r.walk(root.inst, lockset{}, map[*pInst]bool{})
					c.inst("concurrent parts " + cp.mode)
				}
			}
			r.pairs()
			c.count["call instances"] += len(p.insts)
			n := 0
			for _, a := range r.acc {
				n += len(a)
			}
			c.count["accesses"] += n
		}
		c.need("concurrent parts listener", 3)
		c.need("concurrent parts listener_http", 4)
		c.need("concurrent parts filter", 3)
		c.need("concurrent parts downsampler", 3)
		c.need("concurrent parts writer", 3)
		c.need("concurrent parts monitor", 3)
	}})
}
