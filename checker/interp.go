package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- interface to property modules

type Outcome struct {
	st  *State
	ret Val
}

// Call describes one abstract call.
type Call struct {
	in    *Interp
	fr    *Frame
	st    *State
	instr ssa.Instruction
	name  string
	fn    *ssa.Function // nil when not resolved to a body
	args  []Val
	bind  []Val
	rtyp  types.Type
	isGo  bool
}

func (c *Call) outs(v Val) []Outcome { return []Outcome{{c.st, v}} }

type Module interface {
	Pre(c *Call) ([]Outcome, bool)
	Post(c *Call, o *Outcome)
	Load(in *Interp, fr *Frame, st *State, ptr VPtr, v Val, instr ssa.Instruction)
	Store(in *Interp, fr *Frame, st *State, ptr VPtr, old, new Val, instr ssa.Instruction)
	Bounds(in *Interp, fr *Frame, st *State, instr ssa.Instruction, what string, ok bool)
	Send(in *Interp, fr *Frame, st *State, ch, v Val, instr ssa.Instruction)
	Recv(in *Interp, fr *Frame, st *State, ch Val, typ types.Type, instr ssa.Instruction) Val
	Bulk(in *Interp, fr *Frame, st *State, dst ObjID, lo, n *Lin, src *VSlice, instr ssa.Instruction)
	Panic(in *Interp, fr *Frame, st *State, instr ssa.Instruction)
	MapUpdate(in *Interp, fr *Frame, st *State, m, k, v Val, instr ssa.Instruction)
	Lookup(in *Interp, fr *Frame, st *State, m, k Val, instr ssa.Instruction) (Val, bool)
	Instr(in *Interp, fr *Frame, p *Path, instr ssa.Instruction)
	Sig(in *Interp, st *State) string
}

type BaseModule struct{}

func (BaseModule) Pre(c *Call) ([]Outcome, bool)                                             { return nil, false }
func (BaseModule) Post(c *Call, o *Outcome)                                                  {}
func (BaseModule) Load(*Interp, *Frame, *State, VPtr, Val, ssa.Instruction)                  {}
func (BaseModule) Store(*Interp, *Frame, *State, VPtr, Val, Val, ssa.Instruction)            {}
func (BaseModule) Bounds(*Interp, *Frame, *State, ssa.Instruction, string, bool)             {}
func (BaseModule) Send(*Interp, *Frame, *State, Val, Val, ssa.Instruction)                   {}
func (BaseModule) Recv(*Interp, *Frame, *State, Val, types.Type, ssa.Instruction) Val        { return nil }
func (BaseModule) Bulk(*Interp, *Frame, *State, ObjID, *Lin, *Lin, *VSlice, ssa.Instruction) {}
func (BaseModule) Panic(*Interp, *Frame, *State, ssa.Instruction)                            {}
func (BaseModule) MapUpdate(*Interp, *Frame, *State, Val, Val, Val, ssa.Instruction)         {}
func (BaseModule) Lookup(*Interp, *Frame, *State, Val, Val, ssa.Instruction) (Val, bool) {
	return nil, false
}
func (BaseModule) Instr(*Interp, *Frame, *Path, ssa.Instruction) {}
func (BaseModule) Sig(*Interp, *State) string                    { return "" }

// ---------------------------------------------------------------- interpreter

type Frame struct {
	fn     *ssa.Function
	parent *Frame
	site   ssa.Instruction
	depth  int
	pinned []Val
	noBody bool
}

type Root struct {
	key    string
	kind   string // go, http, nats, entry
	fn     Val
	args   []Val
	states []*Path
	site   ssa.Instruction
	multi  bool
}

type undecided struct{ msg string }

type Interp struct {
	onConfig func(VPtr)
	kept     []ObjID // objects which stay known: the configuration
	starting bool    // the start function of a component is being interpreted
	pr       *Program
	mod      Module
	rec      bool
	globals  []ObjID
	K        *Lin
	Ktypes   func(types.Type) bool
	alias    bool // model append in place as well as copied
	nilDeref bool
	limit    int
	steps    int
	maxSteps int
	nJoins   int
	roots    []*Root
	rootIdx  map[string]*Root
	lenient  map[string]int
	fnInfo   map[*ssa.Function]*fnInfo
	visited  map[*ssa.Function]bool
	instrs   map[ssa.Instruction]bool
	curRoot  *Root
	curPath  *Path    // how curRoot was started
	small    bool     // sizes are small and known: keep elements and rounds of loops apart
	loops    *termMod // asked about every loop
	rootsOff bool
	noHavoc  bool
	exact    bool // nothing is assumed not to overflow
	wraps    bool // tell apart whether sums wrap around
	// totals of non-negative 64-bit numbers do not wrap
	byteCounts bool
	base       *State
	viol       map[string]string
	violOrd    []string
	obl        map[string]bool // obligation key -> discharged so far
	exts       map[string]int
	argFn      map[string]bool
	opaque     func(*Call) bool
}

func newInterp(pr *Program, mod Module) *Interp {
	in := &Interp{pr: pr, mod: mod, limit: 10, maxSteps: 6000000, rootIdx: map[string]*Root{}, lenient: map[string]int{},
		fnInfo: map[*ssa.Function]*fnInfo{}, visited: map[*ssa.Function]bool{}, instrs: map[ssa.Instruction]bool{},
		viol: map[string]string{}, obl: map[string]bool{}, exts: map[string]int{}}
	return in
}

// oblige records a proof obligation at a construct and its verdict.
func (in *Interp) oblige(key string, ok bool, where, msg string) {
	if !in.rec {
		return
	}
	if prev, seen := in.obl[key]; !seen {
		in.obl[key] = ok
	} else if prev && !ok {
		in.obl[key] = false
	}
	if !ok {
		in.violate(key, where, msg)
	}
}
func (in *Interp) violate(key, where, msg string) {
	if !in.rec {
		return
	}
	if _, dup := in.viol[key]; !dup {
		in.viol[key] = where + ": " + msg
		in.violOrd = append(in.violOrd, key)
		in.obl[key] = false
	}
}

func (in *Interp) pos(fr *Frame, i ssa.Instruction) string {
	p := token.NoPos
	var fn *ssa.Function
	if i != nil {
		p = i.Pos()
		fn = i.Parent()
		if p == token.NoPos && i.Block() != nil {
			for _, x := range i.Block().Instrs {
				if x.Pos() != token.NoPos {
					p = x.Pos()
				}
				if x == i && p != token.NoPos {
					break
				}
			}
		}
	}
	if fn == nil && fr != nil {
		fn = fr.fn
	}
	if p == token.NoPos && fn != nil {
		p = fn.Pos()
	}
	s := in.pr.posString(p)
	if fn != nil {
		s += " (" + in.pr.fname(fn) + ")"
	}
	return s
}

func (fr *Frame) stack(in *Interp) string {
	var s []string
	for f := fr; f != nil; f = f.parent {
		if f.fn != nil {
			s = append(s, in.pr.fname(f.fn))
		}
	}
	return strings.Join(s, " <- ")
}

// ---------------------------------------------------------------- function info

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	unroll bool
	bounds []ssa.Value // computed before the loop; small constants when it is to be unrolled
}

type fnInfo struct {
	rpo    []*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*loopInfo
	liveIn map[*ssa.BasicBlock][]ssa.Value
}

func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return true
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if fi := in.fnInfo[fn]; fi != nil {
		return fi
	}
	fi := &fnInfo{loops: map[*ssa.BasicBlock]*loopInfo{}, liveIn: map[*ssa.BasicBlock][]ssa.Value{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				todo := []*ssa.BasicBlock{b}
				for len(todo) > 0 {
					x := todo[len(todo)-1]
					todo = todo[:len(todo)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					todo = append(todo, x.Preds...)
				}
			}
		}
	}
	for _, l := range fi.loops {
		l.unroll, l.bounds = smallConstLoop(l)
	}
	// liveness
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fi.rpo {
		live[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range live[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					cur[v] = true
				}
				pi := predIndex(b, s)
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b && (k == pi || true) {
							if trackable(ph.Edges[k]) {
								cur[ph.Edges[k]] = true
							}
						}
					}
				}
			}
			var ops []*ssa.Value
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if ph, ok := ins.(*ssa.Phi); ok {
					// phi results are live-in at their own block (assigned on edges)
					if cur[ph] {
						continue
					}
					continue
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				ops = ins.Operands(ops[:0])
				for _, o := range ops {
					if *o != nil && trackable(*o) {
						cur[*o] = true
					}
				}
			}
			if len(cur) != len(live[b]) {
				ch = true
				live[b] = cur
			}
		}
	}
	for b, m := range live {
		e := map[ssa.Value]Val{}
		for v := range m {
			e[v] = nil
		}
		fi.liveIn[b] = sortedVals(e)
	}
	in.fnInfo[fn] = fi
	return fi
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

// smallConstLoop recognises loops bounded by a small constant, which are
// partitioned by the counter instead of joined.
func smallConstLoop(l *loopInfo) (bool, []ssa.Value) {
	var bounds []ssa.Value
	for b := range l.blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		exits := false
		for _, s := range b.Succs {
			if !l.blocks[s] {
				exits = true
			}
		}
		if !exits {
			continue
		}
		for _, pair := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			if ins, ok := pair[1].(ssa.Instruction); ok && !l.blocks[ins.Block()] && isInt(pair[1].Type()) && dependsOnHeadPhi(pair[0], l.head, 3) {
				bounds = append(bounds, pair[1])
			}
			c, ok := pair[1].(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				continue
			}
			n, ok := constant.Int64Val(c.Value)
			if !ok || n < 1 || n > 6 {
				continue
			}
			if dependsOnHeadPhi(pair[0], l.head, 3) && (bo.Op == token.LSS || bo.Op == token.LEQ || bo.Op == token.NEQ || bo.Op == token.GTR) {
				return true, bounds
			}
		}
	}
	return false, bounds
}
func dependsOnHeadPhi(v ssa.Value, head *ssa.BasicBlock, d int) bool {
	if d == 0 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return x.Block() == head
	case *ssa.BinOp:
		if x.Op != token.ADD && x.Op != token.SUB {
			return false
		}
		return dependsOnHeadPhi(x.X, head, d-1)
	}
	return false
}

// ---------------------------------------------------------------- execution of a function body

type flow struct {
	edges map[*ssa.BasicBlock][]*Path
	rets  []Outcome
}

func (f *flow) add(o *flow) {
	for b, ps := range o.edges {
		f.edges[b] = append(f.edges[b], ps...)
	}
	f.rets = append(f.rets, o.rets...)
}

var retKey ssa.Value = ssa.NewConst(nil, types.Typ[types.UntypedNil])

func (in *Interp) runBody(fr *Frame, args, bind []Val, st *State) []Outcome {
	fn := fr.fn
	in.visited[fn] = true
	fi := in.info(fn)
	p := &Path{st: st, env: map[ssa.Value]Val{}}
	for i, prm := range fn.Params {
		if i < len(args) {
			p.env[prm] = args[i]
		} else {
			p.env[prm] = symVal(prm.Type(), freshTerm("arg"))
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			p.env[fv] = bind[i]
		} else {
			p.env[fv] = symVal(fv.Type(), freshTerm("fv"))
		}
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fi.rpo {
		all[b] = true
	}
	fl := in.region(fr, fi, all, nil, map[*ssa.BasicBlock][]*Path{fn.Blocks[0]: {p}})
	return in.mergeOutcomes(fr, fl.rets)
}

// region runs the blocks of a region in reverse post-order. head, when set,
// is the loop head treated as an ordinary entry block.
func (in *Interp) region(fr *Frame, fi *fnInfo, blocks map[*ssa.BasicBlock]bool, head *ssa.BasicBlock, pend map[*ssa.BasicBlock][]*Path) *flow {
	out := &flow{edges: map[*ssa.BasicBlock][]*Path{}}
	started := head == nil
	for _, b := range fi.rpo {
		if !blocks[b] {
			continue
		}
		if b == head {
			started = true
		}
		_ = started
		ps := pend[b]
		if len(ps) == 0 {
			continue
		}
		delete(pend, b)
		var fl *flow
		if l := fi.loops[b]; l != nil && b != head {
			fl = in.loop(fr, fi, l, ps)
		} else {
			if b != head {
				ps = in.merge(fr, fi, b, ps)
			}
			fl = in.block(fr, fi, b, ps)
		}
		out.rets = append(out.rets, fl.rets...)
		for t, q := range fl.edges {
			if blocks[t] && t != head {
				pend[t] = append(pend[t], q...)
			} else {
				out.edges[t] = append(out.edges[t], q...)
			}
		}
	}
	return out
}

func (in *Interp) block(fr *Frame, fi *fnInfo, b *ssa.BasicBlock, ps []*Path) *flow {
	out := &flow{edges: map[*ssa.BasicBlock][]*Path{}}
	for _, p := range ps {
		cur := []*Path{p}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				continue
			}
			switch x := ins.(type) {
			case *ssa.If:
				for _, q := range cur {
					in.branch(fr, fi, b, x, q, out)
				}
				cur = nil
			case *ssa.Jump:
				for _, q := range cur {
					in.edge(fr, fi, b, b.Succs[0], 0, q, out)
				}
				cur = nil
			case *ssa.Return:
				for _, q := range cur {
					in.mod.Instr(in, fr, q, ins)
					var rv Val
					switch len(x.Results) {
					case 0:
						rv = VTuple{}
					case 1:
						rv = in.get(q, x.Results[0])
					default:
						t := VTuple{}
						for _, r := range x.Results {
							t.E = append(t.E, in.get(q, r))
						}
						rv = t
					}
					out.rets = append(out.rets, Outcome{q.st, rv})
				}
				cur = nil
			case *ssa.Panic:
				for _, q := range cur {
					in.steps++
					in.mark(ins)
					in.mod.Panic(in, fr, q.st, ins)
				}
				cur = nil
			default:
				var next []*Path
				for _, q := range cur {
					next = append(next, in.exec(fr, q, ins)...)
				}
				cur = next
				if len(cur) > 3*in.limit {
					live := in.liveAfter(fi, b, ins)
					cur = in.mergeBy(fr, cur, live, in.limit)
				}
			}
			if len(cur) == 0 {
				break
			}
		}
	}
	return out
}

func (in *Interp) mark(i ssa.Instruction) {
	if in.rec {
		in.instrs[i] = true
	}
}

// liveAfter over-approximates the registers live after ins in b.
func (in *Interp) liveAfter(fi *fnInfo, b *ssa.BasicBlock, ins ssa.Instruction) []ssa.Value {
	m := map[ssa.Value]Val{}
	for _, s := range b.Succs {
		for _, v := range fi.liveIn[s] {
			m[v] = nil
		}
		for _, i := range s.Instrs {
			if ph, ok := i.(*ssa.Phi); ok {
				for k, p := range s.Preds {
					if p == b && trackable(ph.Edges[k]) {
						m[ph.Edges[k]] = nil
					}
				}
			}
		}
	}
	after := false
	var ops []*ssa.Value
	for _, i := range b.Instrs {
		if after {
			ops = i.Operands(ops[:0])
			for _, o := range ops {
				if *o != nil && trackable(*o) {
					m[*o] = nil
				}
			}
		}
		if i == ins {
			after = true
		}
	}
	return sortedVals(m)
}

func (in *Interp) branch(fr *Frame, fi *fnInfo, b *ssa.BasicBlock, x *ssa.If, p *Path, out *flow) {
	in.mark(x)
	in.mod.Instr(in, fr, p, x)
	for _, c := range alts(in.get(p, x.Cond)) {
		bv, ok := c.(VBool)
		var pr *Pred
		if ok {
			pr = bv.P
		} else {
			pr = pATOM(freshTerm("cond").op)
		}
		for k := 0; k < 2; k++ {
			for _, s := range in.assume(p.st, pr, k == 0) {
				q := p.clone()
				q.st = s
				in.edge(fr, fi, b, b.Succs[k], k, q, out)
			}
		}
	}
}

func (in *Interp) edge(fr *Frame, fi *fnInfo, from, to *ssa.BasicBlock, succ int, p *Path, out *flow) {
	// when both successors are the same block, pick the matching predecessor slot
	pi, seen := -1, 0
	for i, q := range to.Preds {
		if q == from {
			if seen == 0 || (len(from.Succs) == 2 && from.Succs[0] == from.Succs[1] && seen == succ) {
				pi = i
			}
			seen++
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, in.get(p, ph.Edges[pi]))
	}
	live := fi.liveIn[to]
	env := make(map[ssa.Value]Val, len(live)+len(phis))
	for _, v := range live {
		if x, ok := p.env[v]; ok {
			env[v] = x
		}
	}
	for i, ph := range phis {
		env[ph] = vals[i]
	}
	p.env = env
	out.edges[to] = append(out.edges[to], p)
}

// ---------------------------------------------------------------- merging

func (in *Interp) sig(p *Path, live []ssa.Value, coarse int) string {
	var b strings.Builder
	ms := in.mod.Sig(in, p.st)
	for _, k := range sortedKeys(p.st.d) {
		b.WriteString(k + "=" + p.st.d[k] + ";")
	}
	b.WriteString(ms)
	b.WriteByte('|')
	for _, d := range p.defers {
		fmt.Fprintf(&b, "D%p;", d.instr)
	}
	for _, k := range sortedKeys(p.st.g) {
		b.WriteString(k + ",")
	}
	if coarse > 0 {
		return b.String()
	}
	for _, v := range live {
		if x := p.env[v]; x != nil {
			if t := p.st.tag(x); t != "" {
				b.WriteString(v.Name() + ":" + t + ";")
			}
		}
	}
	return b.String()
}

func (in *Interp) merge(fr *Frame, fi *fnInfo, b *ssa.BasicBlock, ps []*Path) []*Path {
	if len(ps) <= in.limit {
		return ps
	}
	live := append([]ssa.Value(nil), fi.liveIn[b]...)
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		live = append(live, ph)
	}
	return in.mergeBy(fr, ps, live, in.limit)
}

func uniqVals(vs []ssa.Value) []ssa.Value {
	m := map[ssa.Value]bool{}
	var out []ssa.Value
	for _, v := range vs {
		if !m[v] {
			m[v] = true
			out = append(out, v)
		}
	}
	return out
}

func (in *Interp) mergeBy(fr *Frame, ps []*Path, live []ssa.Value, limit int) []*Path {
	live = uniqVals(live)
	for coarse := 0; coarse < 2; coarse++ {
		groups := map[string]*Path{}
		var order []string
		for _, p := range ps {
			s := in.sig(p, live, coarse)
			if q := groups[s]; q != nil {
				j, _ := in.joinPaths(q, p, fr, live, nil, false)
				groups[s] = j
			} else {
				groups[s] = p
				order = append(order, s)
			}
		}
		ps = nil
		for _, s := range order {
			ps = append(ps, groups[s])
		}
		if len(ps) <= 2*limit {
			break
		}
	}
	return ps
}

func (in *Interp) mergeOutcomes(fr *Frame, rs []Outcome) []Outcome {
	if len(rs) <= in.limit/2+1 {
		return rs
	}
	var ps []*Path
	for _, r := range rs {
		ps = append(ps, &Path{st: r.st, env: map[ssa.Value]Val{retKey: r.ret}})
	}
	ps = in.mergeBy(fr, ps, []ssa.Value{retKey}, in.limit)
	var out []Outcome
	for _, p := range ps {
		out = append(out, Outcome{p.st, p.env[retKey]})
	}
	return out
}

// ---------------------------------------------------------------- loops

type headState struct {
	p      *Path
	iter   int
	passes int
	dirty  bool
	fl     *flow // exits and returns of the last pass
}

const maxLoopIter = 40

func (in *Interp) loop(fr *Frame, fi *fnInfo, l *loopInfo, entry []*Path) *flow {
	live := append([]ssa.Value(nil), fi.liveIn[l.head]...)
	var phis []*ssa.Phi
	for _, ins := range l.head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		live = append(live, ph)
		phis = append(phis, ph)
	}
	live = uniqVals(live)
	unroll := l.unroll || in.small
	for _, b := range l.bounds {
		small := len(entry) > 0
		for _, p := range entry {
			n, ok := p.env[b].(VInt)
			if !ok {
				small = false
				break
			}
			k, ok := n.L.constI64()
			small = small && ok && k >= 1 && k <= 6
		}
		unroll = unroll || small
	}
	headSig := func(p *Path) string {
		s := in.sig(p, live, 0)
		for _, ph := range phis {
			v, ok := p.env[ph].(VInt)
			if !ok {
				continue
			}
			if unroll {
				if c, ok := v.L.constI64(); ok && c >= -1 && c <= 8 {
					s += "#" + strconv.FormatInt(c, 10)
				}
			}
			if in.K != nil {
				d := v.L.sub(in.K)
				if d != nil && p.st.num.le(d) {
					s += "L"
				} else if d != nil && p.st.num.lt(d.neg()) {
					s += "G"
				} else {
					s += "?"
				}
			}
		}
		return s
	}
	entryVars := map[Var]bool{}
	entryObjs := map[ObjID]bool{}
	entryTerms := map[*Term]bool{}
	for _, p := range entry {
		r := newReach()
		in.pathRoots(r, p, fr)
		r.close(p.st)
		for v := range r.vars {
			entryVars[v] = true
		}
		for o := range r.objs {
			entryObjs[o] = true
		}
		for o := range p.st.heap {
			entryObjs[o] = true
		}
		for t := range r.terms {
			entryTerms[t] = true
		}
		for _, c := range p.st.num.cons {
			for _, t := range c.l.t {
				entryVars[t.v] = true
			}
		}
	}
	heads := map[string]*headState{}
	var order []string
	insert := func(p *Path) bool {
		s := headSig(p)
		h := heads[s]
		if h == nil {
			if len(order) > 60 || os.Getenv("PARTS") != "" && strings.Contains(in.pr.fname(fr.fn), os.Getenv("PARTS")) && len(order) > 4 {
				if os.Getenv("CHKDEBUG") != "" {
					for _, o := range order {
						println("partition", o)
					}
				}
				panic(undecided{"too many loop partitions in " + in.pr.fname(fr.fn)})
			}
			in.gc(p, fr)
			heads[s] = &headState{p: p, dirty: true}
			order = append(order, s)
			return true
		}
		var names *loopNames
		names = in.headNames(h.p, fr, entryVars, entryObjs, entryTerms)
		jp, ch := in.joinPathsLoop(h.p, p, fr, live, names, h.passes >= wP || h.iter >= wI)
		if ch {
			h.iter++
			if h.iter > maxLoopIter {
				panic(undecided{"loop does not stabilise in " + in.pr.fname(fr.fn) + " at " + in.pos(fr, l.head.Instrs[0])})
			}
			h.p = jp
			h.dirty = true
		}
		return ch
	}
	for _, p := range entry {
		insert(p)
	}
	saved := in.rec
	in.rec = false
	mark := loopMark + strconv.Itoa(fr.depth) + ":" + strconv.Itoa(l.head.Index)
	vals := func(p *Path) map[string]Val {
		m := map[string]Val{}
		for _, v := range live {
			if x, ok := p.env[v]; ok && x != nil {
				m[v.Name()] = x
			}
		}
		return m
	}
	var headM map[string]*Lin
	pass := func(h *headState) *flow {
		names := in.headNames(h.p, fr, entryVars, entryObjs, entryTerms)
		var q *Path
		if unroll && h.iter == 0 {
			q = h.p.clone() // nothing was joined here, so all names still mean one thing
		} else {
			q = in.renameHead(h.p, names)
		}
		if in.loops != nil {
			q.st.d[mark] = "0"
			headM = measures(q.st, vals(q))
		}
		fl := in.region(fr, fi, l.blocks, l.head, map[*ssa.BasicBlock][]*Path{l.head: {q}})
		if in.loops != nil {
			for b, ps := range fl.edges {
				if b != l.head {
					for _, p := range ps {
						delete(p.st.d, mark)
					}
				}
			}
			for _, o := range fl.rets {
				delete(o.st.d, mark)
			}
		}
		return fl
	}
	var ways []transition
	waits := 0
	around := func(fl *flow) {
		for _, p := range fl.edges[l.head] {
			if p.st.d[mark] == "w" {
				waits++
				continue
			}
			fixed := map[Var]bool{}
			for v := range entryVars {
				fixed[v] = true
			}
			ways = append(ways, transition{headM, measures(p.st, vals(p)), p.st.num, fixed})
		}
	}
	for {
		again := false
		for i := 0; i < len(order); i++ {
			h := heads[order[i]]
			if !h.dirty {
				continue
			}
			h.dirty = false
			h.passes++
			fl := pass(h)
			h.fl = fl
			back := fl.edges[l.head]
			delete(fl.edges, l.head)
			for _, p := range back {
				delete(p.st.d, mark)
				in.gc(p, fr)
				if insert(p) {
					again = true
				}
			}
		}
		if !again {
			more := false
			for _, s := range order {
				if heads[s].dirty {
					more = true
				}
			}
			if !more {
				break
			}
		}
	}
	in.rec = saved
	if loopStats != nil {
		n, it := 0, 0
		for _, h := range heads {
			n += h.passes
			it += h.iter
		}
		loopStats(in.pr.fname(fr.fn)+" "+in.pos(fr, l.head.Instrs[0]), len(order), n, it)
		if os.Getenv("CHKDEBUG") == "2" {
			for _, s := range order {
				println("   HEAD", s)
			}
		}
	}
	out := &flow{edges: map[*ssa.BasicBlock][]*Path{}}
	for _, s := range order {
		h := heads[s]
		fl := h.fl
		if saved {
			fl = pass(h)
			if in.loops != nil {
				around(fl)
			}
			delete(fl.edges, l.head)
		}
		out.add(fl)
	}
	if saved && in.loops != nil && !isRange(l.head) {
		in.loops.loopDone(in, fr, l, ways, waits)
	}
	return out
}

// isRange tells whether a loop iterates over a map or string.
func isRange(b *ssa.BasicBlock) bool {
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

func (in *Interp) headNames(p *Path, fr *Frame, ev map[Var]bool, eo map[ObjID]bool, et map[*Term]bool) *loopNames {
	r := newReach()
	in.pathRoots(r, p, fr)
	r.close(p.st)
	n := &loopNames{hv: map[Var]bool{}, ht: map[*Term]bool{}, objs: map[ObjID]bool{}}
	for v := range r.vars {
		if !ev[v] {
			n.hv[v] = true
		}
	}
	for _, c := range p.st.num.cons {
		for _, t := range c.l.t {
			if !ev[t.v] {
				n.hv[t.v] = true
			}
		}
	}
	for o := range p.st.heap {
		if !eo[o] {
			n.objs[o] = true
		}
	}
	for t := range r.terms {
		if !et[t] && strings.HasPrefix(t.op, "φ") {
			n.ht[t] = true
		}
	}
	return n
}

func (in *Interp) joinPathsLoop(a, b *Path, fr *Frame, live []ssa.Value, names *loopNames, widen bool) (*Path, bool) {
	q, ch := in.joinPaths(a, b, fr, live, names, widen)
	if debugJoin && ch {
		fmt.Fprintf(os.Stderr, "LOOPJOIN %s changed\n", in.pr.fname(fr.fn))
	}
	return q, ch
}

// ---------------------------------------------------------------- predicates

func (in *Interp) eval(st *State, p *Pred) (bool, bool) {
	switch p.k {
	case pConst:
		return p.b, true
	case pLe:
		if st.num.le(p.l) {
			return true, true
		}
		if st.num.lt(p.l.neg()) {
			return false, true
		}
	case pEq:
		if st.num.eq0(p.l) {
			return true, true
		}
		if st.num.ne0(p.l) {
			return false, true
		}
	case pAtom:
		if b, ok := st.facts[p.atom]; ok {
			return b, true
		}
		if strings.HasPrefix(p.atom, "streq:") {
			i := strings.LastIndex(p.atom[:strings.Index(p.atom, "=")+1], "=")
			pre := p.atom[:i+1]
			for k, v := range st.facts {
				if v && strings.HasPrefix(k, pre) && k != p.atom {
					return false, true
				}
			}
		}
	case pNot:
		b, ok := in.eval(st, p.a)
		return !b, ok
	case pAnd:
		a, ok1 := in.eval(st, p.a)
		c, ok2 := in.eval(st, p.c)
		if ok1 && ok2 {
			return a && c, true
		}
		if (ok1 && !a) || (ok2 && !c) {
			return false, true
		}
	case pOr:
		a, ok1 := in.eval(st, p.a)
		c, ok2 := in.eval(st, p.c)
		if ok1 && ok2 {
			return a || c, true
		}
		if (ok1 && a) || (ok2 && c) {
			return true, true
		}
	}
	return false, false
}

// atomImp lists predicates implied by an atom being true / false.
var atomImp = map[string][2][]*Pred{}

func (in *Interp) assume(st *State, p *Pred, want bool) []*State {
	if b, ok := in.eval(st, p); ok && (p.k == pConst || p.k == pAtom) {
		if b == want {
			return []*State{st.clone()}
		}
		return nil
	}
	switch p.k {
	case pLe:
		l := p.l
		if !want {
			l = combine(l, -1, linC(1), 1)
		}
		n := st.num.assumeLe(l)
		if n == nil {
			return nil
		}
		s := st.clone()
		s.num = n
		return []*State{s}
	case pEq:
		var n *Num
		if want {
			n = st.num.assumeEq(p.l)
		} else {
			n = st.num.assumeNe(p.l)
		}
		if n == nil {
			return nil
		}
		s := st.clone()
		s.num = n
		return []*State{s}
	case pAtom:
		s := st.clone()
		s.facts[p.atom] = want
		out := []*State{s}
		imp := atomImp[p.atom]
		i := 1
		if want {
			i = 0
		}
		for _, q := range imp[i] {
			var nx []*State
			for _, x := range out {
				nx = append(nx, in.assume(x, q, true)...)
			}
			out = nx
		}
		return out
	case pNot:
		return in.assume(st, p.a, !want)
	case pAnd, pOr:
		if (p.k == pAnd) == want {
			var out []*State
			for _, s := range in.assume(st, p.a, want) {
				out = append(out, in.assume(s, p.c, want)...)
			}
			return out
		}
		out := in.assume(st, p.a, want)
		for _, s := range in.assume(st, p.a, !want) {
			out = append(out, in.assume(s, p.c, want)...)
		}
		return out
	}
	return nil
}

// ---------------------------------------------------------------- value access

func (in *Interp) get(p *Path, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return VPtr{Obj: in.globalObj(x)}
	case *ssa.Function:
		return VFunc{Fn: x}
	case *ssa.Builtin:
		return VOpaque{tm("builtin:" + x.Name()), x.Type()}
	}
	if r, ok := p.env[v]; ok && r != nil {
		return r
	}
	r := symVal(v.Type(), freshTerm("undef"))
	p.env[v] = r
	return r
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return vbool(constant.BoolVal(c.Value))
	case constant.String:
		return vstr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return VOpaque{tm("float:" + c.Value.ExactString()), t}
		}
		if n, ok := constant.Int64Val(c.Value); ok {
			return vint(n)
		}
		if n, ok := constant.Uint64Val(c.Value); ok {
			return VInt{linB(u128(n))}
		}
	}
	return VOpaque{tm("const:" + c.Value.ExactString()), t}
}

func (in *Interp) globalObj(g *ssa.Global) ObjID {
	t := tm("global:" + in.pr.short(g.Pkg.Pkg.Path()+"."+g.Name()))
	return symObjID(oCell, g.Type().Underlying().(*types.Pointer).Elem(), t)
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// ---------------------------------------------------------------- memory

func (in *Interp) freshByShape(typ types.Type, sh *Shape, why string) Val {
	t := freshTerm(why)
	v := symVal(typ, t)
	if sh == nil || sh.any {
		return v
	}
	switch typ.Underlying().(type) {
	case *types.Signature:
		if len(sh.fns) > 0 {
			var out []Val
			for _, f := range sh.fns {
				fv := VFunc{Fn: f}
				for _, b := range f.FreeVars {
					fv.Bind = append(fv.Bind, nonNil(symVal(b.Type(), freshTerm(why+".bind"))))
				}
				out = append(out, fv)
			}
			if sh.maybe0 {
				out = append(out, VNil{})
			}
			if len(out) == 1 {
				return out[0]
			}
			return VAlt{out}
		}
	case *types.Interface:
		if len(sh.dyns) > 0 {
			var out []Val
			for _, d := range sh.dyns {
				out = append(out, VIface{Dyn: d, V: nonNil(symVal(d, freshTerm(why+".dyn")))})
			}
			if sh.maybe0 {
				out = append(out, VNil{})
			}
			if len(out) == 1 {
				return out[0]
			}
			return VAlt{out}
		}
	case *types.Struct:
		if s, ok := v.(VStruct); ok && len(sh.fields) == len(s.F) {
			u := typ.Underlying().(*types.Struct)
			for i := range s.F {
				s.F[i] = in.freshByShape(u.Field(i).Type(), sh.fields[i], why+"."+u.Field(i).Name())
			}
			return s
		}
	default:
		if !sh.maybe0 {
			return nonNil(v)
		}
	}
	return v
}

func nonNil(v Val) Val {
	switch x := v.(type) {
	case VPtr:
		x.T = nil
		return x
	case VSlice:
		if x.nilK == 2 {
			x.nilK = 0
			x.T = nil
		}
		return x
	}
	return v
}

func (in *Interp) shapeOf(st *State, v Val) *Shape {
	switch x := v.(type) {
	case VFunc:
		return &Shape{fns: []*ssa.Function{x.Fn}}
	case VNil:
		return &Shape{maybe0: true}
	case VIface:
		if x.Dyn != nil {
			return &Shape{dyns: []types.Type{x.Dyn}}
		}
		return &Shape{any: true}
	case VPtr:
		if x.T != nil {
			if b, ok := st.facts[nilKey(x.T)]; !ok || b {
				return &Shape{maybe0: true}
			}
		}
		return &Shape{}
	case VSlice:
		if x.nilK != 0 {
			return &Shape{maybe0: true}
		}
		return &Shape{}
	case VStruct:
		s := &Shape{}
		for i := range x.F {
			s.fields = append(s.fields, in.shapeOf(st, x.field(i)))
		}
		return s
	case VAlt:
		var s *Shape
		c := false
		for i, a := range x.A {
			if i == 0 {
				s = in.shapeOf(st, a)
			} else {
				s = joinShape(s, in.shapeOf(st, a), &c)
			}
		}
		return s
	}
	return &Shape{}
}

func getPath(v Val, path []int) Val {
	for _, i := range path {
		s, ok := v.(VStruct)
		if !ok || i >= len(s.F) {
			return nil
		}
		v = s.field(i)
	}
	return v
}
func setPath(v Val, path []int, x Val) Val {
	if len(path) == 0 {
		return x
	}
	s, ok := v.(VStruct)
	if !ok || path[0] >= len(s.F) {
		return v
	}
	return s.with(path[0], setPath(s.field(path[0]), path[1:], x))
}

func (in *Interp) kActive(o *Obj) bool {
	if in.K == nil || o.kind != oRegion {
		return false
	}
	if b, ok := o.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return false
	}
	if in.Ktypes != nil {
		return in.Ktypes(o.typ)
	}
	return true
}

// splitK forks a state on the relation of idx to the distinguished index.
func (in *Interp) splitK(st *State, o *Obj, idx *Lin) []*State {
	if !in.kActive(o) {
		return []*State{st}
	}
	d := idx.sub(in.K)
	if d == nil {
		return []*State{st}
	}
	n := st.num
	if n.lt(d) || n.lt(d.neg()) || n.eq0(d) {
		return []*State{st}
	}
	var out []*State
	for k := 0; k < 3; k++ {
		var m *Num
		switch k {
		case 0:
			m = n.assumeLe(d.addC(1))
		case 1:
			m = n.assumeEq(d)
		case 2:
			m = n.assumeLe(d.neg().addC(1))
		}
		if m != nil {
			s := st.clone()
			s.num = m
			out = append(out, s)
		}
	}
	return out
}

func (in *Interp) elemLoad(st *State, id ObjID, idx *Lin) Val {
	o := st.obj(id)
	for _, c := range o.cells {
		if eqLin(c.idx, idx) {
			return c.v
		}
	}
	for _, c := range o.cells {
		if d := c.idx.sub(idx); d != nil && shareOrConst(c.idx, idx) && st.num.eq0(d) {
			return c.v
		}
	}
	var v Val
	switch {
	case !o.written && o.aux["elemOf"] != nil:
		b := o.aux["elemOf"].(VSlice)
		off := freshLin("suboff", i128(0), i128(maxLen))
		n := freshLin("sublen", i128(0), i128(maxLen))
		st.num = st.num.addCon(b.Off.sub(off), false).addCon(off.add(n).sub(b.Off).sub(b.Len), false)
		v = VSlice{R: b.R, Off: off, Len: n, Cap: b.Cap.add(b.Off).sub(off)}
	case !o.written && o.sym != nil:
		v = symVal(o.typ, tm("elem["+idx.key()+"]", o.sym))
	case !o.written && o.zero:
		return zeroVal(o.typ)
	default:
		if o.zero {
			// elements never provably overwritten may still be zero
			allDiff := true
			for _, c := range o.cells {
				if d := c.idx.sub(idx); d == nil || !st.num.ne0(d) {
					allDiff = false
				}
			}
			_ = allDiff
		}
		sh := o.shape
		v = in.freshByShape(o.typ, sh, "elem")
	}
	n := st.mut(id)
	n.cells = append(append([]Cell(nil), n.cells...), Cell{idx, v})
	if len(n.cells) > 24 {
		n.cells = n.cells[1:]
	}
	return v
}

func shareOrConst(a, b *Lin) bool { return true }

func (in *Interp) elemStore(st *State, id ObjID, idx *Lin, v Val) {
	n := st.mut(id)
	var keep []Cell
	for _, c := range n.cells {
		d := c.idx.sub(idx)
		if d != nil && st.num.ne0(d) {
			keep = append(keep, c)
		}
	}
	n.cells = append(keep, Cell{idx, v})
	if len(n.cells) > 24 {
		n.cells = n.cells[1:]
	}
	n.written = true
	sh := in.shapeOf(st, v)
	if n.shape == nil {
		n.shape = sh
	} else {
		c := false
		n.shape = joinShape(n.shape, sh, &c)
	}
}

type stVal struct {
	st *State
	v  Val
}

// load reads through a pointer; several results when the content is a
// disjunction that is refined by the read.
func (in *Interp) load(st *State, ptr VPtr) []stVal {
	o := st.obj(ptr.Obj)
	var v Val
	var back func(s *State, x Val)
	switch {
	case o.kind == oRegion && ptr.Idx != nil:
		var out []stVal
		for _, s := range in.splitK(st, o, ptr.Idx) {
			e := in.elemLoad(s, ptr.Obj, ptr.Idx)
			x := getPath(e, ptr.Path)
			if x == nil {
				x = VOpaque{freshTerm("load"), nil}
			}
			set := func(t *State, y Val) {
				n := t.mut(ptr.Obj)
				cs := append([]Cell(nil), n.cells...)
				for i := range cs {
					if eqLin(cs[i].idx, ptr.Idx) {
						cs[i].v = setPath(cs[i].v, ptr.Path, y)
					}
				}
				n.cells = cs
			}
			out = append(out, in.refine(s, x, set)...)
		}
		return out
	case o.kind == oRegion: // whole array
		if a, ok := o.n.constI64(); ok && a <= 16 {
			vs := VStruct{F: make([]Val, a), typ: types.NewArray(o.typ, a)}
			for i := range vs.F {
				vs.F[i] = in.elemLoad(st, ptr.Obj, linC(int64(i)))
			}
			return []stVal{{st, vs}}
		}
		return []stVal{{st, VOpaque{freshTerm("array"), nil}}}
	default:
		if o.val == nil {
			n := st.mut(ptr.Obj)
			n.val = cellInit(o)
			o = n
			if t := o.sym; t != nil && strings.HasPrefix(t.op, "global:") && isErrorType(o.typ) {
				if i, ok := n.val.(VIface); ok && i.T != nil {
					st.facts[nilKey(i.T)] = false
				}
			}
		}
		v = getPath(o.val, ptr.Path)
		if v == nil {
			return []stVal{{st, VOpaque{freshTerm("load"), nil}}}
		}
		back = func(s *State, x Val) {
			n := s.mut(ptr.Obj)
			n.val = setPath(n.val, ptr.Path, x)
		}
	}
	return in.refine(st, v, back)
}

func (in *Interp) refine(st *State, v Val, back func(*State, Val)) []stVal {
	switch x := v.(type) {
	case VAlt:
		var out []stVal
		for i, a := range x.A {
			s := st
			if i < len(x.A)-1 {
				s = st.clone()
			}
			back(s, a)
			out = append(out, in.refine(s, a, back)...)
		}
		return out
	case VSlice:
		if len(x.R) > 1 {
			var out []stVal
			for i, r := range x.R {
				s := st
				if i < len(x.R)-1 {
					s = st.clone()
				}
				y := x
				y.R = []ObjID{r}
				back(s, y)
				out = append(out, stVal{s, y})
			}
			return out
		}
	}
	return []stVal{{st, v}}
}

func (in *Interp) store(st *State, ptr VPtr, v Val) []*State {
	o := st.obj(ptr.Obj)
	if o.kind == oRegion && ptr.Idx != nil {
		ss := in.splitK(st, o, ptr.Idx)
		for _, s := range ss {
			x := v
			if len(ptr.Path) > 0 {
				x = setPath(in.elemLoad(s, ptr.Obj, ptr.Idx), ptr.Path, v)
			}
			in.elemStore(s, ptr.Obj, ptr.Idx, x)
		}
		return ss
	}
	if o.kind == oRegion {
		n := st.mut(ptr.Obj)
		n.cells = nil
		n.written = true
		if vs, ok := v.(VStruct); ok {
			for i := range vs.F {
				in.elemStore(st, ptr.Obj, linC(int64(i)), vs.field(i))
			}
		}
		return []*State{st}
	}
	n := st.mut(ptr.Obj)
	if len(ptr.Path) == 0 {
		n.val = v
	} else {
		if n.val == nil {
			n.val = cellInit(n)
		}
		n.val = setPath(n.val, ptr.Path, v)
	}
	return []*State{st}
}

// bulkWrite models writing n elements at lo, optionally copied from src.
func (in *Interp) bulkWrite(fr *Frame, st *State, id ObjID, lo, n *Lin, src *VSlice, srcSt *Obj, instr ssa.Instruction) {
	in.mod.Bulk(in, fr, st, id, lo, n, src, instr)
	if c, ok := n.constI64(); ok && c == 0 {
		return
	}
	o := st.mut(id)
	var keep []Cell
	hi := lo.add(n)
	for _, c := range o.cells {
		d1 := c.idx.sub(lo) // idx-lo < 0
		d2 := hi.sub(c.idx) // hi-idx <= 0
		if st.num.lt(d1) || st.num.le(d2) {
			keep = append(keep, c)
		}
	}
	if src != nil && srcSt != nil {
		for _, c := range srcSt.cells {
			rel := c.idx.sub(src.Off)
			if rel == nil {
				continue
			}
			if st.num.le(rel.neg()) && st.num.lt(rel.sub(n)) {
				keep = append(keep, Cell{rel.add(lo), c.v})
			}
		}
		c := false
		if srcSt.shape != nil {
			o.shape = joinShape(o.shape, srcSt.shape, &c)
		} else if !isByteElem(o.typ) {
			o.shape = &Shape{any: true}
		}
	} else if !isByteElem(o.typ) {
		o.shape = &Shape{any: true}
	}
	if len(keep) > 24 {
		keep = keep[len(keep)-24:]
	}
	o.cells = keep
	o.written = true
}

func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func sortInts(x []int) { sort.Ints(x) }

var wP, wI = func() (int, int) { a, b := 3, 10; fmt.Sscanf(os.Getenv("WIDEN"), "%d,%d", &a, &b); return a, b }()

var loopStats func(where string, parts, passes, iters int)

func init() {
	if os.Getenv("CHKDEBUG") != "" {
		loopStats = func(where string, parts, passes, iters int) {
			fmt.Println("LOOP", where, "partitions", parts, "passes", passes, "joins", iters)
		}
	}
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
