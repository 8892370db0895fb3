package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// C12: what the rules match. Every pair of rule types is built from a
// configuration with arbitrary texts and tried on an arbitrary line with up to
// two tags; what the code compared on each path must entail its answer.

type rulesMod struct {
	BaseModule
	c     *Ctx
	line  VSlice
	nTags int
	rules []*ruleSpec
	meas  *Term
	text  *Term // the unescaped line
	// what hashes were made of
	hash map[string]*Term
}

// srcTerm names the text or bytes a value holds.
func srcTerm(st *State, v Val) *Term {
	switch x := unwrap(v).(type) {
	case VStr:
		return x.T
	case VSlice:
		if len(x.R) == 0 {
			return tm("str:")
		}
		if len(x.R) != 1 {
			return nil
		}
		o := st.obj(x.R[0])
		if o.written || o.sym == nil {
			return nil
		}
		if o.n != nil && o.sym.op == "bytes" && st.num.eq0(x.Off) && eqBoth(st, o.n, x.Len) {
			return o.sym.args[0]
		}
		return tm("content", o.sym, linTerm1(x.Off), linTerm1(x.Len))
	}
	return nil
}

func eqKey(a, b *Term) string {
	x, y := a.String(), b.String()
	if y < x {
		x, y = y, x
	}
	return "eq:" + x + "==" + y
}

// same tells what a path knows about the equality of two texts: 1, 0 or -1.
func (m *rulesMod) same(st *State, a, b *Term) int {
	if a == nil || b == nil {
		return -1
	}
	if a == b {
		return 1
	}
	switch st.d[eqKey(a, b)] {
	case "1":
		return 1
	case "0":
		return 0
	}
	for _, k := range []string{"streq2:" + strconv.Itoa(a.id) + "," + strconv.Itoa(b.id), "streq2:" + strconv.Itoa(b.id) + "," + strconv.Itoa(a.id)} {
		if v, ok := st.facts[k]; ok {
			if v {
				return 1
			}
			return 0
		}
	}
	x, ok := st.g["hash:"+a.String()].(VInt)
	y, ok2 := st.g["hash:"+b.String()].(VInt)
	if ok && ok2 && st.d["with:"+a.String()] == st.d["with:"+b.String()] && st.num.ne0(x.L.sub(y.L)) {
		return 0 // their hashes differ
	}
	return -1
}

func (m *rulesMod) fork(c *Call, a, b *Term, t, f Val) []Outcome {
	k := m.same(c.st, a, b)
	var out []Outcome
	if k != 0 {
		s := c.st.clone()
		s.d[eqKey(a, b)] = "1"
		out = append(out, Outcome{s, t})
	}
	if k != 1 {
		s := c.st.clone()
		s.d[eqKey(a, b)] = "0"
		out = append(out, Outcome{s, f})
	}
	return out
}

func (m *rulesMod) Pre(c *Call) ([]Outcome, bool) {
	where := c.in.pos(c.fr, c.instr)
	switch {
	case c.name == "influx.ParseTags":
		s := c.slice(0)
		m.check(c.in, "parsed", sameSlice(c.st, s, m.line), where, "something else than the line is parsed")
		st, bad := c.st, c.st.clone()
		rt := c.rtyp.(*types.Tuple)
		meas := symVal(rt.At(0).Type(), tm("measurement")).(VSlice)
		m.meas = srcTerm(st, meas)
		var tags []Val
		for i := 0; i < m.nTags; i++ {
			n := strconv.Itoa(i)
			bt := types.NewSlice(types.Typ[types.Uint8])
			tags = append(tags, m.tag(rt.At(1).Type(), symVal(bt, tm("key"+n)), symVal(bt, tm("value"+n))))
		}
		bad.d["malformed"] = "1"
		return []Outcome{
			{st, VTuple{E: []Val{meas, litSlice(st, rt.At(1).Type(), tags...), symVal(rt.At(2).Type(), tm("remainder")), VNil{}}}},
			{bad, VTuple{E: []Val{VNil{}, VNil{}, VNil{}, errVal(bad, "malformed")}}},
		}, true
	case c.name == "influx.Unescape":
		s := c.slice(0)
		r := nonNil(symVal(types.NewSlice(types.Typ[types.Uint8]), tm("unescaped", srcTermOr(c.st, s)))).(VSlice)
		if sameSlice(c.st, s, m.line) {
			m.text = srcTerm(c.st, r)
		}
		return c.outs(r), true
	case c.name == "regexp.MustCompile" || c.name == "regexp.Compile":
		src := srcTerm(c.st, c.arg(0))
		if src == nil {
			src = freshTerm("pattern")
		}
		if c.name == "regexp.MustCompile" {
			return c.outs(nonNil(symVal(c.rtyp, tm("regexp", src)))), true
		}
		outs := c.okOrErr("regexp")
		t := outs[0].ret.(VTuple)
		t.E[0] = nonNil(symVal(c.rtyp.(*types.Tuple).At(0).Type(), tm("regexp", src)))
		outs[1].st.d["badre"] = "1"
		return outs, true
	case strings.HasPrefix(c.name, "(*regexp.Regexp).Match"):
		var p *Term
		if q, ok := c.arg(0).(VPtr); ok && c.st.hasObj(q.Obj) {
			if y := c.st.obj(q.Obj).sym; y != nil && y.op == "regexp" {
				p = y.args[0]
			}
		}
		if p == nil {
			panic(undecided{"a regular expression which does not come from a rule"})
		}
		t := srcTerm(c.st, c.arg(1))
		if t == nil || t != m.text {
			m.check(c.in, "text", false, where, "a regular expression is tried on something else than the unescaped line")
			return c.outs(c.fresh("match")), true
		}
		m.check(c.in, "text", true, where, "")
		return m.fork(c, p, tm("matches"), vbool(true), vbool(false)), true
	case c.name == "bytes.Equal" || c.name == "bytes.Compare" || c.name == "strings.Compare":
		a, b := srcTerm(c.st, c.arg(0)), srcTerm(c.st, c.arg(1))
		if a == nil || b == nil {
			return nil, false
		}
		if c.name == "bytes.Equal" {
			return m.fork(c, a, b, vbool(true), vbool(false)), true
		}
		var outs []Outcome
		for _, d := range []int64{-1, 1} {
			c2 := *c
			c2.st = c.st.clone()
			f := m.fork(&c2, a, b, vint(0), vint(d))
			if d == 1 && len(f) > 1 {
				f = f[1:]
			}
			outs = append(outs, f...)
		}
		return outs, true
	case strings.HasPrefix(c.name, "hash/") && strings.Contains(c.name, ".New"):
		r := nonNil(c.fresh("hash"))
		m.hash[valString(r)] = tm("nothing")
		return c.outs(r), true
	case strings.HasSuffix(c.name, ").Write") && m.hash[valString(c.arg(0))] != nil:
		k := valString(c.arg(0))
		t := srcTerm(c.st, c.arg(1))
		if m.hash[k] != tm("nothing") || t == nil {
			t = freshTerm("several")
		}
		m.hash[k] = t
		n := c.slice(1).Len
		return c.outs(VTuple{E: []Val{VInt{n}, VNil{}}}), true
	case strings.Contains(c.name, "hash") && strings.Contains(c.name, ").Sum"):
		if src := m.hash[valString(c.arg(0))]; src != nil {
			return m.sum(c, src), true
		}
	case strings.HasPrefix(c.name, "hash/") && strings.Contains(c.name, ".Checksum"):
		if src := srcTerm(c.st, c.arg(0)); src != nil {
			return m.sum(c, src), true
		}
	}
	return nil, false
}

// Sig keeps paths apart which know different things about the measurement.
func (m *rulesMod) Sig(in *Interp, st *State) string {
	for _, r := range m.rules {
		if r.typ != "basic" || m.meas == nil {
			continue
		}
		if k := m.same(st, m.meas, r.match); k >= 0 && m.meas != r.match {
			st.d[eqKey(m.meas, r.match)] = strconv.Itoa(k)
		}
	}
	return ""
}

func (m *rulesMod) sum(c *Call, src *Term) []Outcome {
	v, ok := symVal(c.rtyp, tm("hash:"+c.name, src)).(VInt)
	if !ok {
		panic(undecided{"result of " + c.name})
	}
	c.st.g["hash:"+src.String()] = v
	c.st.d["with:"+src.String()] = c.name
	return c.outs(v)
}

func srcTermOr(st *State, v Val) *Term {
	if t := srcTerm(st, v); t != nil {
		return t
	}
	return freshTerm("bytes")
}

func (m *rulesMod) check(in *Interp, key string, ok bool, where, msg string) {
	if in.rec {
		m.c.oblige(key, ok, where, msg)
		m.c.inst(key)
	}
}

func (m *rulesMod) tag(tags types.Type, k, v Val) Val {
	t := tags.Underlying().(*types.Slice).Elem()
	return zeroVal(t).(VStruct).with(fieldIdx(t, "Key"), k).with(fieldIdx(t, "Value"), v)
}

// litSlice makes a slice of the given elements.
func litSlice(st *State, t types.Type, vs ...Val) VSlice {
	if len(vs) == 0 {
		return zeroVal(t).(VSlice)
	}
	n := linC(int64(len(vs)))
	o := &Obj{kind: oRegion, typ: t.Underlying().(*types.Slice).Elem(), n: n, written: true, site: "literal"}
	for i, v := range vs {
		o.cells = append(o.cells, Cell{linC(int64(i)), v})
	}
	return VSlice{R: []ObjID{st.alloc(o)}, Off: linC(0), Len: n, Cap: n}
}

// ruleSpec is one rule of a configuration.
type ruleSpec struct {
	typ  string
	tags int
	// set by build
	match, subject *Term
	keys, values   []*Term
}

func (r ruleSpec) String() string {
	if r.typ == "tags" {
		return fmt.Sprintf("%d tags", r.tags)
	}
	return r.typ
}

func (r *ruleSpec) build(st *State, t types.Type, name string) Val {
	str := types.Typ[types.String]
	sym := func(what string) VStr { return symVal(str, tm("rule"+name+"."+what)).(VStr) }
	v := zeroVal(t).(VStruct).with(fieldIdx(t, "Rtype"), vstr(r.typ))
	subj := sym("subject")
	r.subject = subj.T
	v = v.with(fieldIdx(t, "Subject"), subj)
	if r.typ != "tags" {
		s := sym("match")
		r.match = s.T
		return v.with(fieldIdx(t, "Match"), s)
	}
	tt := t.Underlying().(*types.Struct).Field(fieldIdx(t, "Tags")).Type()
	var rows []Val
	for i := 0; i < r.tags; i++ {
		k, x := sym("key"+strconv.Itoa(i)), sym("value"+strconv.Itoa(i))
		r.keys, r.values = append(r.keys, k.T), append(r.values, x.T)
		rows = append(rows, litSlice(st, tt.Underlying().(*types.Slice).Elem(), k, x))
	}
	return v.with(fieldIdx(t, "Tags"), litSlice(st, tt, rows...))
}

func and3(a, b int) int {
	switch {
	case a == 0 || b == 0:
		return 0
	case a == 1 && b == 1:
		return 1
	}
	return -1
}
func not3(a int) int {
	if a < 0 {
		return a
	}
	return 1 - a
}

// matches says whether the path has established that the rule matches (1) or
// does not (0).
func (m *rulesMod) matches(st *State, r *ruleSpec) int {
	switch r.typ {
	case "basic":
		return m.same(st, m.meas, r.match)
	case "regex":
		return m.same(st, r.match, tm("matches"))
	case "negregex":
		return not3(m.same(st, r.match, tm("matches")))
	}
	all := 1
	for i := range r.keys {
		some := 0
		for j := 0; j < m.nTags; j++ {
			n := strconv.Itoa(j)
			bt := types.NewSlice(types.Typ[types.Uint8])
			k := srcTerm(st, symVal(bt, tm("key"+n)))
			v := srcTerm(st, symVal(bt, tm("value"+n)))
			some = not3(and3(not3(some), not3(and3(m.same(st, r.keys[i], k), m.same(st, r.values[i], v)))))
		}
		all = and3(all, some)
	}
	return all
}

func tryRules(c *Ctx, nTags int, rules ...*ruleSpec) {
	m := &rulesMod{c: c, nTags: nTags, rules: rules, hash: map[string]*Term{}}
	in := newInterp(c.pr, m)
	in.limit = 3000
	in.small = true
	var names []string
	for _, r := range rules {
		names = append(names, r.String())
	}
	name := strings.Join(names, ", ")
	st := in.globalsState()
	f := c.pr.fn("filter.RuleSetFromConfig")
	args := in.symArgs(f)
	p, ok := configPtr(st, args[0])
	if !ok {
		panic(undecided{"the argument of filter.RuleSetFromConfig"})
	}
	x := st.mut(p.Obj)
	if x.val == nil {
		x.val = cellInit(x)
	}
	i := fieldIdx(x.typ, "Rule")
	rt := x.typ.Underlying().(*types.Struct).Field(i).Type()
	var rs []Val
	for k, r := range rules {
		rs = append(rs, r.build(st, rt.Underlying().(*types.Slice).Elem(), strconv.Itoa(k)))
	}
	st.mut(p.Obj).val = x.val.(VStruct).with(i, litSlice(st, rt, rs...))
	where := c.pr.posString(f.Pos())
	valid := false
	for _, o := range in.runEntry(f, args, nil, st) {
		if !mustNil(o.st, retN(o.ret, 1)) {
			m.check(in, "rejected", len(rules) > 0 && (rules[0].typ == noMode || o.st.d["badre"] != ""), where, "rules which are right are rejected")
			continue
		}
		valid = true
		m.check(in, "type", len(rules) == 0 || rules[0].typ != noMode, where, "a rule of a type which does not exist is accepted")
		m.subjects(in, o, rules, name)
		m.lookup(in, o, rules, name)
	}
	if len(rules) == 0 || rules[0].typ != noMode {
		m.check(in, "accepted", valid, where, "no rules are made from a configuration ("+name+")")
	}
	c.absorb(in)
}

func (m *rulesMod) subjects(in *Interp, o Outcome, rules []*ruleSpec, name string) {
	f := m.c.pr.fn("(*filter.RuleSet).Subjects")
	where := m.c.pr.posString(f.Pos())
	for _, q := range in.runEntry(f, []Val{retN(o.ret, 0)}, nil, o.st.clone()) {
		s, ok := sliceOf(q.ret)
		ok = ok && q.st.num.eq0(s.Len.addC(-int64(len(rules))))
		for i, r := range rules {
			if ok {
				v, is := in.elemLoad(q.st, s.R[0], s.Off.addC(int64(i))).(VStr)
				ok = is && v.T == r.subject
			}
		}
		m.check(in, "subjects", ok, where, "the subjects of the rules are not those configured ("+name+")")
	}
}

func (m *rulesMod) lookup(in *Interp, o Outcome, rules []*ruleSpec, name string) {
	f := m.c.pr.fn("(*filter.RuleSet).Lookup")
	where := m.c.pr.posString(f.Pos())
	args := in.symArgs(f)
	args[0] = retN(o.ret, 0)
	m.line = args[1].(VSlice)
	for _, q := range in.runEntry(f, args, nil, o.st) {
		got, ok := q.ret.(VInt)
		n, ok2 := int64(0), false
		if ok {
			n, ok2 = got.L.constI64()
		}
		if !ok2 || n < -1 || n >= int64(len(rules)) {
			m.check(in, "answer", false, where, "the answer is not a rule ("+name+")")
			continue
		}
		if q.st.d["malformed"] != "" {
			m.check(in, "malformed", n == -1, where, "a line which cannot be parsed matches ("+name+")")
			continue
		}
		want := -1
		for i, r := range rules {
			is := m.matches(q.st, r)
			if is == 0 {
				continue
			}
			if want = i; is < 0 {
				want = -2
			}
			break
		}
		key := "matches:" + name
		msg := fmt.Sprintf("rule %d is chosen although what was compared does not say that it is the first to match", n)
		if n < 0 {
			key, msg = "matches not:"+name, "no rule is chosen although what was compared does not rule out that one matches"
		}
		m.check(in, key, int64(want) == n, where, msg+" ("+name+")")
	}
}

func init() {
	register(&Property{id: "C12", level: "other", rule: "abstract interpretation of building rules from a configuration and trying them on a line: the comparisons made on each path must entail the rule chosen", run: func(c *Ctx) {
		single := []ruleSpec{{typ: "basic"}, {typ: "regex"}, {typ: "negregex"}, {typ: "tags", tags: 1}, {typ: "tags", tags: 2}}
		tryRules(c, 1)
		tryRules(c, 1, &ruleSpec{typ: noMode})
		for _, r := range single {
			for n := 0; n <= 4-r.tags; n++ {
				r := r
				tryRules(c, n, &r)
			}
		}
		var pairs []string
		for _, a := range single[:4] {
			for _, b := range single[:4] {
				a, b := a, b
				tryRules(c, 1, &a, &b)
				pairs = append(pairs, "matches:"+a.String()+", "+b.String())
			}
		}
		sort.Strings(pairs)
		for _, k := range append(pairs, "malformed", "subjects", "text", "accepted", "rejected") {
			c.need(k, 1)
		}
	}})
}
