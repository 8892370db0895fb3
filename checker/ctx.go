package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx collects what one property check analysed and found.
type Ctx struct {
	pr    *Program
	prop  string
	tier  string
	obl   map[string]bool
	viol  map[string]string
	vord  []string
	funcs map[string]bool
	notes []string
	count map[string]int
	min   map[string]int
	ext   map[string]int
	rules []string
}

func newCtx(pr *Program, prop, tier string) *Ctx {
	return &Ctx{pr: pr, prop: prop, tier: tier, obl: map[string]bool{}, viol: map[string]string{}, funcs: map[string]bool{}, count: map[string]int{}, min: map[string]int{}, ext: map[string]int{}}
}

// oblige records one obligation; key names the rule and construct.
func (c *Ctx) oblige(key string, ok bool, where, msg string) {
	if prev, seen := c.obl[key]; !seen {
		c.obl[key] = ok
	} else if prev && !ok {
		c.obl[key] = false
	}
	if !ok {
		if _, dup := c.viol[key]; !dup {
			c.viol[key] = where + ": " + msg
			c.vord = append(c.vord, key)
		}
	}
}
func (c *Ctx) note(f string, a ...interface{}) { c.notes = append(c.notes, fmt.Sprintf(f, a...)) }
func (c *Ctx) rule(s string)                   { c.rules = append(c.rules, s) }
func (c *Ctx) inst(rule string)                { c.count[rule]++ }
func (c *Ctx) need(rule string, n int) {
	if n > c.min[rule] {
		c.min[rule] = n
	}
}
func (c *Ctx) visit(f *ssa.Function) { c.funcs[c.pr.fname(f)] = true }

// absorb copies the result of an abstract interpretation.
func (c *Ctx) absorb(in *Interp) {
	for k, ok := range in.obl {
		if _, bad := in.viol[k]; !bad {
			c.oblige(k, ok, "", "obligation not discharged: "+k)
		}
	}
	for _, k := range in.violOrd {
		m := in.viol[k]
		i := strings.Index(m, ": ")
		c.oblige(k, false, m[:i], m[i+2:])
	}
	for f := range in.visited {
		c.visit(f)
	}
	for k, n := range in.exts {
		c.ext[k] += n
	}
	for k, n := range in.lenient {
		c.count["engine: "+k] += n
	}
	c.count["abstract instructions executed"] += in.steps
	c.count["program points covered"] += len(in.instrs)
	c.count["joins"] += in.nJoins
}

// ---------------------------------------------------------------- running the engine

// globalsState interprets the package initialisers of the repository.
func (in *Interp) globalsState() *State {
	if in.base != nil {
		return in.base.clone()
	}
	save, sl, so := in.rec, in.limit, in.rootsOff
	in.rec, in.rootsOff = false, true
	mod := in.mod
	in.mod = BaseModule{}
	st := newState()
	done := map[*types.Package]bool{}
	var order []*ssa.Package
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if sp := in.pr.prog.Package(p); sp != nil && strings.HasPrefix(p.Path(), in.pr.mod) {
			s := in.pr.short(p.Path())
			if s != "spouttest" && s != "cmd/slowinfluxd" && s != "cmd/benchcheck" {
				order = append(order, sp)
			}
		}
	}
	for _, p := range in.pr.pkgs {
		visit(p.Types)
	}
	for _, sp := range order {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				id := in.globalObj(g)
				o := st.mut(id)
				et := g.Type().Underlying().(*types.Pointer).Elem()
				if a, ok := et.Underlying().(*types.Array); ok {
					o.kind = oRegion
					o.typ = a.Elem()
					o.zero = true
					o.sym = nil
					o.n = linC(a.Len())
				} else {
					o.val = zeroVal(et)
				}
				in.globals = append(in.globals, id)
			}
		}
	}
	for _, sp := range order {
		f := sp.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		fr := &Frame{}
		c := &Call{in: in, fr: fr, st: st, fn: f, name: in.pr.fname(f), rtyp: types.NewTuple()}
		outs := in.inlineInit(fr, c)
		if len(outs) == 0 {
			panic(undecided{"package initialiser does not return: " + in.pr.fname(f)})
		}
		st = outs[0].st
		for _, o := range outs[1:] {
			p, _ := in.joinPaths(&Path{st: st, env: map[ssa.Value]Val{}}, &Path{st: o.st, env: map[ssa.Value]Val{}}, fr, nil, nil, false)
			st = p.st
		}
	}
	in.mod = mod
	in.rec, in.limit, in.rootsOff = save, sl, so
	in.base = st
	return st.clone()
}

func (in *Interp) inlineInit(fr *Frame, c *Call) []Outcome {
	nf := &Frame{fn: c.fn, parent: fr}
	prev := in.opaque
	in.opaque = func(cc *Call) bool { // imported initialisers run on their own
		return cc.fn != nil && cc.fn.Name() == "init" && cc.fn.Synthetic != ""
	}
	defer func() { in.opaque = prev }()
	return in.runBody(nf, nil, nil, c.st)
}

// symArgs gives unknown, non-nil arguments.
func (in *Interp) symArgs(f *ssa.Function) []Val {
	var out []Val
	for i, p := range f.Params {
		out = append(out, nonNil(symVal(p.Type(), tm(fmt.Sprintf("arg%d:%s", i, in.pr.fname(f))))))
	}
	return out
}

// runEntry interprets f from a state and returns its outcomes.
func (in *Interp) runEntry(f *ssa.Function, args, bind []Val, st *State) []Outcome {
	fr := &Frame{fn: f}
	fr.pinned = append(append([]Val(nil), args...), bind...)
	in.rec = true
	return in.runBody(fr, args, bind, st)
}

// runRoots interprets every function started concurrently or registered as a
// callback, until no new one appears.
func (in *Interp) runRoots(prep func(*Root, *State) *State) {
	for i := 0; i < len(in.roots); i++ {
		r := in.roots[i]
		if len(in.roots) > 200 {
			panic(undecided{"too many concurrent entry points"})
		}
		in.curRoot = r
		done := 0
		for _, p := range r.states {
			if done >= 60 {
				panic(undecided{"too many states in which " + r.key + " is started"})
			}
			done++
			in.curPath = p
			st := p.st.clone()
			if prep != nil {
				if st = prep(r, st); st == nil {
					continue
				}
			}
			f := p.env[rootFnKey].(VFunc)
			in.runEntry(f.Fn, p.env[rootArgKey].(VTuple).E, f.Bind, st)
		}
		in.curRoot = nil
	}
}

// ---------------------------------------------------------------- results

type known struct {
	prop, key, text string
	fixed           bool
}

func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		if strings.HasPrefix(l, "fixed:") {
			continue
		}
		// property=<id> key=<obligation key> :: <what fails>
		i := strings.Index(l, " :: ")
		if i < 0 || !strings.HasPrefix(l, "property=") {
			continue
		}
		h := strings.SplitN(strings.TrimPrefix(l[:i], "property="), " key=", 2)
		if len(h) != 2 {
			continue
		}
		out = append(out, known{prop: h[0], key: strings.TrimSpace(h[1]), text: l[i+4:]})
	}
	return out
}

type evidence struct {
	Property   string                 `json:"property"`
	Tier       string                 `json:"tier"`
	Seed       int                    `json:"seed"`
	Level      string                 `json:"level"`
	Coverage   map[string]interface{} `json:"coverage"`
	WallS      float64                `json:"wall_s"`
	Violations int                    `json:"violations"`
}

func (c *Ctx) finish(p *Property, root string, start time.Time, seed int) int {
	for r, n := range c.min {
		if c.count[r] < n {
			c.oblige("coverage:"+r, false, "checker", fmt.Sprintf("only %d instances of %q found, at least %d expected", c.count[r], r, n))
		}
	}
	kn := readKnown(filepath.Join(root, "known_findings.txt"))
	bad := 0
	dis := 0
	for _, ok := range c.obl {
		if ok {
			dis++
		}
	}
	var replay []string
	for _, k := range c.vord {
		listed := false
		for _, f := range kn {
			if f.prop == c.prop && f.key == k {
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", c.prop, f.text, c.viol[k])
				listed = true
				break
			}
		}
		if listed {
			continue
		}
		bad++
		replay = append(replay, fmt.Sprintf("rule instance: %s\n%s\n", k, c.viol[k]))
	}
	fns := make([]string, 0, len(c.funcs))
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	obs := make([]string, 0, len(c.obl))
	for k, ok := range c.obl {
		s := "discharged"
		if !ok {
			s = "FAILED"
		}
		obs = append(obs, k+": "+s)
	}
	sort.Strings(obs)
	if len(obs) > 400 {
		obs = append(obs[:400], "...")
	}
	exts := make([]string, 0)
	for k := range c.ext {
		exts = append(exts, k)
	}
	sort.Strings(exts)
	cov := map[string]interface{}{
		"explanation":       p.rule + " (" + fmt.Sprintf("%d obligations, %d discharged, %d functions analysed", len(c.obl), dis, len(c.funcs)) + ")",
		"obligations":       len(c.obl),
		"discharged":        dis,
		"obligation_list":   obs,
		"rules":             c.rules,
		"instances":         c.count,
		"functions":         fns,
		"assumed_externals": exts,
		"notes":             c.notes,
		"checker_cmd":       "bin/chk -repo /repo -prop " + c.prop,
		"trusted_base":      "the checker itself, go/types and go/ssa, the contracts of external functions in checker/models.go",
	}
	ev := evidence{c.prop, c.tier, seed, p.level, cov, time.Since(start).Seconds(), bad}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(root, "evidence", c.prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions analysed, %.1fs\n", c.prop, len(c.obl), dis, len(c.funcs), time.Since(start).Seconds())
	var ks []string
	for k := range c.count {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  %s: %d\n", k, c.count[k])
	}
	if bad == 0 {
		return 0
	}
	for _, r := range replay {
		fmt.Println("  " + strings.ReplaceAll(r, "\n", "\n    "))
	}
	rp := filepath.Join(root, "evidence", c.prop+".violation.txt")
	os.WriteFile(rp, []byte(strings.Join(replay, "\n")), 0644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, rp)
	return 1
}

// take adds the result of another run.
func (c *Ctx) take(o *Ctx) {
	for _, k := range sortedKeys(o.obl) {
		if _, bad := o.viol[k]; !bad {
			c.oblige(k, o.obl[k], "", "obligation not discharged: "+k)
		}
	}
	for _, k := range o.vord {
		m := o.viol[k]
		i := strings.Index(m, ": ")
		c.oblige(k, false, m[:i], m[i+2:])
	}
	for f := range o.funcs {
		c.funcs[f] = true
	}
	for k, n := range o.count {
		c.count[k] += n
	}
	for k, n := range o.ext {
		c.ext[k] += n
	}
	for k, n := range o.min {
		c.need(k, n)
	}
}
