package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C09: the bytes of a received message stay as they are. Lines, tags and
// values refer to parts of them (without copying), so whatever is written into
// them changes data which is still to be looked at.

// received collects the byte regions NATS hands to callbacks.
func received(p *PTA) map[*pObj]string {
	out := map[*pObj]string{}
	var mark func(o *pObj, by string)
	mark = func(o *pObj, by string) {
		if _, ok := out[o]; ok {
			return
		}
		for _, l := range o.ord {
			if l.path == "[]" && l.typ != nil && isByteElem(l.typ) {
				out[o] = by
			}
		}
		for _, k := range o.kids {
			mark(k, by)
		}
	}
	for _, r := range p.roots {
		if r.kind != "nats" {
			continue
		}
		by := p.pr.fname(r.inst.fn)
		for _, q := range r.inst.fn.Params {
			if _, ok := q.Type().Underlying().(*types.Pointer); !ok {
				continue
			}
			for _, k := range r.inst.val(q).kids {
				mark(k, by)
			}
		}
	}
	return out
}

func init() {
	register(&Property{id: "C09", level: "other", rule: "points-to analysis that keeps call paths apart: no store, append, copy or mutating call reaches memory of a received NATS message", run: func(c *Ctx) {
		for _, cp := range componentList {
			if cp.mode == "listener" || cp.mode == "listener_http" {
				continue
			}
			p, _ := c.pr.component(cp.start)
			r := &raceCheck{c: c, p: p, mode: cp.mode, acc: map[*pObj][]*access{}, seen: map[string]bool{}, memo: map[string]lockset{}, pubs: map[*pRoot][]pubSite{}, local: map[*pRoot]map[*pObj]bool{}}
			for _, root := range p.roots {
				if root.kind != "init" {
					r.walk(root.inst, lockset{}, map[*pInst]bool{})
				}
			}
			marks := received(p)
			c.count["received buffers "+cp.mode] += len(marks)
			for o, by := range marks {
				fns := map[*ssa.Function]bool{}
				for _, a := range r.acc[o] {
					if a.path != "[]" {
						continue
					}
					key := "unchanged:" + cp.mode + ":" + c.pr.fname(a.inst.fn)
					c.oblige(key, !a.write, c.pr.posString(posOf(a.ins))+" ("+a.inst.path()+")", "may write into the bytes of a message received by "+by)
					c.count["uses of received bytes "+cp.mode]++
					fns[a.inst.fn] = true
				}
				c.count["functions using received bytes "+cp.mode] += len(fns)
			}
			c.count["call instances"] += len(p.insts)
			c.need("received buffers "+cp.mode, 1)
			c.need("uses of received bytes "+cp.mode, 1)
		}
	}})
}
