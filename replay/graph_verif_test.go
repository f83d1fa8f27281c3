package semnet

import (
	"fmt"
	"strings"

	abstractRemark "github.com/mem-memov/semnet/internal/abstract/remark"
)

func init() {
	vScenarios["all histories"] = func(v *vRun) {
		for k, h := range vHistories() {
			v.scenario(fmt.Sprintf("history %d", k), func() { v.follow(v.world(vNew(nil)), h, v.prop != "C04" && v.prop != "C15") })
			v.scenario(fmt.Sprintf("history %d on clew", k), func() { v.follow(v.world(vClew()), h, true) })
		}
	}
	for _, p := range []string{"C01", "C02", "C03", "C10", "C11", "C12", "C13", "C14", "C20", "C05"} {
		vScenarios["random "+p] = func(v *vRun) {
			v.scenario("random history", func() { v.random() })
		}
	}
	vScenarios["C01 texts"] = func(v *vRun) {
		v.scenario("texts", func() {
			w := v.world(vNew(nil))
			for i, a := range vGood {
				for j, b := range vGood {
					if (i+j)%7 == 0 || i == j {
						r := w.step(vCall{kind: "story", object: a, property: b})
						w.want(r, w.see(r.h), "returned remark", "")
					}
				}
			}
			w.wantAll(NewGraph(w.s), "new graph", "")
		})
	}
	vScenarios["C06 refused texts"] = func(v *vRun) { v.refused() }
	vScenarios["random C06"] = func(v *vRun) { v.refusedRandom() }
	vScenarios["C05 refused texts"] = func(v *vRun) { v.refused() }
	vScenarios["C03 refused texts"] = func(v *vRun) { v.refused() }
	vScenarios["C04 faults"] = func(v *vRun) { v.faults(4) }
	vScenarios["C05 faults"] = func(v *vRun) { v.faults(3) }
	vScenarios["C15 faults"] = func(v *vRun) { v.faults(5) }
	vScenarios["C03 faults"] = func(v *vRun) { v.faults(1) }
	for _, p := range []string{"C04", "C05", "C15", "C03"} {
		vScenarios["random faults "+p] = nil
		delete(vScenarios, "random faults "+p)
		vScenarios["random "+p+" faults"] = func(v *vRun) { v.faultsRandom() }
	}
	vScenarios["C13 chains"] = func(v *vRun) { v.chains() }
	vScenarios["C10 chains"] = func(v *vRun) { v.chains() }
	vScenarios["C03 chains"] = func(v *vRun) { v.chains() }
	vScenarios["C04 chains"] = func(v *vRun) { v.chains() }
	vScenarios["C14 looks"] = func(v *vRun) { v.looks() }
	vScenarios["C05 half made"] = func(v *vRun) { v.halfMade() }
	vScenarios["C14 half made"] = func(v *vRun) { v.halfMade() }
	vScenarios["C04 opening"] = func(v *vRun) { v.opening() }
	vScenarios["C05 opening"] = func(v *vRun) { v.opening() }
	for _, p := range []string{"C01", "C02", "C03", "C10", "C11", "C12", "C13", "C20"} {
		vScenarios[p+" wide"] = func(v *vRun) { v.wide() }
	}
	vScenarios["C11 long"] = func(v *vRun) { v.long() }
	vScenarios["C12 long"] = func(v *vRun) { v.long() }
	vScenarios["C10 long"] = func(v *vRun) { v.long() }
}

// follow performs a history and compares everything after every call
func (v *vRun) follow(w *vWorld, h []vCall, each bool) {
	before := map[uint]vSeen{}
	for _, c := range h {
		var on, seen = -1, vSeen{}
		if c.kind != "story" {
			on = c.on
			if v.prop == "C10" || v.prop == "C12" || v.prop == "C11" {
				seen = w.see(w.remarks[on].h)
			}
		}
		w.s.writes = nil
		r := w.step(c)
		o := w.see(r.h)
		w.want(r, o, "returned remark", "")
		w.after(c, r, o, on, seen)
		if !each {
			continue
		}
		w.s.writes = nil
		now := w.seeAll(w.g)
		if len(w.s.writes) > 0 {
			v.fail("C14", "looking performs %v", w.s.writes)
		}
		w.kept("C03", c.String(), before, now, false)
		before = now
		for _, x := range w.remarks {
			w.want(x, now[x.id], "after "+c.String(), "")
		}
		w.walk()
	}
	w.wantAll(NewGraph(w.s), "new graph", "")
	// the old handles see what new ones see
	for _, r := range w.remarks {
		w.want(r, w.see(r.h), "first handle", "")
	}
	w.walk()
	v.overlap(w)
}

// after checks what a creating call promises about the remark it returns
func (w *vWorld) after(c vCall, r *mRemark, o vSeen, on int, was vSeen) {
	v := w.v
	switch c.kind {
	case "remark":
		if v.prop == "C10" && (o.first != was.first || o.nextFact != was.nextFact || o.nextSto != was.nextSto) {
			v.fail("C10", "%s: leads to first fact %d, next fact %d, next story %d; the remark it was called on to %d, %d, %d", c, o.first, o.nextFact, o.nextSto, was.first, was.nextFact, was.nextSto)
		}
		if o.object != w.remarks[on].object || o.property != c.property {
			v.fail("C10", "%s returns a remark with text %q, %q", c, o.object, o.property)
		}
	case "story", "child":
		if o.first != r.id {
			v.fail("C20", "%s: the first fact of the returned remark has remark %d", c, o.first)
			v.fail("C12", "%s: the first fact of the returned remark has remark %d", c, o.first)
		}
		if o.nextFact != 0 || o.nextSto != 0 {
			v.fail("C20", "%s: the new story leads to fact %d, story %d", c, o.nextFact, o.nextSto)
		}
	case "fact":
		if o.nextFact != 0 {
			v.fail("C11", "%s: a fact follows the new one: %d", c, o.nextFact)
		}
	}
}

// walk follows facts from the first one and children from the first one
func (w *vWorld) walk() {
	v := w.v
	if v.prop != "C11" && v.prop != "C12" && v.prop != "C20" {
		return
	}
	for _, s := range w.stories {
		walk := func(kind, prop string, from uint, want []uint) {
			h, err := w.g.GetRemark(from)
			if err != nil {
				v.fail(prop, "GetRemark(%d): %v", from, err)
				return
			}
			got := []uint{from}
			for {
				var ok bool
				var err error
				var n abstractRemark.Aggregate
				v.guard("following "+kind, func() {
					if kind == "facts" {
						ok, err = h.HasNextFact()
					} else {
						ok, err = h.HasNextStory()
					}
					if err != nil || !ok {
						return
					}
					if kind == "facts" {
						n, err = h.GetNextFact()
					} else {
						n, err = h.GetNextStory()
					}
				})
				if err != nil {
					v.fail(prop, "following %s from %d: %v", kind, from, err)
					return
				}
				if !ok {
					break
				}
				h = Remark{Aggregate: n}
				got = append(got, n.GetIdentifier())
				if len(got) > len(want)+2 {
					break
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				v.fail(prop, "following %s from remark %d visits %v instead of %v", kind, from, got, want)
				v.fail("C20", "following %s from remark %d visits %v instead of %v", kind, from, got, want)
			}
		}
		var want []uint
		for _, f := range s.facts {
			want = append(want, f.remarks[0].id)
		}
		walk("facts", "C11", want[0], want)
		if len(s.children) > 0 {
			want = nil
			for _, c := range s.children {
				want = append(want, c.facts[0].remarks[0].id)
			}
			walk("stories", "C12", want[0], want)
		}
	}
}

// overlap: no two stories lead to one remark
func (v *vRun) overlap(w *vWorld) {
	seen := map[uint]uint{}
	for _, r := range w.remarks {
		if x, ok := seen[r.id]; ok {
			v.fail("C20", "identifier %d is given twice (%d)", r.id, x)
		}
		seen[r.id] = r.id
	}
}

func (v *vRun) random() {
	s := vNew(nil)
	if v.rnd.Intn(10) == 0 {
		s = vClew()
	}
	w := v.world(s)
	var h = v.rnd.Intn(14) + 3
	before := map[uint]vSeen{}
	for k := 0; k < h; k++ {
		c := w.anyCall()
		var was vSeen
		if c.kind != "story" && (v.prop == "C10") {
			was = w.see(w.remarks[c.on].h)
		}
		on := c.on
		r := w.try(c)
		if r == nil {
			continue
		}
		o := w.see(r.h)
		w.want(r, o, "returned remark", "")
		w.after(c, r, o, on, was)
		if v.prop == "C03" {
			now := w.seeAll(w.g)
			w.kept("C03", c.String(), before, now, false)
			before = now
		}
		if v.prop == "C14" {
			w.s.writes = nil
			w.seeAll(w.g)
			if len(w.s.writes) > 0 {
				v.fail("C14", "looking performs %v", w.s.writes)
			}
		}
		switch v.rnd.Intn(8) {
		case 0:
			w.reopen()
		case 1:
			w.wantAll(w.g, "now", "")
		}
	}
	w.wantAll(NewGraph(w.s), "new graph", "")
	w.wantAll(w.g, "graph", "")
	w.walk()
}

// ------------------------------------------------------------ bad texts

func (v *vRun) badCalls(w *vWorld, bad string, good string) []vCall {
	cs := []vCall{{"story", 0, bad, good}, {"story", 0, good, bad}, {"story", 0, bad, bad}}
	if len(w.remarks) > 0 {
		on := v.rnd.Intn(len(w.remarks))
		cs = append(cs, vCall{"remark", on, "", bad}, vCall{"fact", on, bad, good}, vCall{"fact", on, good, bad}, vCall{"child", on, bad, good}, vCall{"child", on, good, bad})
	}
	return cs
}

func (v *vRun) refuse(w *vWorld, c vCall, before map[uint]vSeen) {
	v.log("%s", c)
	h, err := w.do(c)
	if err == nil {
		o := vSeen{}
		if h.Aggregate != nil {
			o = w.see(h)
		}
		v.fail("C06", "%s is accepted and reads %q, %q", c, o.object, o.property)
		panic(vAbort{})
	}
	v.log("  refused: %v", err)
	if before != nil {
		now := w.seeAll(w.g)
		w.kept("C06", c.String(), before, now, true)
		w.kept("C03", c.String(), before, now, false)
	}
}

func (v *vRun) refused() {
	v.scenario("refused texts on a new graph", func() {
		for _, bad := range vBad {
			w := v.world(vNew(nil))
			for _, c := range v.badCalls(w, bad, "a b") {
				v.refuse(w, c, nil)
			}
			w.step(vCall{"story", 0, "a b", "c"})
			w.wantAll(w.g, "after refusal", "C06")
		}
	})
	v.scenario("refused texts", func() {
		w := v.small()
		before := w.seeAll(w.g)
		for k, bad := range vBad {
			for j, c := range v.badCalls(w, bad, vGood[(k*3)%len(vGood)]) {
				var b map[uint]vSeen
				if j == k%4 {
					b = before
				}
				v.refuse(w, c, b)
			}
			w.kept("C06", "after refusals", before, w.seeAll(w.g), true)
		}
		for _, c := range vHistories()[0][1:] {
			w.try(c)
		}
		w.wantAll(w.g, "after refusals", "C06")
		w.wantAll(NewGraph(w.s), "after refusals", "C06")
	})
}

func (v *vRun) refusedRandom() {
	v.scenario("random refusals", func() {
		w := v.world(vNew(nil))
		for k := 0; k < 12; k++ {
			if v.rnd.Intn(2) == 0 {
				w.step(w.anyCall())
				continue
			}
			cs := v.badCalls(w, v.badText(), v.text())
			v.refuse(w, cs[v.rnd.Intn(len(cs))], w.seeAll(w.g))
		}
		w.wantAll(w.g, "after refusals", "C06")
	})
}

// --------------------------------------------------------------- faults

// looks are the calls that only look
func (w *vWorld) lookCalls() map[string]func(r *mRemark) error {
	return map[string]func(r *mRemark) error{
		"GetObjectAndProperty": func(r *mRemark) error { _, _, err := r.h.GetObjectAndProperty(); return err },
		"GetFirstFact":         func(r *mRemark) error { _, err := r.h.GetFirstFact(); return err },
		"HasNextFact":          func(r *mRemark) error { _, err := r.h.HasNextFact(); return err },
		"GetNextFact":          func(r *mRemark) error { _, err := r.h.GetNextFact(); return err },
		"HasNextStory":         func(r *mRemark) error { _, err := r.h.HasNextStory(); return err },
		"GetNextStory":         func(r *mRemark) error { _, err := r.h.GetNextStory(); return err },
		"HasNextRemark":        func(r *mRemark) error { _, err := r.h.HasNextRemark(); return err },
		"GetNextRemark":        func(r *mRemark) error { _, err := r.h.GetNextRemark(); return err },
		"GetRemark":            func(r *mRemark) error { _, err := w.g.GetRemark(r.id); return err },
		"GetStory":             func(r *mRemark) error { _, err := NewOutput(w.g).GetStory(r.h); return err },
	}
}

// lookFaults: every failing operation of every looking call is reported
func (v *vRun) lookFaults(w *vWorld) {
	for i, r := range w.remarks {
		for n, f := range w.lookCalls() {
			v.guard(n, func() { w.s.arm(-1); f(r) })
			total := w.s.ops
			for k := 1; k <= total; k++ {
				for _, all := range []bool{false, true} {
					if all {
						w.s.arm(k)
					} else {
						w.s.arm(-1, k)
					}
					var err error
					v.log("remark %d: %s, storage operation %d fails (and all later ones: %v)", i, n, k, all)
					v.guard(n, func() { err = f(r) })
					if err == nil && w.s.failed > 0 {
						v.fail("C04", "%s on remark %d reports no error although its storage operation %d failed", n, i, k)
					}
					w.s.disarm()
				}
			}
			v.trace = v.trace[:0]
		}
	}
	w.s.disarm()
}

// faultAt performs a call with failing storage operations, then looks, retries and looks again
func (v *vRun) faultAt(w *vWorld, c vCall, from int, at []int, init bool) {
	before := w.seeAll(w.g)
	g0 := w.g
	if from >= 0 {
		w.s.arm(from)
		v.log("all storage operations from number %d on fail", from)
	} else {
		w.s.arm(-1, at...)
		v.log("storage operations %v fail", at)
	}
	v.log("%s", c)
	h, err := w.do(c)
	failed := w.s.failed
	w.s.disarm()
	if err != nil {
		v.log("  error: %v", err)
	} else {
		v.log("  no error")
	}
	if failed > 0 && err == nil {
		v.fail("C04", "%s reports no error although a storage operation failed", c)
		if h.Aggregate == nil {
			panic(vAbort{})
		}
	}
	if failed == 0 {
		if err != nil {
			v.fail("C01", "%s fails without a storage failure: %v", c, err)
			panic(vAbort{})
		}
		w.record(c, h)
		return
	}
	if err == nil {
		panic(vAbort{})
	}
	if !init || v.prop == "C04" {
		return
	}
	for k, g := range []*Graph{g0, NewGraph(w.s)} {
		now := w.seeAll(g)
		w.kept("C15", fmt.Sprintf("after the failed %s (graph %d)", c, k), before, now, true)
		w.kept("C03", fmt.Sprintf("after the failed %s (graph %d)", c, k), before, now, false)
	}
	if v.prop != "C15" && v.prop != "C05" {
		return
	}
	v.log("%s (again)", c)
	h, err = w.do(c)
	if err != nil {
		v.fail("C15", "%s fails when it is retried: %v", c, err)
		panic(vAbort{})
	}
	w.record(c, h)
	w.wantAll(w.g, "after the retried "+c.String(), "C15")
	w.wantAll(NewGraph(w.s), "after the retried "+c.String()+" on a new graph", "C15")
	// later calls
	for _, d := range []vCall{{"fact", len(w.remarks) - 1, "later", "one"}, {"child", c.on, "later", "two"}, {"fact", c.on, "one", "later"}, {"child", c.on, "two", "later"}, {"story", 0, c.object + "x", c.property}} {
		if !vValid(d.object) {
			continue
		}
		if w.remarks[d.on].h.Aggregate == nil {
			continue
		}
		h, err := w.do(d)
		if err != nil {
			v.fail("C15", "%s fails after the retried %s: %v", d, c, err)
			panic(vAbort{})
		}
		w.record(d, h)
	}
	w.wantAll(w.g, "later, after the retried "+c.String(), "C15")
}

func (v *vRun) faults(depth int) {
	base := v.small()
	calls := []vCall{
		{"fact", 0, "new", "goes"}, {"child", 2, "goes new", "a cat"}, {"remark", 3, "", "a cat"}, {"story", 0, "xyz goes", "zyx"}, {"child", 7, "a", "a"},
		{"fact", 4, "cat", "cats cat"}, {"remark", 6, "", "to"}, {"story", 0, "to", "play"}, {"child", 0, "catx", "x"},
	}
	for ci, c := range calls {
		total := 0
		v.scenario("count operations", func() {
			w := base.clone()
			w.s.arm(-1)
			w.do(c)
			total = w.s.ops
		})
		step := 1
		if v.prop != "C04" && v.prop != "C05" && ci > depth+1 {
			step = 5
		}
		for k := 1; k <= total && !v.over(); k += step {
			v.scenario(fmt.Sprintf("fault at %d of %s", k, c), func() { v.faultAt(base.clone(), c, -1, []int{k}, true) })
			if v.prop == "C04" || v.prop == "C05" {
				v.scenario(fmt.Sprintf("faults from %d of %s", k, c), func() { v.faultAt(base.clone(), c, k, nil, true) })
			}
		}
	}
	v.scenario("faults of looking calls", func() { v.lookFaults(base.clone()) })
	v.opening()
}

// opening: faults while the storage is initialised
func (v *vRun) opening() {
	c := vCall{"story", 0, "ab", "c"}
	total := 0
	v.scenario("count operations", func() {
		w := v.world(vNew(nil))
		w.s.arm(-1)
		w.do(c)
		total = w.s.ops
	})
	for k := 1; k <= total; k++ {
		v.scenario(fmt.Sprintf("fault at %d on an empty storage", k), func() { v.faultAt(v.world(vNew(nil)), c, -1, []int{k}, false) })
		v.scenario(fmt.Sprintf("faults from %d on an empty storage", k), func() {
			w := v.world(vNew(nil))
			v.faultAt(w, c, k, nil, false)
			w.do(c)
			w.g.GetRemark(1)
			w.g.GetRemark(9)
		})
	}
	v.scenario("GetRemark on an empty storage", func() {
		for k := 0; k < 40; k++ {
			w := v.world(vNew(nil))
			w.s.arm(-1)
			if k > 0 {
				w.s.arm(-1, k)
			}
			var err error
			v.guard("GetRemark", func() { _, err = w.g.GetRemark(9) })
			if w.s.failed > 0 && err == nil {
				v.fail("C04", "GetRemark on an empty storage reports no error although storage operation %d failed", k)
			}
		}
	})
}

func (v *vRun) faultsRandom() {
	v.scenario("random faults", func() {
		w := v.world(vNew(nil))
		for k := v.rnd.Intn(6) + 1; k > 0; k-- {
			w.step(w.anyCall())
		}
		for k := 0; k < 4; k++ {
			c := w.anyCall()
			x := w.clone()
			x.s.arm(-1)
			x.do(c)
			n := x.s.ops
			if n == 0 {
				continue
			}
			at := []int{n - v.rnd.Intn(n)}
			if v.rnd.Intn(3) == 0 {
				at = []int{n - v.rnd.Intn(1+n/20)}
			}
			if v.rnd.Intn(3) == 0 {
				at = append(at, at[0]+1)
			}
			v.faultAt(w, c, -1, at, true)
		}
		w.wantAll(w.g, "at the end", "C15")
		w.wantAll(NewGraph(w.s), "at the end", "C15")
		if v.prop == "C04" && len(w.remarks) > 0 {
			w.remarks = w.remarks[:1+v.rnd.Intn(len(w.remarks))]
			if len(w.remarks) > 2 {
				w.remarks = w.remarks[len(w.remarks)-2:]
			}
			v.lookFaults(w)
		}
	})
}

// --------------------------------------------------------------- chains

// chains: facts with several remarks, linked directly in the storage
func (v *vRun) chains() {
	for _, on := range []int{0, 3, 4, 5, 6} {
		on := on
		v.scenario(fmt.Sprintf("remarks linked to remark %d", on), func() {
			w := v.small()
			head := w.remarks[on%len(w.remarks)]
			text := func(r *mRemark) string { return r.object + " " + r.property + " " }
			first := head.fact.story.facts[0].remarks[0]
			want := text(first)
			before := w.seeAll(w.g)
			last := first
			for k := 0; k < 4; k++ {
				i := 0
				for j, r := range w.remarks {
					if r == first {
						i = j
					}
				}
				n := w.step(vCall{"remark", i, "", fmt.Sprintf("p%d q", 3-k)})
				// the position node is the second one after the remark's own identifier
				pos := func(id uint) uint {
					_, d := w.s.refs(id)
					_, p := w.s.refs(d)
					return p
				}
				w.s.quiet = true
				w.s.Connect(pos(last.id), pos(n.id))
				w.s.quiet = false
				v.log("link remark %d to remark %d", last.id, n.id)
				last = n
				want += text(n)
				for _, r := range w.remarks {
					if r.fact.story != first.fact.story {
						continue
					}
					o := w.see(r.h)
					if o.text != want || o.err != "" {
						v.fail("C13", "remark %d prints %q instead of %q %s", r.id, o.text, want, o.err)
					}
				}
				now := w.seeAll(w.g)
				w.kept("C03", "linking remarks", before, now, false)
				for id, o := range now {
					if id == last.id && o.nextRem != 0 {
						v.fail("C13", "a remark follows the last one")
					}
				}
			}
			if v.prop == "C04" {
				x := w.clone()
				v.lookFaults(x)
			}
			w.s.writes = nil
			w.seeAll(w.g)
			if len(w.s.writes) > 0 {
				v.fail("C14", "looking performs %v", w.s.writes)
			}
		})
	}
}

// looks: no looking call modifies the storage, also when the storage fails
func (v *vRun) looks() {
	v.scenario("looking", func() {
		w := v.small()
		for i, r := range w.remarks {
			for n, f := range w.lookCalls() {
				w.s.writes = nil
				w.s.arm(-1)
				v.log("remark %d: %s", i, n)
				v.guard(n, func() { f(r) })
				total := w.s.ops
				if len(w.s.writes) > 0 {
					v.fail("C14", "%s on remark %d performs %v", n, i, w.s.writes)
				}
				for k := 1; k <= total; k++ {
					w.s.arm(-1, k)
					v.guard(n, func() { f(r) })
					if len(w.s.writes) > 0 {
						v.fail("C14", "%s on remark %d performs %v when storage operation %d fails", n, i, w.s.writes, k)
					}
				}
				w.s.disarm()
			}
		}
		for _, n := range append(w.s.nodes(), 0, w.s.last+5) {
			w.s.writes = nil
			v.log("GetRemark(%d)", n)
			v.guard("GetRemark", func() { w.g.GetRemark(n) })
			v.guard("GetRemark", func() { NewGraph(w.s).GetRemark(n) })
			if len(w.s.writes) > 0 {
				v.fail("C14", "GetRemark(%d) performs %v", n, w.s.writes)
			}
		}
	})
	v.chains()
	v.halfMade()
}

// halfMade: remarks left behind by interrupted calls are looked at
func (v *vRun) halfMade() {
	v.scenario("half made remarks", func() {
		base := v.small()
		for _, c := range []vCall{{"fact", 1, "n", "m"}, {"child", 3, "nn", "m"}, {"remark", 2, "", "mm"}, {"story", 0, "nm", "mn"}} {
			w := base.clone()
			w.s.arm(-1)
			w.do(c)
			total := w.s.ops
			for k := 1; k <= total; k++ {
				if k > 30 && k < total-30 {
					continue
				}
				w := base.clone()
				w.s.arm(-1, k)
				v.log("%s with failing operation %d", c, k)
				w.do(c)
				w.s.disarm()
				w.s.writes = nil
				for _, n := range w.s.sources(6) {
					var h Remark
					var err error
					v.guard("GetRemark", func() { h, err = w.g.GetRemark(n) })
					if err != nil {
						continue
					}
					w.see(h)
					if len(w.s.writes) > 0 {
						v.fail("C14", "looking at a half made remark performs %v", w.s.writes)
					}
					if v.prop == "C05" {
						x := w.clone()
						hh, _ := x.g.GetRemark(n)
						v.guard("calls on a half made remark", func() {
							hh.AddRemarkToFact("a")
							hh.AddFactToStory("a", "b")
							hh.CreateChildStory("a", "b")
						})
					}
				}
				v.trace = v.trace[:0]
			}
		}
	})
}

// long stories and many siblings
func (v *vRun) long() {
	v.scenario("a long story with many children", func() {
		w := v.world(vNew(nil))
		w.step(vCall{"story", 0, "s", "t"})
		for k := 0; k < 12; k++ {
			w.step(vCall{"fact", v.rnd.Intn(len(w.remarks)), fmt.Sprint("f", k), strings.Repeat("x", k+1)})
			w.step(vCall{"child", v.rnd.Intn(len(w.remarks)), fmt.Sprint("c", k), "y"})
			w.step(vCall{"remark", v.rnd.Intn(len(w.remarks)), "", fmt.Sprint("r", k)})
			w.walk()
		}
		w.wantAll(w.g, "now", "")
		w.wantAll(NewGraph(w.s), "new graph", "")
	})
}

// more of everything than a fixed limit would allow for
func (v *vRun) wide() {
	v.scenario("a wide graph", func() {
		w := v.world(vNew(nil))
		w.step(vCall{"story", 0, "s", "t"})
		for k := 0; k < 80; k++ {
			w.step(vCall{"fact", 0, "f", strings.Repeat("x", k+1)})
			w.step(vCall{"child", 0, fmt.Sprint("c", k), "y"})
			w.step(vCall{"remark", 0, "", fmt.Sprint("r", k)})
			w.step(vCall{"remark", len(w.remarks) - 1, "", "same"})
			w.step(vCall{"story", 0, "s", "t"})
		}
		w.wantAll(w.g, "now", "")
		w.wantAll(NewGraph(w.s), "new graph", "")
		w.walk()
	})
}
