package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	rpo      map[*ssa.BasicBlock]int
	byHeader map[*ssa.BasicBlock]*loop
}

func (x *Exec) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := x.loopCache[fn]; ok {
		return li
	}
	li := &loopInfo{rpo: map[*ssa.BasicBlock]int{}, byHeader: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var order []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := range order {
		li.rpo[order[len(order)-1-i]] = i
	}
	for _, b := range order {
		for _, s := range b.Succs {
			if dominates(s, b) {
				L := li.byHeader[s]
				if L == nil {
					L = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = L
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if L.blocks[c] {
						continue
					}
					L.blocks[c] = true
					work = append(work, c.Preds...)
				}
			} else if li.rpo[s] <= li.rpo[b] {
				li.byHeader[s] = nil // irreducible
			}
		}
	}
	x.loopCache[fn] = li
	return li
}

func (x *Exec) runLoop(fr *frame, L *loop, es []edge) []edge {
	var exits []edge
	for _, e := range x.enter(fr, L.header, es) {
		exits = append(exits, x.runLoop1(fr, L, e.env, e.st)...)
	}
	return exits
}

func headerPhis(L *loop) []*ssa.Phi {
	var phis []*ssa.Phi
	for _, ins := range L.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	return phis
}

func (x *Exec) headerDecided(fr *frame, L *loop, env Env, st *State) bool {
	if _, ok := L.header.Instrs[len(L.header.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	x.probe++
	n := len(fr.rets)
	sv := x.stores
	x.stores = nil
	outs := x.block(fr, L.header, env, st)
	x.stores = sv
	fr.rets = fr.rets[:n]
	x.probe--
	return len(outs) == 1
}

// unroll executes a loop whose trip count is a known constant.
func (x *Exec) unroll(fr *frame, L *loop, env Env, st *State) ([]edge, bool) {
	if !x.headerDecided(fr, L, env, st) {
		return nil, false
	}
	nobs, nrets := len(x.obs), len(fr.rets)
	var nst int
	if x.stores != nil {
		nst = len(*x.stores)
	}
	abort := func() ([]edge, bool) {
		x.obs = x.obs[:nobs]
		fr.rets = fr.rets[:nrets]
		if x.stores != nil {
			*x.stores = (*x.stores)[:nst]
		}
		return nil, false
	}
	var exits []edge
	work := []edge{{to: L.header, env: env, st: st}}
	for it := 0; len(work) > 0; it++ {
		if it > 24 {
			return abort()
		}
		var next []edge
		for _, w := range work {
			if !x.headerDecided(fr, L, w.env, w.st) {
				return abort()
			}
			ex, backs := x.region2(fr, L, []edge{{to: L.header, env: w.env, st: w.st}})
			exits = append(exits, ex...)
			if len(backs) > 0 {
				next = append(next, x.enter(fr, L.header, backs)...)
			}
		}
		if len(next) > 64 {
			return abort()
		}
		work = next
	}
	return exits, true
}

// loopVar is a header phi or a modified local cell.
type loopVar struct {
	phi   *ssa.Phi
	cell  int
	typ   types.Type
	name  string
	entry Val
	fixed bool // not representable as terms: must not change
	ph    []*Term
}

type keyHavoc struct {
	full bool
	refs []*Term
	phi  map[int]bool // loop variables whose first leaf is the stored reference
}

type loopCtx struct {
	x      *Exec
	fr     *frame
	L      *loop
	env0   Env
	st0    *State
	vars   []*loopVar
	hv     map[string]*keyHavoc
	cells  map[int]bool
	vis    map[string]bool
	hp     map[string]*Term // heap placeholder per key
	hpSort map[string]Sort
	alPh   *Term
	mark   int
	cands  []*cand
	nph    int
	// current head
	envH  Env
	stH   *State
	varH  [][]*Term
	rowOf map[*Term]*Term // fresh head symbol -> template
	al    *Term
	base  *pcNode

	split   *loopVar // nil in the iterations considered; the others go on in a loop of their own
	refined bool     // entered from the middle of another loop
	kCanon  *Term    // names the bound variable when looking for duplicates
	lifted  map[*Term]bool
}

type cand struct {
	t    *Term // template
	what string
	init bool
}

// modePhi: a loop variable that is nil on entry and that the body compares with
// nil: iterations before and after it is set are treated as two loops.
//
// With set, one that is not nil on entry: the body is expected to leave it alone.
func (x *Exec) modePhi(L *loop, env Env, st *State, set bool, not map[*ssa.Phi]bool) *ssa.Phi {
	for _, p := range headerPhis(L) {
		switch under(p.Type()).(type) {
		case *types.Pointer, *types.Slice:
		default:
			continue
		}
		if _, ok := env[p].(*Ptr); ok || env[p] == nil {
			continue
		}
		e := x.flatten(env[p])[0]
		if isNil := e.op == OConst && e.val.Sign() == 0; isNil == set || not[p] {
			continue
		}
		if set {
			if isNil, ok := x.decide(st, Eq(e, I(0))); !ok || isNil {
				continue
			}
		}
		tested := func(v ssa.Value) bool {
			for _, r := range *v.Referrers() {
				b, ok := r.(*ssa.BinOp)
				if !ok || b.Op != token.EQL && b.Op != token.NEQ || !L.blocks[b.Block()] {
					continue
				}
				for _, o := range []ssa.Value{b.X, b.Y} {
					if k, ok := o.(*ssa.Const); ok && k.IsNil() {
						return true
					}
				}
			}
			return false
		}
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value) bool
		walk = func(v ssa.Value) bool {
			if seen[v] || v.Referrers() == nil {
				return false
			}
			seen[v] = true
			if tested(v) {
				return true
			}
			for _, r := range *v.Referrers() {
				if q, ok := r.(*ssa.Phi); ok && L.blocks[q.Block()] && walk(q) {
					return true
				}
			}
			return false
		}
		if walk(p) {
			return p
		}
	}
	return nil
}

type modeAbort struct {
	fr  *frame
	phi *ssa.Phi
}

// region runs the body once and divides the back edges into those that stay in
// the loop and those on which the split variable has been set.
func (c *loopCtx) region(st *State) (exits, stay, leave []edge) {
	exits, backs := c.x.region2(c.fr, c.L, []edge{{to: c.L.header, env: c.envH, st: st}})
	if c.split == nil {
		return exits, backs, nil
	}
	for _, b := range backs {
		t := c.x.flatten(c.backVal(c.split, b))[0]
		isNil, ok := c.x.decide(b.st, Eq(t, I(0)))
		switch {
		case !ok:
			panic(modeAbort{c.fr, c.split.phi})
		case isNil:
			stay = append(stay, b)
		default:
			leave = append(leave, b)
		}
	}
	return exits, stay, leave
}

func (x *Exec) runLoop1(fr *frame, L *loop, env Env, st *State) []edge {
	return x.runLoopM(fr, L, env, st, nil)
}

func (x *Exec) runLoopM(fr *frame, L *loop, env Env, st *State, refined map[*ssa.Phi]bool) []edge {
	if ex, ok := x.unroll(fr, L, env, st); ok {
		return ex
	}
	if x.logicD > 0 {
		unsupported("loop in a logic function: %s", fr.fn)
	}
	if L == nil {
		unsupported("irreducible control flow in %s", fr.fn)
	}
	if p := x.modePhi(L, env, st, false, refined); p != nil {
		if ex, ok := x.tryMode(fr, L, env, st, refined, p, p); ok {
			return ex
		}
	}
	if p := x.modePhi(L, env, st, true, refined); p != nil {
		set := map[*ssa.Phi]bool{p: true}
		for q := range refined {
			set[q] = true
		}
		if ex, ok := x.tryMode(fr, L, env, st, set, p, nil); ok {
			return ex
		}
	}
	return x.runLoop2(fr, L, env, st, refined, nil)
}

func (x *Exec) tryMode(fr *frame, L *loop, env Env, st *State, refined map[*ssa.Phi]bool, p, split *ssa.Phi) (ex []edge, ok bool) {
	nobs, nrets, probe := len(x.obs), len(fr.rets), x.probe
	sv := x.stores
	var nst int
	if sv != nil {
		nst = len(*sv)
	}
	defer func() {
		if r := recover(); r != nil {
			a, is := r.(modeAbort)
			if !is || a.phi != p || a.fr != fr {
				panic(r)
			}
			x.obs = x.obs[:nobs]
			fr.rets = fr.rets[:nrets]
			x.probe = probe
			x.stores = sv
			if sv != nil {
				*sv = (*sv)[:nst]
			}
			ex, ok = nil, false
		}
	}()
	return x.runLoop2(fr, L, env, st.clone(), refined, split), true
}

func (x *Exec) runLoop2(fr *frame, L *loop, env Env, st *State, refined map[*ssa.Phi]bool, split *ssa.Phi) []edge {
	c := &loopCtx{x: x, fr: fr, L: L, env0: env, st0: st.clone(), hv: map[string]*keyHavoc{}, cells: map[int]bool{}, vis: map[string]bool{}, hp: map[string]*Term{}, hpSort: map[string]Sort{}}
	c.alPh = c.placeholder(SInt)
	for _, p := range headerPhis(L) {
		v := &loopVar{phi: p, typ: p.Type(), name: phiName(p), entry: env[p]}
		switch e := v.entry.(type) {
		case *Ptr, *MapIt:
			v.fixed = true
		case *Closure:
			_ = e
			v.fixed = true
		}
		if v.entry == nil {
			unsupported("loop variable without a value")
		}
		if refined[p] {
			v.fixed = true // set before this loop; checked below
		}
		if p == split {
			v.fixed = true
			c.split = v
		}
		c.addVar(v)
	}
	c.refined = refined != nil
	c.mark = varSeq
	// 1. what does the body write?
	for round := 0; ; round++ {
		if round > 8 {
			unsupported("loop in %s: write set does not stabilise", fr.fn)
		}
		_, backs, evs := c.dry()
		if !c.classify(evs, backs) && !c.rowsDirty(backs) {
			break
		}
	}
	// 2. candidate invariants, basic then lifted
	_, backs, evs := c.dry()
	c.basicCands(backs)
	c.houdini()
	for round := 0; round < 2; round++ {
		_, backs, evs = c.dry()
		if !c.liftCands(backs, evs) {
			break
		}
		c.houdini()
	}
	// 3. final pass
	c.head()
	if x.stores != nil {
		// tell an enclosing loop what this one writes
		for k, h := range c.hv {
			for _, r := range h.refs {
				*x.stores = append(*x.stores, storeEv{key: k, ref: r})
			}
			for i := range h.phi {
				*x.stores = append(*x.stores, storeEv{key: k, ref: c.varH[i][0]})
			}
			if h.full {
				*x.stores = append(*x.stores, storeEv{key: k, ref: Fresh("any", SInt)})
			}
		}
		for cell := range c.cells {
			*x.stores = append(*x.stores, storeEv{cell: cell})
		}
	}
	if x.probe == 0 && x.logicD == 0 {
		x.loopStats["loops"]++
		x.loopStats["invariants"] += len(c.cands)
		for range c.cands {
			x.obs = append(x.obs, &Oblig{Name: x.oblName(c.st0, "loop-invariant@"+fnName(fr.fn)), goal: TTrue, Where: "inductive invariant (entry and preservation)"})
		}
		if debug {
			for _, cd := range c.cands {
				fmt.Printf("  INV %s [%s] %s\n", fnName(fr.fn), cd.what, cd.t)
			}
		}
	}
	exits, bk, leave := c.region(c.stH)
	if x.probe == 0 && c.rowsDirty(bk) {
		unsupported("rows of immutable references in %s", fr.fn)
	}
	for _, b := range bk {
		for i, v := range c.vars {
			if !v.fixed && x.probe == 0 {
				for _, h := range c.hv {
					if h.phi[i] && loopArr[c.varH[i][0]] && !x.ownRef(x.flatten(c.backVal(v, b))[0]) {
						unsupported("loop variable %s in %s comes to refer to foreign memory", v.name, fr.fn)
					}
				}
			}
			if v.fixed && v.phi != nil && v != c.split {
				if !sameVal(c.backVal(v, b), v.entry) {
					if refined[v.phi] {
						panic(modeAbort{fr, v.phi})
					}
					unsupported("loop variable %s in %s has a changing address", v.name, fr.fn)
				}
			}
		}
	}
	if len(leave) > 0 {
		set := map[*ssa.Phi]bool{split: true}
		for p := range refined {
			set[p] = true
		}
		for _, e := range x.enter(fr, L.header, leave) {
			exits = append(exits, x.runLoopM(fr, L, e.env, e.st, set)...)
		}
	}
	return exits
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func (c *loopCtx) placeholder(s Sort) *Term {
	return Fresh("ph.", s)
}

func (c *loopCtx) addVar(v *loopVar) {
	if !v.fixed {
		for _, l := range c.x.P.leaves(v.typ) {
			v.ph = append(v.ph, c.placeholder(l.sort()))
		}
	}
	c.vars = append(c.vars, v)
}

func (c *loopCtx) heapPh(key string, s Sort) *Term {
	if t, ok := c.hp[key]; ok {
		return t
	}
	t := c.placeholder(s)
	c.hp[key] = t
	c.hpSort[key] = s
	return t
}

func (x *Exec) keySort(key string) Sort {
	p := strings.SplitN(key, "|", 3)
	if p[0] == "VIS" {
		return arrSort(SBool)
	}
	if p[0] == "D" {
		return arrSort(arrSort(SBool))
	}
	if p[0] == "N" {
		return arrSort(SInt)
	}
	if t, ok := x.heapSorts[key]; ok {
		return t
	}
	unsupported("unknown heap key %s", key)
	return ""
}

// head builds the state at the loop head of an arbitrary iteration.
func (c *loopCtx) head() {
	x := c.x
	st := c.st0.clone()
	a1 := newAllocVar(st.alloc)
	x.assume(st, Le(a1, st.alloc), true)
	st.alloc = a1
	c.al = a1
	c.rowOf = map[*Term]*Term{}
	env := c.env0.clone()
	c.varH = make([][]*Term, len(c.vars))
	for i, v := range c.vars {
		if v.fixed {
			continue
		}
		hv := x.havoc(st, v.typ, v.name, false)
		ts := x.flatten(hv)
		c.varH[i] = ts
		if x.ownRef(x.flatten(v.entry)[0]) {
			loopArr[ts[0]] = true
		}
		for j, t := range ts {
			c.rowOf[t] = v.ph[j]
		}
		if v.phi != nil {
			env[v.phi] = hv
		} else {
			st.cells[v.cell] = hv
		}
	}
	mod := false
	var keys []string
	for k := range c.hv {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		h := c.hv[k]
		s := x.keySort(k)
		cur := x.heapGet(st, k, s)
		ph := c.heapPh(k, s)
		if h.full {
			mod = true
			n := Fresh("H", s)
			r := BoundVar()
			g := []*Term{Le(I(0), r)}
			for _, m := range x.mods {
				for _, t := range x.modRefs(m) {
					g = append(g, Not(Eq(r, t)))
				}
			}
			x.assume(st, Forall(r, Imp(And(g...), Eq(Select(n, r), Select(cur, r)))), true)
			st.heap[k] = n
			c.rowOf[n] = ph
			continue
		}
		for _, r := range h.refs {
			mod = true
			f := Fresh("row", s.elem())
			c.markClean(k, f)
			c.rowOf[f] = Select(ph, r)
			cur = Store(cur, r, f)
		}
		var ids []int
		for i := range h.phi {
			ids = append(ids, i)
		}
		sort.Ints(ids)
		for _, i := range ids {
			mod = true
			e := x.flatten(c.vars[i].entry)[0]
			if !(e.op == OConst && e.val.Sign() == 0) {
				f := Fresh("row", s.elem())
				c.markClean(k, f)
				cur = Store(cur, e, f)
			}
			f := Fresh("row", s.elem())
			c.markClean(k, f)
			c.rowOf[f] = Select(ph, c.vars[i].ph[0])
			cur = Store(cur, c.varH[i][0], f)
		}
		st.heap[k] = cur
	}
	for k := range c.vis {
		n := Fresh("vis", arrSort(SBool))
		st.heap[k] = n
		c.rowOf[n] = c.heapPh(k, arrSort(SBool))
	}
	if mod && st.logAl != nil {
		st.epoch = Fresh("epoch", SInt)
		st.logAl = nil
	}
	c.base = st.pc
	m := c.stateMap(env, st)
	for _, cd := range c.cands {
		x.assume(st, Subst(cd.t, m), true)
	}
	c.envH, c.stH = env, st
}

// markClean: optimistically, every element of the row is clean; rowsDirty
// checks it against the entry and the back edges.
func (c *loopCtx) markClean(key string, row *Term) {
	if strings.HasPrefix(key, "E|") && row.sort == arrSort(SInt) && !c.x.dirtyRows[c.rowKey(key)] {
		cleanRow[row] = true
	}
}

func (c *loopCtx) rowKey(key string) string {
	return fmt.Sprintf("%p/%d/%s", c.fr.fn, c.L.header.Index, key)
}

func (c *loopCtx) rowsDirty(backs []edge) bool {
	x := c.x
	changed := false
	for k, h := range c.hv {
		if h.full || !strings.HasPrefix(k, "E|") || x.keySort(k) != arrSort(arrSort(SInt)) || x.dirtyRows[c.rowKey(k)] {
			continue
		}
		ok := true
		chk := func(st *State, ref *Term) {
			if ref.op == OConst && ref.val.Sign() == 0 {
				return
			}
			if !cleanRowTerm(Select(x.heapGet(st, k, x.keySort(k)), ref)) {
				ok = false
			}
		}
		for _, r := range h.refs {
			chk(c.st0, r)
			for _, b := range backs {
				chk(b.st, r)
			}
		}
		for i := range h.phi {
			chk(c.st0, x.flatten(c.vars[i].entry)[0])
			for _, b := range backs {
				chk(b.st, x.flatten(c.backVal(c.vars[i], b))[0])
				if e := x.flatten(c.vars[i].entry)[0]; true {
					chk(b.st, e)
				}
			}
		}
		if !ok {
			x.dirtyRows[c.rowKey(k)] = true
			changed = true
		}
	}
	return changed
}

// stateMap maps placeholders to their values in a state at the loop head.
func (c *loopCtx) stateMap(env Env, st *State) map[*Term]*Term {
	m := map[*Term]*Term{c.alPh: st.alloc}
	for _, v := range c.vars {
		if v.fixed {
			continue
		}
		var val Val
		if v.phi != nil {
			val = env[v.phi]
		} else {
			val = st.cells[v.cell]
		}
		for j, t := range c.x.flatten(val) {
			m[v.ph[j]] = t
		}
	}
	for k, ph := range c.hp {
		m[ph] = c.x.heapGet(st, k, c.hpSort[k])
	}
	return m
}

// backVal gives the value a phi receives on a back edge.
func (c *loopCtx) backVal(v *loopVar, e edge) Val {
	if v.phi == nil {
		return e.st.cells[v.cell]
	}
	for i, p := range c.L.header.Preds {
		if p == e.from {
			return c.x.val(c.fr, e.env, e.st, v.phi.Edges[i])
		}
	}
	unsupported("back edge")
	return nil
}

func (c *loopCtx) backEnv(e edge) Env {
	env := e.env.clone()
	for _, v := range c.vars {
		if v.phi != nil {
			env[v.phi] = c.backVal(v, e)
		}
	}
	return env
}

// dry runs one iteration from the current head assumption.
func (c *loopCtx) dry() (exits, backs []edge, evs []storeEv) {
	x := c.x
	c.head()
	x.probe++
	sv := x.stores
	var l []storeEv
	x.stores = &l
	n := len(c.fr.rets)
	us := x.mapIterN
	_ = us
	exits, backs, _ = c.region(c.stH.clone())
	c.fr.rets = c.fr.rets[:n]
	x.stores = sv
	x.probe--
	return exits, backs, l
}

func (c *loopCtx) invariantTerm(t *Term) bool {
	for s := range t.Syms() {
		if s.seq > c.mark && !isH0(s) {
			return false
		}
	}
	return true
}

// classify records newly discovered writes; true if something is new.
func (c *loopCtx) classify(evs []storeEv, backs []edge) bool {
	x := c.x
	changed := false
	for _, e := range evs {
		if e.key == "" {
			if _, ok := c.st0.cells[e.cell]; ok && !c.cells[e.cell] {
				c.cells[e.cell] = true
				changed = true
				v := &loopVar{cell: e.cell, typ: x.cellTyp[e.cell], name: "cell", entry: c.st0.cells[e.cell]}
				switch v.entry.(type) {
				case *Ptr, *MapIt, *Closure:
					unsupported("local variable holding an address is modified in a loop")
				}
				c.addVar(v)
			}
			continue
		}
		if strings.HasPrefix(e.key, "VIS|") {
			if _, ok := c.st0.heap[e.key]; ok && !c.vis[e.key] {
				c.vis[e.key] = true
				changed = true
			}
			continue
		}
		if b, o, ok := allocTerm(e.ref); ok && b != nil && allocBelow(b, o, c.al) {
			continue
		}
		h := c.hv[e.key]
		if h == nil {
			h = &keyHavoc{phi: map[int]bool{}}
			c.hv[e.key] = h
			changed = true
		}
		if h.full {
			continue
		}
		if c.invariantTerm(e.ref) {
			dup := false
			for _, r := range h.refs {
				if r == e.ref {
					dup = true
				}
			}
			if !dup {
				h.refs = append(h.refs, e.ref)
				changed = true
			}
			continue
		}
		found := false
		for i, ts := range c.varH {
			if len(ts) > 0 && ts[0] == e.ref {
				switch under(c.vars[i].typ).(type) {
				case *types.Slice, *types.Pointer, *types.Map:
					found = true
					if !h.phi[i] {
						h.phi[i] = true
						changed = true
					}
				}
			}
		}
		if !found {
			h.full = true
			changed = true
		}
	}
	return changed
}

func (c *loopCtx) addCand(what string, t *Term) bool {
	if t == TTrue || t == TFalse {
		return false
	}
	for _, d := range c.cands {
		if d.t == t {
			return false
		}
	}
	c.cands = append(c.cands, &cand{t: t, what: what})
	return true
}

// indexVar finds an int loop variable that grows by one on every back edge.
func (c *loopCtx) indexVars(backs []edge) []int {
	var out []int
	for i, v := range c.vars {
		if v.fixed || len(v.ph) != 1 || !isIntKind(v.typ) {
			continue
		}
		ok := len(backs) > 0
		for _, b := range backs {
			t := c.x.flatten(c.backVal(v, b))[0]
			if t != Add(c.varH[i][0], I(1)) {
				ok = false
			}
		}
		if ok {
			out = append(out, i)
		}
	}
	return out
}

func (c *loopCtx) basicCands(backs []edge) {
	x := c.x
	idx := c.indexVars(backs)
	for i, v := range c.vars {
		if v.fixed {
			continue
		}
		e := x.flatten(v.entry)
		ls := x.P.leaves(v.typ)
		for j := range ls {
			c.addCand("unchanged "+v.name, Eq(v.ph[j], e[j]))
		}
		switch {
		case len(ls) == 1 && ls[0].kind == LInt:
			c.addCand("lower "+v.name, Le(e[0], v.ph[0]))
			for _, k := range idx {
				if k != i {
					k0 := x.flatten(c.vars[k].entry)[0]
					c.addCand("diff "+v.name, Eq(Sub(v.ph[0], e[0]), Sub(c.vars[k].ph[0], k0)))
					c.addCand("diff<= "+v.name, Le(Sub(v.ph[0], e[0]), Sub(c.vars[k].ph[0], k0)))
				}
			}
		case len(ls) == 1 && ls[0].kind == LRef:
			c.addCand("fresh "+v.name, Lt(v.ph[0], I(0)))
			c.addCand("nil or fresh "+v.name, Le(v.ph[0], I(0)))
			c.addCand("entry or fresh "+v.name, Or(Eq(v.ph[0], e[0]), Lt(v.ph[0], I(0))))
		}
		if _, ok := under(v.typ).(*types.Slice); ok {
			c.addCand("len lower "+v.name, Le(e[2], v.ph[2]))
			for _, k := range idx {
				k0 := x.flatten(c.vars[k].entry)[0]
				d := Sub(c.vars[k].ph[0], k0)
				c.addCand("len "+v.name, Eq(v.ph[2], Add(e[2], d)))
				c.addCand("len<= "+v.name, Le(v.ph[2], Add(e[2], d)))
			}
			// the other slices of the environment give candidate lengths
			for _, b := range backs {
				bv, ok := c.backVal(v, b).(Sl)
				if ok && bv.arr != c.varH[i][0] {
					if c.invariantTerm(bv.ln) {
						c.addCand("nil or len "+v.name, Or(Eq(v.ph[0], I(0)), Eq(v.ph[2], bv.ln)))
						c.addCand("nil or off "+v.name, Or(Eq(v.ph[0], I(0)), Eq(v.ph[1], bv.off)))
					}
				}
			}
			c.addCand("arr fresh "+v.name, Lt(v.ph[0], I(0)))
			c.addCand("arr nil or fresh "+v.name, Le(v.ph[0], I(0)))
			c.addCand("arr entry or fresh "+v.name, Or(Eq(v.ph[0], e[0]), Lt(v.ph[0], I(0))))
			c.addCand("arr nil iff empty "+v.name, Eq(Eq(v.ph[0], I(0)), Eq(v.ph[2], I(0))))
			if e[0].op == OConst && e[0].val.Sign() == 0 {
				c.addCand("arr not older "+v.name, Or(Eq(v.ph[0], I(0)), And(Le(c.alPh, v.ph[0]), Lt(v.ph[0], c.st0.alloc))))
			}
		}
	}
	// upper bounds from the conditions of the body
	for _, b := range backs {
		cs, fs := suffix(b.st.pc, c.base)
		for _, t := range append(cs, fs...) {
			if t.op != OLt && t.op != OLe {
				continue
			}
			for i, v := range c.vars {
				if v.fixed || len(v.ph) != 1 || v.ph[0].sort != SInt {
					continue
				}
				d := linOf(t.args[0]).sub(linOf(c.varH[i][0]))
				if d.isConst() && c.invariantTerm(t.args[1]) {
					n := Add(v.ph[0], IB(d.c))
					if t.op == OLt {
						c.addCand("upper "+v.name, Le(n, t.args[1]))
					} else {
						c.addCand("upper "+v.name, Le(n, Add(t.args[1], I(1))))
					}
				}
				d = linOf(t.args[1]).sub(linOf(c.varH[i][0]))
				if d.isConst() && c.invariantTerm(t.args[0]) {
					n := Add(v.ph[0], IB(d.c))
					c.addCand("lower2 "+v.name, Le(Sub(t.args[0], I(1)), n))
				}
			}
		}
	}
	// visited keys belong to the map
	for _, ins := range c.L.header.Instrs {
		if nx, ok := ins.(*ssa.Next); ok {
			if it, ok := c.x.val(c.fr, c.envH, c.stH, nx.Iter).(*MapIt); ok {
				ks := x.P.canon.keyOf(it.typ)
				m := it.m.(Sc).t
				k := BoundVar()
				dom := Select(c.heapPh("D|"+ks, arrSort(arrSort(SBool))), m)
				vis := c.heapPh(it.vis, arrSort(SBool))
				c.addCand("visited in map", Forall(k, Imp(Select(vis, k), Select(dom, k))))
			}
		}
	}
}

// houdini drops candidates until the rest is inductive.
func (c *loopCtx) houdini() {
	x := c.x
	// established on entry
	m0 := c.stateMap(c.env0, c.st0)
	var fresh []*cand
	for _, d := range c.cands {
		if !d.init {
			fresh = append(fresh, d)
		}
	}
	bad := c.check(c.st0, m0, fresh)
	c.drop(bad)
	for _, d := range c.cands {
		d.init = true
	}
	for round := 0; round < 12; round++ {
		_, backs, _ := c.dry()
		bad := map[*cand]bool{}
		for _, b := range backs {
			env := c.backEnv(b)
			for d := range c.check(b.st, c.stateMap(env, b.st), c.cands) {
				bad[d] = true
			}
		}
		if len(bad) == 0 {
			return
		}
		if debug {
			for d := range bad {
				fmt.Printf("  drop %s: %s\n", d.what, trunc(d.t.String(), 300))
			}
		}
		c.drop(bad)
		if len(c.cands) == 0 {
			return
		}
	}
	c.cands = nil
	_ = x
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (c *loopCtx) drop(bad map[*cand]bool) {
	var out []*cand
	for _, d := range c.cands {
		if !bad[d] {
			out = append(out, d)
		}
	}
	c.cands = out
}

// check returns the candidates not implied by the state.
func (c *loopCtx) check(st *State, m map[*Term]*Term, cs []*cand) map[*cand]bool {
	x := c.x
	bad := map[*cand]bool{}
	type job struct {
		d *cand
		t *Term
	}
	var jobs []job
	for _, d := range cs {
		t := Subst(d.t, m)
		if v, ok := x.decide(st, t); ok {
			if !v {
				bad[d] = true
			}
			continue
		}
		jobs = append(jobs, job{d: d, t: t})
	}
	if len(jobs) == 0 {
		return bad
	}
	hyps := pcTerms(st.pc)
	if len(jobs) > 1 && len(jobs) <= 6 {
		var all []*Term
		for _, j := range jobs {
			all = append(all, j.t)
		}
		if x.solver.validText(smtText(hyps, And(all...), false), 1500) {
			return bad
		}
	}
	res := make([]bool, len(jobs))
	nb := min((len(jobs)+3)/4, cap(x.solver.sem))
	var wg sync.WaitGroup
	for b := 0; b < nb; b++ {
		lo, hi := b*len(jobs)/nb, (b+1)*len(jobs)/nb
		var goals []*Term
		for _, j := range jobs[lo:hi] {
			goals = append(goals, j.t)
		}
		// printing is not safe for concurrent use
		text := smtTexts(hyps, goals, false, 2500)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if len(goals) == 1 {
				res[lo] = x.solver.validText(text, 2500)
				return
			}
			copy(res[lo:hi], x.solver.validTexts(text, len(goals), 2500))
		}()
	}
	wg.Wait()
	for i, j := range jobs {
		if !res[i] {
			bad[j.d] = true
		}
	}
	return bad
}

// ---- lifting of iteration facts

type lifter struct {
	c      *loopCtx
	b      edge
	k      *Term // bound variable
	bound  map[*Term]*Term
	eqs    []*Term // equalities (template)  path == value(with locals)
	ranges []*Term
	done   map[*Term]bool
}

func (c *loopCtx) isLocal(t *Term) bool {
	return t.op == OVar && t.seq > c.mark && !isH0(t) && c.rowOf[t] == nil && !strings.HasPrefix(t.name, "ph.")
}

func (l *lifter) bind(path, val *Term, leaf Leaf, tagVal *Term, depth int) {
	c := l.c
	if _, _, ok := allocTerm(val); ok && !c.invariantTerm(val) && (leaf.kind == LRef || leaf.kind == LPay || leaf.kind == LArr) {
		if p, ok := l.bound[val]; ok {
			if p != path {
				l.eqs = append(l.eqs, Eq(path, p))
			}
			return
		}
		l.bound[val] = path
		l.ranges = append(l.ranges, And(Le(c.alPh, path), Lt(path, c.st0.alloc)))
		var et types.Type
		if leaf.kind == LRef {
			if p, ok := under(leaf.typ).(*types.Pointer); ok {
				et = p.Elem()
			}
		} else if leaf.kind == LPay && tagVal != nil && tagVal.op == OConst {
			if t := c.x.P.tagType(tagVal.val.Int64()); t != nil {
				if p, ok := under(t).(*types.Pointer); ok {
					et = p.Elem()
				}
			}
		}
		if et != nil && depth < 5 {
			l.object(path, val, et, depth+1)
		}
		return
	}
	if c.isLocal(val) {
		if p, ok := l.bound[val]; ok {
			if p != path {
				l.eqs = append(l.eqs, Eq(path, p))
			}
			return
		}
		l.bound[val] = path
		if leaf.kind == LRef || leaf.kind == LArr || leaf.kind == LPay && (refBirth[val] != nil || payBirth[val] != nil) {
			l.ranges = append(l.ranges, Le(c.alPh, path))
		}
		return
	}
	if val.op == OApp && strings.HasPrefix(val.name, "box~") {
		k := val.name[4:]
		for i, a := range val.args {
			p := App(fmt.Sprintf("proj~%s~%d", k, i), SInt, path)
			l.bind(p, a, Leaf{kind: LInt}, nil, depth+1)
		}
	}
	l.eqs = append(l.eqs, eqLeaf(path, val))
}

func eqLeaf(a, b *Term) *Term {
	if a.sort == SBool {
		return Eq(a, b)
	}
	return Eq(a, b)
}

func (l *lifter) object(path, ref *Term, t types.Type, depth int) {
	c, x := l.c, l.c.x
	if at, ok := isArrayT(t); ok {
		_ = at
		return
	}
	ls := x.P.leaves(t)
	var vals []*Term
	var paths []*Term
	for i, lf := range ls {
		key := fmt.Sprintf("M|%s|%d", x.P.memOf(t), i)
		h := x.heapGet(l.b.st, key, arrSort(lf.sort()))
		vals = append(vals, Select(h, ref))
		paths = append(paths, Select(c.heapPh(key, arrSort(lf.sort())), path))
	}
	l.leaves(ls, paths, vals, depth)
}

func (l *lifter) leaves(ls []Leaf, paths, vals []*Term, depth int) {
	c, x := l.c, l.c.x
	for i, lf := range ls {
		if lf.kind == LOpaque {
			continue
		}
		var tag *Term
		if lf.kind == LPay {
			tag = vals[i-1]
		}
		l.bind(paths[i], vals[i], lf, tag, depth)
		if lf.kind == LArr && depth < 5 {
			// small constant-length arrays
			n := vals[i+2]
			if _, _, ok := allocTerm(vals[i]); ok && n.op == OConst && n.val.Int64() <= 3 {
				et := under(lf.typ).(*types.Slice).Elem()
				els := x.P.leaves(et)
				for q := int64(0); q < n.val.Int64(); q++ {
					var ps, vs []*Term
					for j, el := range els {
						key := fmt.Sprintf("E|%s|%d", x.P.canon.keyOf(et), j)
						h := x.heapGet(l.b.st, key, arrSort(arrSort(el.sort())))
						vs = append(vs, Select(Select(h, vals[i]), Add(vals[i+1], I(q))))
						ps = append(ps, Select(Select(c.heapPh(key, arrSort(arrSort(el.sort()))), paths[i]), Add(paths[i+1], I(q))))
					}
					l.leaves(els, ps, vs, depth+1)
				}
			}
		}
	}
}

func (c *loopCtx) liftCands(backs []edge, evs []storeEv) bool {
	x := c.x
	idx := c.indexVars(backs)
	added := c.growCands(backs)
	// choose the index: first index variable, otherwise a map iteration
	var iSym, iPh, start *Term
	d := int64(0)
	var mapIt *MapIt
	if len(idx) > 0 {
		v := c.vars[idx[0]]
		iSym, iPh = c.varH[idx[0]][0], v.ph[0]
		start = x.flatten(v.entry)[0]
		if start.op == OConst && start.val.Sign() < 0 {
			d = 1
		}
		if c.refined && v.phi != nil {
			for i, p := range c.L.header.Preds {
				if k, ok := v.phi.Edges[i].(*ssa.Const); ok && !c.L.blocks[p] && k.Value != nil && constant.Sign(k.Value) < 0 {
					d = 1
				}
			}
		}
	} else {
		for _, ins := range c.L.header.Instrs {
			if nx, ok := ins.(*ssa.Next); ok {
				if it, ok := x.val(c.fr, c.envH, c.stH, nx.Iter).(*MapIt); ok {
					mapIt = it
				}
			}
		}
		if mapIt == nil {
			return false
		}
	}
	type pathFacts struct {
		conds []*Term
		facts []*Term
		guard *Term
	}
	var paths []pathFacts
	flags := map[int][]flagBack{}
	k := BoundVar()
	for _, b := range backs {
		l := &lifter{c: c, b: b, k: k, bound: map[*Term]*Term{}}
		var rng map[*Term]*Term
		conds, facts := suffix(b.st.pc, c.base)
		if mapIt == nil {
			rng = map[*Term]*Term{iSym: Sub(k, I(d))}
		} else {
			// the visited key
			rng = map[*Term]*Term{}
			vis := b.st.heap[mapIt.vis]
			if vis.op != OStore {
				return false
			}
			kt := vis.args[1]
			if kt.op == OVar {
				rng[kt] = k
			} else if kt.op == OApp && strings.HasPrefix(kt.name, "box~") {
				for i, a := range kt.args {
					if a.op == OVar {
						rng[a] = App(fmt.Sprintf("proj~%s~%d", kt.name[4:], i), SInt, k)
					}
				}
				rng[kt] = k
			} else {
				return false
			}
		}
		guard := TTrue
		// roots: slices that grow by one
		for i, v := range c.vars {
			if v.fixed {
				continue
			}
			if _, ok := under(v.typ).(*types.Slice); !ok {
				continue
			}
			bv := c.backVal(v, b).(Sl)
			e := x.flatten(v.entry)
			if e[0].op == OConst && e[0].val.Sign() == 0 {
				if dd, ok := x.decide(b.st, Eq(bv.arr, I(0))); ok {
					if dd {
						guard = And(guard, Eq(v.ph[0], I(0)))
					} else {
						guard = And(guard, Not(Eq(v.ph[0], I(0))))
					}
				}
			}
			et := under(v.typ).(*types.Slice).Elem()
			if mapIt == nil && bv.ln == Add(c.varH[i][2], I(1)) {
				at := Add(bv.off, c.varH[i][2])
				pat := Add(v.ph[1], Add(e[2], Sub(Sub(k, I(d)), start)))
				l.elem(et, v.ph[0], pat, bv.arr, at)
			} else if mapIt == nil {
				// a store at an index that follows the loop index
				for _, ev := range evs {
					if ev.idx == nil || ev.ref != bv.arr || !strings.HasPrefix(ev.key, "E|"+x.P.canon.keyOf(et)+"|") {
						continue
					}
					df := linOf(ev.idx).sub(linOf(Add(iSym, bv.off)))
					if df.isConst() {
						l.elem(et, v.ph[0], Add(v.ph[1], Add(Sub(k, I(d)), IB(df.c))), bv.arr, ev.idx)
						break
					}
				}
			}
		}
		// roots: invariant arrays and maps
		seen := map[string]bool{}
		for _, ev := range evs {
			if ev.idx == nil || !c.invariantTerm(ev.ref) {
				continue
			}
			p := strings.Split(ev.key, "|")
			sk := p[0] + p[1] + fmt.Sprint(ev.ref.id) + "/" + fmt.Sprint(ev.idx.id)
			if seen[sk] {
				continue
			}
			switch p[0] {
			case "E":
				if mapIt != nil {
					continue
				}
				seen[sk] = true
				df := linOf(ev.idx).sub(linOf(iSym))
				et := x.keyTyp[ev.key]
				if df.isConst() && et != nil {
					l.elem(et, ev.ref, Add(Sub(k, I(d)), IB(df.c)), ev.ref, ev.idx)
					if c.restCand(b, ev.ref, ev.idx, et, Add(iPh, IB(df.c))) {
						added = true
					}
				}
			case "V", "D":
				seen[sk] = true
				mt, _ := x.keyTyp[ev.key].(*types.Map)
				if mt == nil {
					continue
				}
				pk := Subst(ev.idx, rng)
				if !c.stableWith(pk, k) {
					continue
				}
				ks := p[1]
				dk := "D|" + ks
				l.eqs = append(l.eqs, Eq(Select(Select(c.heapPh(dk, arrSort(arrSort(SBool))), ev.ref), pk), Select(Select(x.heapGet(b.st, dk, arrSort(arrSort(SBool))), ev.ref), ev.idx)))
				els := x.P.leaves(mt.Elem())
				var ps, vs []*Term
				for j, el := range els {
					key := fmt.Sprintf("V|%s|%d", ks, j)
					s := arrSort(arrSort(el.sort()))
					ps = append(ps, Select(Select(c.heapPh(key, s), ev.ref), pk))
					vs = append(vs, Select(Select(x.heapGet(b.st, key, s), ev.ref), ev.idx))
				}
				l.leaves(els, ps, vs, 0)
			}
		}
		// substitution of constants fixed by the path
		cm := map[*Term]*Term{}
		for _, t := range conds {
			for _, a := range conj(t) {
				c.constOf(a, cm)
			}
		}
		c.pinned(append(append([]*Term{}, conds...), facts...), cm)
		m := map[*Term]*Term{}
		for a, p := range l.bound {
			m[a] = p
		}
		for a, p := range rng {
			m[a] = p
		}
		lift := func(t *Term) (*Term, bool) {
			if len(cm) > 0 {
				t = Subst(t, cm)
			}
			// two passes: values of bound terms may themselves be rewritten
			r := Subst(t, m)
			return r, c.stableWith(r, k)
		}
		pf := pathFacts{guard: guard}
		for _, t := range conds {
			for _, a := range conj(t) {
				if r, ok := lift(a); ok && r != TTrue {
					pf.conds = append(pf.conds, r)
				}
			}
		}
		for i, v := range c.vars {
			if v.fixed || len(v.ph) != 1 || v.ph[0].sort != SBool {
				continue
			}
			t := defOf(x.flatten(c.backVal(v, b))[0], facts)
			flags[i] = append(flags[i], flagBack{conds, t, lift})
		}
		add := func(t *Term) {
			for _, a := range conj(t) {
				if r, ok := lift(a); ok {
					for _, q := range conj(r) {
						if q != TTrue && q.Syms()[k] {
							pf.facts = append(pf.facts, q)
						}
					}
				}
			}
		}
		for _, t := range facts {
			add(t)
		}
		for _, t := range l.eqs {
			add(t)
		}
		for _, t := range l.ranges {
			if t.Syms()[k] {
				pf.facts = append(pf.facts, t)
			}
		}
		paths = append(paths, pf)
	}
	var rngT *Term
	if mapIt == nil && c.refined {
		// from the first element on; the entry state answers for those before start
		rngT = And(Le(I(0), k), Lt(k, Add(iPh, I(d))))
	} else if mapIt == nil {
		rngT = And(Le(Add(start, I(d)), k), Lt(k, Add(iPh, I(d))))
	} else {
		rngT = Select(c.heapPh(mapIt.vis, arrSort(SBool)), k)
	}
	mk := func(what string, g, body *Term) {
		if body == TTrue || !body.Syms()[k] {
			return
		}
		if c.newLift(k, And(g, Imp(rngT, body))) && c.addCand(what, Imp(g, Forall(k, Imp(rngT, body)))) {
			added = true
		}
	}
	// disjunction of the continuing paths, per guard
	guards := map[*Term][]pathFacts{}
	var gorder []*Term
	for _, p := range paths {
		if _, ok := guards[p.guard]; !ok {
			gorder = append(gorder, p.guard)
		}
		guards[p.guard] = append(guards[p.guard], p)
	}
	emit := func(g *Term, ps []pathFacts) {
		var ds []*Term
		for _, p := range ps {
			ds = append(ds, And(p.conds...))
		}
		if len(ps) == 1 {
			for _, a := range ps[0].conds {
				mk("lift cond", g, a)
			}
		} else {
			mk("lift paths", g, Or(ds...))
			// conjuncts shared by every path
			cnt := map[*Term]int{}
			for _, p := range ps {
				for _, a := range p.conds {
					cnt[a]++
				}
			}
			for _, a := range ps[0].conds {
				if cnt[a] == len(ps) {
					mk("lift cond", g, a)
				}
			}
		}
		cnt := map[*Term]int{}
		for _, p := range ps {
			s := map[*Term]bool{}
			for _, f := range p.facts {
				if !s[f] {
					s[f] = true
					cnt[f]++
				}
			}
		}
		for i, p := range ps {
			for _, f := range p.facts {
				if cnt[f] == len(ps) {
					mk("lift fact", g, f)
				} else {
					mk("lift fact/path", g, Imp(ds[i], f))
				}
			}
		}
	}
	emitAll := func() {
		emit(TTrue, paths)
		if len(gorder) > 1 || len(gorder) == 1 && gorder[0] != TTrue {
			for _, g := range gorder {
				emit(g, guards[g])
			}
		}
	}
	emitAll()
	for i, v := range c.vars {
		if fb := flags[i]; len(fb) == len(backs) && len(fb) > 0 {
			if t := c.flagCand(x.flatten(v.entry)[0], c.varH[i][0], v.ph[0], fb, k, rngT); t != nil && c.addCand("flag "+v.name, t) {
				added = true
			}
		}
	}
	return added
}

type flagBack struct {
	conds []*Term
	val   *Term
	lift  func(*Term) (*Term, bool)
}

// defOf replaces a boolean that is the result of an inner loop by what the
// invariant of that loop says it is.
func defOf(t *Term, facts []*Term) *Term {
	if t.op != OVar {
		return t
	}
	for _, f := range facts {
		for _, a := range conj(f) {
			if a.op == OEq && a.args[0] == t {
				return a.args[1]
			}
			if a.op == OEq && a.args[1] == t {
				return a.args[0]
			}
		}
	}
	return t
}

// flagCand: a flag h that the body only ever clears (or only sets): it says
// whether every (any) iteration met a condition.
func (c *loopCtx) flagCand(entry, h, ph *Term, fb []flagBack, k, rngT *Term) *Term {
	shared := map[*Term]int{}
	for _, b := range fb {
		seen := map[*Term]bool{}
		for _, t := range b.conds {
			for _, a := range conj(t) {
				if !seen[a] {
					seen[a] = true
					shared[a]++
				}
			}
		}
	}
	at := func(v *Term) *Term {
		var ds []*Term
		m := map[*Term]*Term{h: v}
		for _, b := range fb {
			var cs []*Term
			for _, t := range b.conds {
				for _, a := range conj(t) {
					if shared[a] < len(fb) {
						cs = append(cs, Subst(a, m))
					}
				}
			}
			d := Subst(And(append(cs, b.val)...), m)
			if d == TFalse {
				continue
			}
			r, ok := b.lift(d)
			if !ok {
				return nil
			}
			ds = append(ds, r)
		}
		return Or(ds...)
	}
	t, f := at(TTrue), at(TFalse)
	switch {
	case f == TFalse && t != nil && t.Syms()[k]:
		return Eq(ph, And(entry, Forall(k, Imp(rngT, t))))
	case t == TTrue && f != nil && f.Syms()[k]:
		return Eq(ph, Or(entry, Not(Forall(k, Imp(rngT, Not(f))))))
	}
	return nil
}

// newLift: no candidate with this body was lifted before.
func (c *loopCtx) newLift(k, body *Term) bool {
	if c.kCanon == nil {
		c.kCanon, c.lifted = BoundVar(), map[*Term]bool{}
	}
	t := Subst(body, map[*Term]*Term{k: c.kCanon})
	if c.lifted[t] {
		return false
	}
	c.lifted[t] = true
	return true
}

// growCands: slices that some iterations append one element to; what is known
// about an appended element is a candidate for all of them.
func (c *loopCtx) growCands(backs []edge) bool {
	x := c.x
	added := false
	for i, v := range c.vars {
		if v.fixed {
			continue
		}
		sl, ok := under(v.typ).(*types.Slice)
		if !ok {
			continue
		}
		k := BoundVar()
		e := x.flatten(v.entry)
		var common []*Term
		grows, ok := 0, true
		for _, b := range backs {
			bv, isSl := c.backVal(v, b).(Sl)
			if !isSl {
				ok = false
				break
			}
			d := linOf(bv.ln).sub(linOf(c.varH[i][2]))
			if !d.isConst() || d.c.Sign() != 0 && d.c.Int64() != 1 {
				ok = false
				break
			}
			if d.c.Sign() == 0 {
				continue
			}
			els := x.P.leaves(sl.Elem())
			m := map[*Term]*Term{}
			var fs []*Term
			for j, el := range els {
				key := fmt.Sprintf("E|%s|%d", x.P.canon.keyOf(sl.Elem()), j)
				s := arrSort(arrSort(el.sort()))
				val := Select(Select(x.heapGet(b.st, key, s), bv.arr), Add(bv.off, c.varH[i][2]))
				path := Select(Select(c.heapPh(key, s), v.ph[0]), Add(v.ph[1], k))
				if val.op == OConst || val.op == OTrue || val.op == OFalse {
					fs = append(fs, Eq(path, val))
				} else if _, dup := m[val]; !dup {
					m[val] = path
					if c.stableWith(val, k) {
						fs = append(fs, Eq(path, val))
					}
				}
			}
			conds, facts := suffix(b.st.pc, c.base)
			for _, t := range append(conds, facts...) {
				for _, a := range conj(t) {
					if r := Subst(a, m); r != a && r.Syms()[k] && c.stableWith(r, k) {
						fs = append(fs, r)
					}
				}
			}
			if grows == 0 {
				common = fs
			} else {
				in := map[*Term]bool{}
				for _, f := range fs {
					in[f] = true
				}
				var keep []*Term
				for _, f := range common {
					if in[f] {
						keep = append(keep, f)
					}
				}
				common = keep
			}
			grows++
		}
		if !ok || grows == 0 {
			continue
		}
		for _, f := range common {
			t := Imp(And(Le(e[2], k), Lt(k, v.ph[2])), f)
			if c.newLift(k, t) && c.addCand("appended "+v.name, Forall(k, t)) {
				added = true
			}
		}
	}
	return added
}

// restCand: an element component that some iterations leave alone still has
// its entry value from the current index on.
func (c *loopCtx) restCand(b edge, ref, idx *Term, et types.Type, from *Term) bool {
	x := c.x
	added := false
	for j, el := range x.P.leaves(et) {
		key := fmt.Sprintf("E|%s|%d", x.P.canon.keyOf(et), j)
		if c.hv[key] == nil || c.hv[key].full {
			continue
		}
		s := arrSort(arrSort(el.sort()))
		if Select(Select(x.heapGet(b.st, key, s), ref), idx) != Select(Select(x.heapGet(c.stH, key, s), ref), idx) {
			continue
		}
		k := BoundVar()
		t := Imp(Le(from, k), Eq(Select(Select(c.heapPh(key, s), ref), k), Select(Select(x.heapGet(c.st0, key, s), ref), k)))
		if c.newLift(k, t) && c.addCand("rest", Forall(k, t)) {
			added = true
		}
	}
	return added
}

// elem binds the leaves of an array element written in this iteration.
func (l *lifter) elem(et types.Type, parr, pidx, arr, idx *Term) {
	c, x := l.c, l.c.x
	els := x.P.leaves(et)
	var ps, vs []*Term
	for j, el := range els {
		key := fmt.Sprintf("E|%s|%d", x.P.canon.keyOf(et), j)
		s := arrSort(arrSort(el.sort()))
		h := x.heapGet(l.b.st, key, s)
		v := Select(Select(h, arr), idx)
		if hv := c.hv[key]; hv != nil && !hv.full && c.invariantTerm(arr) && v == Select(Select(x.heapGet(c.stH, key, s), arr), idx) {
			v = Select(Select(x.heapGet(c.st0, key, s), arr), idx) // see restCand
		}
		vs = append(vs, v)
		ps = append(ps, Select(Select(c.heapPh(key, s), parr), pidx))
	}
	l.leaves(els, ps, vs, 0)
}

// stableWith: only symbols that exist before the loop, placeholders and k.
func (c *loopCtx) stableWith(t, k *Term) bool {
	for s := range t.Syms() {
		if s == k || strings.HasPrefix(s.name, "ph.") || strings.HasPrefix(s.name, "H0~") {
			continue
		}
		if s.seq > c.mark {
			return false
		}
	}
	return true
}

// constOf extracts symbol = constant facts.
func (c *loopCtx) constOf(a *Term, m map[*Term]*Term) {
	switch a.op {
	case OEq:
		p, q := a.args[0], a.args[1]
		if p.op == OConst {
			p, q = q, p
		}
		if q.op == OConst && c.isLocal(p) {
			m[p] = q
		}
	case OVar:
		if a.sort == SBool && c.isLocal(a) {
			m[a] = TTrue
		}
	case ONot:
		if b := a.args[0]; b.op == OVar && c.isLocal(b) {
			m[b] = TFalse
		}
	}
}

// pinned: variables of the body, such as the index an inner loop ends with,
// that two bounds leave one value.
func (c *loopCtx) pinned(ts []*Term, m map[*Term]*Term) {
	le := map[*Term]lin{}
	var order []*Term
	add := func(a, b *Term, k int64) {
		d := linOf(a).sub(linOf(b))
		d.c = new(big.Int).Add(d.c, big.NewInt(k))
		t := d.term()
		if _, ok := le[t]; !ok {
			order = append(order, t)
		}
		le[t] = d
	}
	for _, t := range ts {
		for _, a := range conj(t) {
			not := a.op == ONot
			if not {
				a = a.args[0]
			}
			switch {
			case a.op == OLe && !not:
				add(a.args[0], a.args[1], 0)
			case a.op == OLt && !not:
				add(a.args[0], a.args[1], 1)
			case a.op == OLe:
				add(a.args[1], a.args[0], 1)
			case a.op == OLt:
				add(a.args[1], a.args[0], 0)
			}
		}
	}
	for _, t := range order {
		d := le[t]
		neg := lin{big.NewInt(0), nil}.sub(d)
		if _, ok := le[neg.term()]; !ok || d.isConst() {
			continue
		}
		var vs []*Term
		for v := range d.m {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
		for _, v := range vs {
			k := d.m[v]
			if v.op != OVar || !c.isLocal(v) || k.CmpAbs(big.NewInt(1)) != 0 || m[v] != nil {
				continue
			}
			rest := d.sub(lin{big.NewInt(0), map[*Term]*big.Int{v: k}})
			if k.Sign() > 0 {
				rest = lin{big.NewInt(0), nil}.sub(rest)
			}
			if rest.isConst() || !rest.term().Syms()[v] {
				m[v] = rest.term()
			}
			break
		}
	}
}
