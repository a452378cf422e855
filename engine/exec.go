package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debug = os.Getenv("VCDEBUG") != ""

// ---- state
type pcNode struct {
	parent *pcNode
	t      *Term
	fact   bool // fact (not a branch condition)
	n      int
}

type State struct {
	pc       *pcNode
	heap     map[string]*Term
	alloc    *Term
	cells    map[int]Val
	epoch    *Term
	logAl    *Term // alloc counter when a logic atom was last evaluated
	known    map[*Term]bool
	eqc      map[*Term]*Term
	defs     map[*Term]*Term    // definitions of the logic atoms unfolded on this path
	lows     map[*Term]*big.Int // linear bounds: key + value >= 0
	visits   int
	useStack []useEntry
	label    string
}

type useEntry struct {
	sc  *specCtx
	res Tup
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.cells = make(map[int]Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.known = make(map[*Term]bool, len(s.known)+8)
	for k, v := range s.known {
		n.known[k] = v
	}
	n.eqc = make(map[*Term]*Term, len(s.eqc)+4)
	for k, v := range s.eqc {
		n.eqc[k] = v
	}
	n.defs = make(map[*Term]*Term, len(s.defs)+4)
	for k, v := range s.defs {
		n.defs[k] = v
	}
	n.lows = make(map[*Term]*big.Int, len(s.lows)+4)
	for k, v := range s.lows {
		n.lows[k] = v
	}
	return &n
}

func (s *State) push(t *Term, fact bool) {
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &pcNode{s.pc, t, fact, n}
}

func (s *State) learn(t *Term, v bool) {
	switch t.op {
	case ONot:
		s.learn(t.args[0], !v)
		return
	case OAnd:
		if v {
			for _, a := range t.args {
				s.learn(a, true)
			}
		}
	case OOr:
		if !v {
			for _, a := range t.args {
				s.learn(a, false)
			}
		}
	case OEq:
		if v {
			if t.args[0].op == OConst {
				s.eqc[t.args[1]] = t.args[0]
			} else if t.args[1].op == OConst {
				s.eqc[t.args[0]] = t.args[1]
			}
		}
	}
	s.known[t] = v
	if t.op == OLe || t.op == OLt {
		k, c := linBound(t, v)
		if old, ok := s.lows[k]; !ok || c.Cmp(old) < 0 {
			s.lows[k] = c
		}
	}
	if b, ok := s.defs[t]; ok {
		s.learn(b, v)
	}
}

// assume adds t to the path condition.
func (x *Exec) assume(s *State, t *Term, fact bool) {
	if t == TTrue {
		return
	}
	if v, ok := s.known[t]; ok && v {
		return
	}
	s.push(t, fact)
	if t.op == OImp {
		if d, ok := x.decide(s, t.args[0]); ok && d {
			s.learn(t.args[1], true)
		}
	}
	s.learn(t, true)
}

// linBound gives k and c with k + c >= 0 equivalent to the inequality t (its
// negation when v is false), k without a constant part.
func linBound(t *Term, v bool) (*Term, *big.Int) {
	var d lin
	a, b := linOf(t.args[0]), linOf(t.args[1])
	strict := t.op == OLt
	if v {
		d = b.sub(a)
	} else {
		d = a.sub(b)
		strict = !strict
	}
	c := new(big.Int).Set(d.c)
	if strict {
		c.Sub(c, big.NewInt(1))
	}
	return lin{new(big.Int), d.m}.term(), c
}

// decide tries to settle a condition syntactically.
func (x *Exec) decide(s *State, c *Term) (bool, bool) {
	switch c.op {
	case OTrue:
		return true, true
	case OFalse:
		return false, true
	case ONot:
		v, ok := x.decide(s, c.args[0])
		return !v, ok
	}
	if v, ok := s.known[c]; ok {
		return v, true
	}
	if v, ok := s.known[Not(c)]; ok {
		return !v, true
	}
	switch c.op {
	case OEq:
		a, b := c.args[0], c.args[1]
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if k, ok := s.eqc[a]; ok {
				return k == b, true
			}
			if b.val.Sign() == 0 {
				if _, _, ok := allocTerm(a); ok {
					return false, true
				}
			}
		} else {
			ka, oka := s.eqc[a]
			kb, okb := s.eqc[b]
			if oka && okb {
				return ka == kb, true
			}
		}
	case OAnd:
		all := true
		for _, a := range c.args {
			v, ok := x.decide(s, a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	case OOr:
		all := true
		for _, a := range c.args {
			v, ok := x.decide(s, a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	case OIte:
		if v, ok := x.decide(s, c.args[0]); ok {
			if v {
				return x.decide(s, c.args[1])
			}
			return x.decide(s, c.args[2])
		}
	case OLe, OLt:
		for _, v := range []bool{true, false} {
			k, n := linBound(c, v)
			if have, ok := s.lows[k]; ok && have.Cmp(n) <= 0 {
				return v, true
			}
		}
		a, b := c.args[0], c.args[1]
		if k, ok := s.eqc[a]; ok {
			a = k
		}
		if k, ok := s.eqc[b]; ok {
			b = k
		}
		if a != c.args[0] || b != c.args[1] {
			var r *Term
			if c.op == OLe {
				r = Le(a, b)
			} else {
				r = Lt(a, b)
			}
			if r == TTrue {
				return true, true
			}
			if r == TFalse {
				return false, true
			}
		}
	}
	return false, false
}

// ---- executor
type Oblig struct {
	Name  string
	pc    *pcNode
	goal  *Term
	Where string
}

type Env map[ssa.Value]Val

type frame struct {
	fn    *ssa.Function
	free  []Val
	spec  *specCtx
	logic bool
	loops *loopInfo
	names map[string]int
	rets  []retState
	depth int
}

type retState struct {
	st  *State
	res Tup
}

type Outcome struct {
	st  *State
	res Tup
}

type specCtx struct {
	spec      *Spec
	verify    bool
	called    bool
	mods      []modTarget
	mayPanic  *Term
	snapAlloc *Term
	callName  string
	caller    *frame
	clean     bool
	ncalls    int
	args      []Val
}

type modTarget struct {
	v Val
	t types.Type
}

type Exec struct {
	P           *Prog
	obs         []*Oblig
	probe       int // >0: do not record obligations
	stack       []*ssa.Function
	logicD      int // >0: in logic evaluation (no obligations, merge all)
	unfoldD     map[*ssa.Function]int
	made        map[*Term]bool // non-boolean logic atoms made so far
	unaryProbe  int
	cellN       int
	curSpec     *specCtx
	mods        []modTarget // of the verified spec
	anyMods     bool        // the specification under verification modifies something
	mayPan      bool
	stores      *[]storeEv
	assumps     map[string]bool
	inlined     map[string]bool
	used        map[string]bool
	unsup       string
	deadline    time.Time
	steps       int
	solver      *Solver
	loopCache   map[*ssa.Function]*loopInfo
	label       string
	newSyms     []*Term
	ih          *LemmaIH
	mapIterN    int
	callReqs    []string
	params      []paramInfo
	reqN        int
	covers      []*Oblig
	loopStats   map[string]int
	useDepth    int
	unfoldGuard int
	onlySplit   string
	splitSeen   bool
	heapSorts   map[string]Sort
	keyTyp      map[string]types.Type
	cellTyp     map[int]types.Type
	dirtyRows   map[string]bool
}

type paramInfo struct {
	name string
	typ  types.Type
	val  Val
}

type storeEv struct {
	key  string
	ref  *Term
	idx  *Term // for element stores; nil if unknown
	val  *Term
	cell int
}

func NewExec(P *Prog, sol *Solver) *Exec {
	return &Exec{P: P, assumps: map[string]bool{}, inlined: map[string]bool{}, used: map[string]bool{}, solver: sol, loopCache: map[*ssa.Function]*loopInfo{}, unfoldD: map[*ssa.Function]int{}, loopStats: map[string]int{}, heapSorts: map[string]Sort{}, keyTyp: map[string]types.Type{}, cellTyp: map[int]types.Type{}, dirtyRows: map[string]bool{}}
}

func (x *Exec) initState() *State {
	return &State{heap: map[string]*Term{}, alloc: I(0), cells: map[int]Val{}, epoch: I(0), known: map[*Term]bool{}, eqc: map[*Term]*Term{}, defs: map[*Term]*Term{}, lows: map[*Term]*big.Int{}}
}

func (x *Exec) assumeNote(s string) { x.assumps[s] = true }

func (x *Exec) oblig(st *State, name, where string, goal *Term) {
	if x.logicD > 0 || x.probe > 0 {
		return
	}
	if d, ok := x.decide(st, goal); ok && d {
		// still count as trivially discharged
		x.obs = append(x.obs, &Oblig{Name: x.oblName(st, name), goal: TTrue, Where: where})
		return
	}
	if goal.op == OAnd {
		for _, g := range goal.args {
			x.oblig(st, name, where, g)
		}
		return
	}
	x.obs = append(x.obs, &Oblig{Name: x.oblName(st, name), pc: st.pc, goal: goal, Where: where})
}

func (x *Exec) oblName(st *State, name string) string {
	if st.label != "" {
		return x.label + "/" + st.label + "/" + name
	}
	return x.label + "/" + name
}

// require: obligation then assumption (used for panics and bounds).
func (x *Exec) require(st *State, kind string, fn *ssa.Function, c *Term) bool {
	if d, ok := x.decide(st, c); ok && d {
		return true
	}
	if !x.mayPan && x.useDepth == 0 {
		x.oblig(st, "no-panic/"+kind+"@"+fnName(fn), "", c)
	}
	if c == TFalse {
		return false
	}
	if d, ok := x.decide(st, c); ok && !d {
		return false
	}
	x.assume(st, c, x.logicD == 0)
	return true
}

func fnName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "substraitgo")
	s = strings.ReplaceAll(s, "github.com/substrait-io/substrait-protobuf/go/", "")
	return s
}

// ---- heap access
func (x *Exec) heapGet(st *State, key string, srt Sort) *Term {
	x.heapSorts[key] = srt
	if t, ok := st.heap[key]; ok {
		return t
	}
	return Var("H0~"+key, srt)
}

func baseArr(t *Term) *Term {
	for t.op == OStore {
		t = t.args[0]
	}
	return t
}

func isH0(t *Term) bool { return t.op == OVar && strings.HasPrefix(t.name, "H0~") }

// leafFacts records the standing facts about a value leaf read from memory.
func (x *Exec) leafFact(st *State, l Leaf, t *Term) {
	if t.op == OConst || t.op == OTrue || t.op == OFalse {
		return
	}
	if _, _, ok := allocTerm(t); ok {
		return
	}
	switch l.kind {
	case LInt:
		if t.op == OSelect || t.op == OVar || t.op == OApp {
			if lo, hi, ok := intRange(l.typ); ok {
				a, _ := new(big.Int).SetString(lo, 10)
				b, _ := new(big.Int).SetString(hi, 10)
				x.assume(st, And(Le(IB(a), t), Le(t, IB(b))), true)
			}
		}
	case LFloat:
		if t.op == OSelect || t.op == OVar || t.op == OApp {
			all, _, _ := floatBits(l.typ)
			x.assume(st, And(Le(I(0), t), Lt(t, IB(all))), true)
		}
	case LRef, LArr:
		if x.isEntryLoad(t) {
			entryRef[t] = true
			if t.op == OVar {
				x.assume(st, Le(I(0), t), true)
				return
			}
			x.assume(st, Le(I(0), t), true)
			return
		}
		if t.op == OSelect || t.op == OVar || t.op == OApp {
			x.assume(st, Le(st.alloc, t), true)
			if _, ok := refBirth[t]; !ok && t.op != OSelect {
				refBirth[t] = st.alloc
			} else if t.op == OSelect && !ok {
				refBirth[t] = st.alloc
			}
		}
	case LTag:
		x.assume(st, Le(I(0), t), true)
	}
}

func (x *Exec) isEntryLoad(t *Term) bool {
	if t.op == OSelect {
		a := t.args[0]
		if isH0(a) && isEntryRef(t.args[1]) {
			return true
		}
		// element heap: select(select(E0,arr),i)
		if a.op == OSelect && isH0(a.args[0]) && isEntryRef(a.args[1]) {
			return true
		}
	}
	return entryRef[t]
}

// readFacts adds facts for a group of leaves (slices, interfaces).
func (x *Exec) readFacts(st *State, ls []Leaf, ts []*Term) {
	for i := 0; i < len(ls); i++ {
		l := ls[i]
		switch l.kind {
		case LArr:
			arr, off, ln, cp := ts[i], ts[i+1], ts[i+2], ts[i+3]
			x.leafFact(st, l, arr)
			if off.op == OSelect && zeroOff(off) {
				ts[i+1] = I(0)
			} else if off.op != OConst {
				x.assume(st, Le(I(0), off), true)
			}
			if ln.op != OConst || cp.op != OConst {
				x.assume(st, And(Le(I(0), ln), Le(ln, cp)), true)
				x.assume(st, Le(cp, I(1<<40)), true)
			}
			if arr.op != OConst {
				if _, _, ok := allocTerm(arr); !ok {
					x.assume(st, Imp(Eq(arr, I(0)), Eq(cp, I(0))), true)
				}
			}
			i += 3
		case LTag:
			x.leafFact(st, l, ts[i])
			if ts[i].op != OConst {
				x.assume(st, Imp(Eq(ts[i], I(0)), Eq(ts[i+1], I(0))), true)
				x.payloadFact(st, ts[i], ts[i+1])
				if x.isEntryLoad(ts[i]) {
					entryTag[ts[i]] = ts[i+1]
				} else if _, ok := refBirth[ts[i+1]]; !ok {
					payBirth[ts[i+1]] = st.alloc
				}
			}
			i++
		default:
			x.leafFact(st, l, ts[i])
		}
	}
}

// zeroOff: offsets of slices in the memory at entry are zero (a slice with
// another offset is the same as one with offset zero into another array), and
// so is a mixture of these and stored zeros.
func zeroOff(t *Term) bool {
	switch t.op {
	case OVar:
		return isH0(t)
	case OConst:
		return t.val.Sign() == 0
	case OSelect, OConstArr:
		return zeroOff(t.args[0])
	case OStore:
		return zeroOff(t.args[0]) && zeroOff(t.args[2])
	case OIte:
		return zeroOff(t.args[1]) && zeroOff(t.args[2])
	}
	return false
}

var entryTag = map[*Term]*Term{}
var payBirth = map[*Term]*Term{}

// entryPay: payloads of interface values that exist at entry
var entryPay = map[*Term]bool{}

// payloadFact: payload of an interface holding a pointer behaves as a ref.
func (x *Exec) payloadFact(st *State, tag, pay *Term) {
}

func (x *Exec) heapLoad(st *State, root types.Type, ref *Term, start, n int) []*Term {
	ls := x.P.leaves(root)
	kp := "M|" + x.P.memOf(root) + "|"
	out := make([]*Term, n)
	for i := 0; i < n; i++ {
		l := ls[start+i]
		h := x.heapGet(st, fmt.Sprintf("%s%d", kp, start+i), arrSort(l.sort()))
		out[i] = Select(h, ref)
	}
	x.readFacts(st, ls[start:start+n], out)
	return out
}

func (x *Exec) checkFrame(st *State, ref *Term, what string, fn *ssa.Function, keyT types.Type) {
	if x.logicD > 0 {
		return
	}
	x.guardWrite(ref, what, fn)
	if _, _, ok := allocTerm(ref); ok {
		return
	}
	g := []*Term{Lt(ref, I(0))}
	for _, m := range x.mods {
		for _, t := range x.modRefs(m) {
			g = append(g, Eq(ref, t))
		}
	}
	x.oblig(st, "frame/"+what+"@"+fnName(fn), "", Or(g...))
}

// guardWrite rejects writes to memory that logic atoms treat as immutable: a
// write must go to memory this path allocated itself (or memory the
// specification declares as modified, in which case nothing is immutable).
func (x *Exec) guardWrite(ref *Term, what string, fn *ssa.Function) {
	if x.anyMods || x.ownRef(ref) {
		return
	}
	if x.mustNotWrite(ref) {
		return // the frame obligation fails
	}
	if cleanTerm(ref) {
		unsupported("write to memory assumed immutable: %s in %s", what, fnName(fn))
	}
	if debug {
		fmt.Fprintln(os.Stderr, "UNKNOWN-REF", ref)
	}
	unsupported("write through a reference of unknown origin: %s in %s", what, fnName(fn))
}

// mustNotWrite: entry memory; the frame obligation reports it.
func (x *Exec) mustNotWrite(ref *Term) bool {
	if ref.op == OConst {
		return true
	}
	if entryRef[ref] || entryPay[ref] || x.isEntryLoad(ref) {
		return true
	}
	if ref.op == OIte {
		return (x.mustNotWrite(ref.args[1]) || x.ownRef(ref.args[1])) && (x.mustNotWrite(ref.args[2]) || x.ownRef(ref.args[2]))
	}
	return false
}

func (x *Exec) ownRef(ref *Term) bool {
	if _, _, ok := allocTerm(ref); ok || loopArr[ref] {
		return true
	}
	if ref.op == OConst && ref.val.Sign() == 0 {
		return true
	}
	if ref.op == OIte {
		return x.ownRef(ref.args[1]) && x.ownRef(ref.args[2])
	}
	return false
}

// loopArr: loop-head values of loop variables that only ever refer to memory
// allocated by the function under verification.
var loopArr = map[*Term]bool{}

func (x *Exec) modRefs(m modTarget) []*Term {
	switch v := m.v.(type) {
	case Sc:
		return []*Term{v.t}
	case Sl:
		return []*Term{v.arr}
	case If:
		return []*Term{v.pay}
	}
	return nil
}

func (x *Exec) bumpEpoch(st *State, ref *Term) {
	// a store to an object that may have been seen by a logic atom
	if st.logAl == nil {
		return
	}
	b, o, ok := allocTerm(ref)
	if ok && allocBelow(b, o, st.logAl) {
		return
	}
	st.epoch = Fresh("epoch", SInt)
	st.logAl = nil
}

func (x *Exec) heapStore(st *State, root types.Type, ref *Term, start int, vals []*Term, fn *ssa.Function) {
	ls := x.P.leaves(root)
	kp := "M|" + x.P.memOf(root) + "|"
	x.checkFrame(st, ref, x.P.canon.keyOf(root), fn, root)
	x.bumpEpoch(st, ref)
	for i, v := range vals {
		l := ls[start+i]
		k := fmt.Sprintf("%s%d", kp, start+i)
		h := x.heapGet(st, k, arrSort(l.sort()))
		st.heap[k] = Store(h, ref, v)
		if x.stores != nil {
			*x.stores = append(*x.stores, storeEv{key: k, ref: ref, val: v})
		}
	}
}

func (x *Exec) elemLoad(st *State, et types.Type, arr, idx *Term, start, n int) []*Term {
	ls := x.P.leaves(et)
	kp := "E|" + x.P.canon.keyOf(et) + "|"
	out := make([]*Term, n)
	for i := 0; i < n; i++ {
		l := ls[start+i]
		h := x.heapGet(st, fmt.Sprintf("%s%d", kp, start+i), arrSort(arrSort(l.sort())))
		out[i] = Select(Select(h, arr), idx)
	}
	x.readFacts(st, ls[start:start+n], out)
	return out
}

func (x *Exec) elemStore(st *State, et types.Type, arr, idx *Term, start int, vals []*Term, fn *ssa.Function) {
	ls := x.P.leaves(et)
	kp := "E|" + x.P.canon.keyOf(et) + "|"
	x.checkFrame(st, arr, "[]"+x.P.canon.keyOf(et), fn, et)
	x.bumpEpoch(st, arr)
	for i, v := range vals {
		l := ls[start+i]
		k := fmt.Sprintf("%s%d", kp, start+i)
		x.keyTyp[k] = et
		h := x.heapGet(st, k, arrSort(arrSort(l.sort())))
		st.heap[k] = Store(h, arr, Store(Select(h, arr), idx, v))
		if x.stores != nil {
			*x.stores = append(*x.stores, storeEv{key: k, ref: arr, idx: idx, val: v})
		}
	}
}

// fieldRange locates the leaves of a field path.
func (x *Exec) fieldRange(t types.Type, path []int) (int, int, types.Type) {
	start := 0
	for _, i := range path {
		switch u := under(t).(type) {
		case *types.Struct:
			for j := 0; j < i; j++ {
				start += len(x.P.leaves(u.Field(j).Type()))
			}
			t = u.Field(i).Type()
		case *types.Array:
			start += i * len(x.P.leaves(u.Elem()))
			t = u.Elem()
		default:
			unsupported("fieldRange %s", t)
		}
	}
	return start, len(x.P.leaves(t)), t
}

func isArrayT(t types.Type) (*types.Array, bool) {
	a, ok := under(t).(*types.Array)
	return a, ok
}

func (x *Exec) load(st *State, p Val, elem types.Type, fn *ssa.Function) (Val, bool) {
	switch a := p.(type) {
	case Sc:
		if !x.require(st, "nil-deref", fn, Not(Eq(a.t, I(0)))) {
			return nil, false
		}
		if at, ok := isArrayT(elem); ok {
			var fs []Val
			n := len(x.P.leaves(at.Elem()))
			for i := int64(0); i < at.Len(); i++ {
				fs = append(fs, x.P.unflatten(at.Elem(), x.elemLoad(st, at.Elem(), a.t, I(i), 0, n)))
			}
			return Ar{elem, fs}, true
		}
		return x.P.unflatten(elem, x.heapLoad(st, elem, a.t, 0, len(x.P.leaves(elem)))), true
	case *Ptr:
		switch a.kind {
		case 0:
			v := st.cells[a.cell]
			return getPath(v, a.path), true
		case 1:
			s, n, ft := x.fieldRange(a.root, a.path)
			return x.P.unflatten(ft, x.heapLoad(st, a.root, a.base, s, n)), true
		case 2:
			s, n, ft := x.fieldRange(a.root, a.path)
			return x.P.unflatten(ft, x.elemLoad(st, a.root, a.arr, a.idx, s, n)), true
		case 3:
			return x.loadGlobal(st, a), true
		}
	}
	unsupported("load %T", p)
	return nil, false
}

func getPath(v Val, path []int) Val {
	for _, i := range path {
		switch s := v.(type) {
		case St:
			v = s.f[i]
		case Ar:
			v = s.f[i]
		default:
			unsupported("getPath %T", v)
		}
	}
	return v
}

func setPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	switch s := v.(type) {
	case St:
		f := append([]Val(nil), s.f...)
		f[path[0]] = setPath(f[path[0]], path[1:], nv)
		return St{s.typ, f}
	case Ar:
		f := append([]Val(nil), s.f...)
		f[path[0]] = setPath(f[path[0]], path[1:], nv)
		return Ar{s.typ, f}
	}
	unsupported("setPath %T", v)
	return nil
}

func (x *Exec) store(st *State, p Val, v Val, t types.Type, fn *ssa.Function) bool {
	switch a := p.(type) {
	case Sc:
		if !x.require(st, "nil-deref", fn, Not(Eq(a.t, I(0)))) {
			return false
		}
		if at, ok := isArrayT(t); ok {
			av := v.(Ar)
			for i := int64(0); i < at.Len(); i++ {
				x.elemStore(st, at.Elem(), a.t, I(i), 0, x.flatten(av.f[i]), fn)
			}
			return true
		}
		x.heapStore(st, t, a.t, 0, x.flatten(v), fn)
		return true
	case *Ptr:
		switch a.kind {
		case 0:
			st.cells[a.cell] = setPath(st.cells[a.cell], a.path, v)
			if x.stores != nil {
				*x.stores = append(*x.stores, storeEv{cell: a.cell})
			}
			return true
		case 1:
			s, _, _ := x.fieldRange(a.root, a.path)
			x.heapStore(st, a.root, a.base, s, x.flatten(v), fn)
			return true
		case 2:
			s, _, _ := x.fieldRange(a.root, a.path)
			x.elemStore(st, a.root, a.arr, a.idx, s, x.flatten(v), fn)
			return true
		case 3:
			unsupported("store to global %s", a.glob)
		}
	}
	unsupported("store %T", p)
	return false
}

func (x *Exec) loadGlobal(st *State, p *Ptr) Val {
	g := p.glob
	t := g.Type().(*types.Pointer).Elem()
	if at, ok := isArrayT(t); ok && at.Len() > 16 {
		unsupported("global array %s", g)
	}
	ls := x.P.leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = Var(fmt.Sprintf("G~%s~%d", g.String(), i), l.sort())
		if l.kind == LRef || l.kind == LArr {
			entryRef[ts[i]] = true
		}
	}
	v := x.P.unflatten(t, ts)
	if iv, ok := x.P.globalInit[g]; ok && !x.P.globalMulti[g] {
		switch c := iv.(type) {
		case *ssa.Const:
			v = x.constVal(c)
		case *ssa.Alloc, *ssa.MakeMap:
			x.assume(st, Not(Eq(ts[0], I(0))), true)
		case *ssa.MakeInterface:
			v = If{I(x.P.tag(c.X.Type())), ts[1]}
			x.assume(st, Not(Eq(ts[1], I(0))), true)
		case *ssa.Call:
			if f := c.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
				x.assume(st, Not(Eq(ts[0], I(0))), true)
			}
		case *ssa.Slice:
			if al, ok := c.X.(*ssa.Alloc); ok {
				if at, ok := isArrayT(al.Type().(*types.Pointer).Elem()); ok {
					v = Sl{ts[0], I(0), I(at.Len()), I(at.Len())}
					x.assume(st, Not(Eq(ts[0], I(0))), true)
				}
			}
		}
	}
	if !x.P.globalAddr[g] && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		// declared without a value and only ever loaded
		v = x.P.zero(t)
	}
	x.assumeNote("package-level variables are not modified after package initialisation")
	fl := x.flattenSoft(v)
	if fl != nil {
		x.readFacts(st, ls, fl)
		v = x.P.unflatten(t, fl)
	}
	return getPath(v, p.path)
}

func (x *Exec) flattenSoft(v Val) (r []*Term) {
	return x.flatten(v)
}

func (x *Exec) newRef(st *State) *Term {
	st.alloc = Sub(st.alloc, I(1))
	return st.alloc
}

// ---- constants
func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.P.zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Sc{B(constant.BoolVal(c.Value))}
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			bi, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				unsupported("const %s", c)
			}
			return Sc{IB(bi)}
		case u.Info()&types.IsString != 0:
			return Sc{StrLit(constant.StringVal(c.Value))}
		case u.Info()&types.IsFloat != 0:
			return Sc{floatConst(c.Value, t)}
		}
	case *types.TypeParam:
	}
	unsupported("const %s : %s", c, t)
	return nil
}

// floatConst: floats are represented by their IEEE bit patterns.
func floatConst(v constant.Value, t types.Type) *Term {
	if b := under(t).(*types.Basic); b.Kind() == types.Float32 {
		f, _ := constant.Float32Val(constant.ToFloat(v))
		return I(int64(math.Float32bits(f)))
	}
	f, _ := constant.Float64Val(constant.ToFloat(v))
	return IB(new(big.Int).SetUint64(math.Float64bits(f)))
}

// floatRange: the number of bit patterns of a float type, its sign bit and
// the pattern of infinity.
func floatBits(t types.Type) (all, sign, inf *big.Int) {
	n, m := uint(64), uint(52)
	if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.Float32 {
		n, m = 32, 23
	}
	one := big.NewInt(1)
	all = new(big.Int).Lsh(one, n)
	sign = new(big.Int).Lsh(one, n-1)
	inf = new(big.Int).Sub(sign, new(big.Int).Lsh(one, m))
	return
}

// floatNaN, floatZero: what a bit pattern stands for.
func floatNaN(t types.Type, p *Term) *Term {
	_, sign, inf := floatBits(t)
	ninf := new(big.Int).Add(inf, sign)
	return Or(And(Lt(IB(inf), p), Lt(p, IB(sign))), Lt(IB(ninf), p))
}

func floatZero(t types.Type, p *Term) *Term {
	_, sign, _ := floatBits(t)
	return Or(Eq(p, I(0)), Eq(p, IB(sign)))
}

func floatEq(t types.Type, p, q *Term) *Term {
	return Or(And(Eq(p, q), Not(floatNaN(t, p))), And(floatZero(t, p), floatZero(t, q)))
}

// ---- fresh (havoc) values
func (x *Exec) havoc(st *State, t types.Type, name string, entry bool) Val {
	ls := x.P.leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = Fresh(name+l.name, l.sort())
		switch l.kind {
		case LRef, LArr:
			if entry {
				entryRef[ts[i]] = true
			}
			refBirth[ts[i]] = st.alloc
		case LOff:
			if entry {
				ts[i] = I(0)
			}
		case LPay:
			payBirth[ts[i]] = st.alloc
			if entry {
				entryPay[ts[i]] = true
			}
		}
	}
	x.readFacts(st, ls, ts)
	return x.P.unflatten(t, ts)
}

// callFn executes fn with the given arguments.
func (x *Exec) callFn(fn *ssa.Function, args []Val, free []Val, st *State) []Outcome {
	if len(fn.Blocks) == 0 {
		unsupported("no body: %s", fn)
	}
	if len(x.stack) > 40 {
		unsupported("inlining too deep at %s", fn)
	}
	if !x.deadline.IsZero() && time.Now().After(x.deadline) {
		unsupported("time limit of symbolic execution reached")
	}
	cnt := 0
	for _, f := range x.stack {
		if f == fn {
			cnt++
		}
	}
	if cnt > 0 && !(x.logicD > 0 && cnt < 3) && fn.Parent() == nil {
		unsupported("recursion without contract: %s", fn)
	}
	if cnt > 4 {
		unsupported("recursive closure: %s", fn)
	}
	if fn.Recover != nil {
		unsupported("defer/recover in %s", fn)
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	if !x.P.isSpecFile(fn.Pos()) && x.logicD == 0 {
		x.inlined[fnName(fn)] = true
	}
	fr := &frame{fn: fn, free: free, logic: x.logicD > 0}
	fr.loops = x.loopsOf(fn)
	env := Env{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[p] = free[i]
	}
	exits := x.region(fr, nil, []edge{{to: fn.Blocks[0], env: env, st: st}})
	if len(exits) > 0 {
		panic("exits from function region")
	}
	outs := make([]Outcome, len(fr.rets))
	for i, r := range fr.rets {
		outs[i] = Outcome{r.st, r.res}
	}
	return x.mergeOutcomes(st, outs)
}

type edge struct {
	from, to *ssa.BasicBlock
	env      Env
	st       *State
}

// ---- merging
func sameHeap(a, b *State) bool {
	if a.alloc != b.alloc || a.epoch != b.epoch {
		return false
	}
	if len(a.heap) != len(b.heap) {
		// keys may be missing on one side only when equal to base: treat as different
		return false
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			return false
		}
	}
	for k, v := range a.cells {
		w, ok := b.cells[k]
		if ok && !sameVal(v, w) {
			return false
		}
	}
	return true
}

func sameVal(a, b Val) bool {
	switch p := a.(type) {
	case Sc:
		q, ok := b.(Sc)
		return ok && p == q
	case If:
		q, ok := b.(If)
		return ok && p == q
	case Sl:
		q, ok := b.(Sl)
		return ok && p == q
	case St:
		q, ok := b.(St)
		if !ok || len(p.f) != len(q.f) {
			return false
		}
		for i := range p.f {
			if !sameVal(p.f[i], q.f[i]) {
				return false
			}
		}
		return true
	case Ar:
		q, ok := b.(Ar)
		if !ok || len(p.f) != len(q.f) {
			return false
		}
		for i := range p.f {
			if !sameVal(p.f[i], q.f[i]) {
				return false
			}
		}
		return true
	case Tup:
		q, ok := b.(Tup)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !sameVal(p[i], q[i]) {
				return false
			}
		}
		return true
	case *Ptr:
		q, ok := b.(*Ptr)
		if !ok {
			return false
		}
		if p == q {
			return true
		}
		if p.kind != q.kind || p.cell != q.cell || p.glob != q.glob || p.base != q.base || p.arr != q.arr || p.idx != q.idx || len(p.path) != len(q.path) {
			return false
		}
		for i := range p.path {
			if p.path[i] != q.path[i] {
				return false
			}
		}
		return true
	case *Closure:
		q, ok := b.(*Closure)
		if !ok {
			return false
		}
		return p == q || p.fn == q.fn && len(p.free) == 0 && len(q.free) == 0
	case *MapIt:
		return a == b
	case nil:
		return b == nil
	}
	return false
}

// split pc suffix (since base) in conditions and facts
func suffix(pc, base *pcNode) (conds, facts []*Term) {
	bn := 0
	if base != nil {
		bn = base.n
	}
	var list []*pcNode
	for n := pc; n != nil && n.n > bn; n = n.parent {
		list = append(list, n)
	}
	for i := len(list) - 1; i >= 0; i-- {
		if list[i].fact {
			facts = append(facts, list[i].t)
		} else {
			conds = append(conds, list[i].t)
		}
	}
	return
}

func commonPC(a, b *pcNode) *pcNode {
	for a != b {
		an, bn := 0, 0
		if a != nil {
			an = a.n
		}
		if b != nil {
			bn = b.n
		}
		if an >= bn {
			a = a.parent
		} else {
			b = b.parent
		}
	}
	return a
}

// mergeStates merges b into a (same heap); returns merged state and the
// condition under which b's values apply (relative to the common prefix).
func (x *Exec) mergeStates(a, b *State) (*State, *Term) {
	c := commonPC(a.pc, b.pc)
	ca, fa := suffix(a.pc, c)
	cb, fb := suffix(b.pc, c)
	A, Bc := And(ca...), And(cb...)
	n := a.clone()
	n.pc = c
	n.known = map[*Term]bool{}
	n.eqc = map[*Term]*Term{}
	n.lows = map[*Term]*big.Int{}
	for k, v := range a.lows {
		if w, ok := b.lows[k]; ok {
			if v.Cmp(w) < 0 {
				v = w
			}
			n.lows[k] = v
		}
	}
	for k, v := range a.known {
		if w, ok := b.known[k]; ok && v == w {
			n.known[k] = v
		}
	}
	for k, v := range a.eqc {
		if b.eqc[k] == v {
			n.eqc[k] = v
		}
	}
	if a.logAl != b.logAl {
		if a.logAl == nil {
			n.logAl = b.logAl
		} else if b.logAl != nil {
			n.logAl = a.alloc
		}
	}
	for k, v := range b.cells {
		if _, ok := n.cells[k]; !ok {
			n.cells[k] = v
		}
	}
	or := Or(A, Bc)
	if or != TTrue {
		n.push(or, false)
		n.learn(or, true)
	}
	if f := Imp(A, And(fa...)); f != TTrue {
		n.push(f, true)
		if n.known[A] {
			n.learn(And(fa...), true)
		}
	}
	if f := Imp(Bc, And(fb...)); f != TTrue {
		n.push(f, true)
	}
	return n, Bc
}

func (x *Exec) mergeAll() bool { return x.logicD > 0 || x.useDepth > 0 }

// cleanRef: references that can only reach memory that is never written by
// the function under verification (entry memory and results of contracts and
// pure functions applied to such references).
var cleanRef = map[*Term]bool{}

func (x *Exec) isClean(t *Term) bool {
	if x.anyMods {
		return false
	}
	return cleanTerm(t)
}

func cleanTerm(t *Term) bool {
	if t.op == OConst {
		return t.val.Sign() >= 0
	}
	if cleanRef[t] || entryRef[t] || entryPay[t] {
		return true
	}
	switch t.op {
	case OSelect:
		if t.args[0].sort == arrSort(SInt) && cleanRowTerm(t.args[0]) {
			return true
		}
		return cleanTerm(t.args[1]) && t.args[0].sort.elem() == SInt && !ownStores(t.args[0]) || t.args[0].op == OSelect && cleanTerm(t.args[0].args[1])
	case OIte:
		return cleanTerm(t.args[1]) && cleanTerm(t.args[2])
	case OApp:
		if strings.HasPrefix(t.name, "box~") {
			for _, a := range t.args {
				if !cleanTerm(a) {
					return false
				}
			}
			return true
		}
		if strings.HasPrefix(t.name, "proj~") {
			return cleanTerm(t.args[0])
		}
	}
	return false
}

// cleanRow: rows of arrays all of whose elements are clean.
var cleanRow = map[*Term]bool{}

func cleanRowTerm(a *Term) bool {
	if cleanRow[a] {
		return true
	}
	switch a.op {
	case OStore:
		return cleanTerm(a.args[2]) && cleanRowTerm(a.args[0])
	case OConstArr:
		return cleanTerm(a.args[0])
	case OIte:
		return cleanRowTerm(a.args[1]) && cleanRowTerm(a.args[2])
	case OSelect:
		return cleanTerm(a.args[1])
	}
	return false
}

func ownStores(a *Term) bool { return false }

func scalarMergeable(a, b Val) bool {
	if sameVal(a, b) {
		return true
	}
	p, ok := a.(Sc)
	if !ok {
		return false
	}
	q, ok := b.(Sc)
	if !ok {
		return false
	}
	return p.t.sort == SBool && q.t.sort == SBool
}

func (x *Exec) mergeVal(c *Term, a, b Val) (Val, bool) {
	if sameVal(a, b) {
		return a, true
	}
	switch p := a.(type) {
	case Sc:
		if q, ok := b.(Sc); ok && p.t.sort == q.t.sort {
			return Sc{Ite(c, q.t, p.t)}, true
		}
	case If:
		if q, ok := b.(If); ok {
			return If{Ite(c, q.tag, p.tag), Ite(c, q.pay, p.pay)}, true
		}
	case Sl:
		if q, ok := b.(Sl); ok {
			return Sl{Ite(c, q.arr, p.arr), Ite(c, q.off, p.off), Ite(c, q.ln, p.ln), Ite(c, q.cp, p.cp)}, true
		}
	case St:
		if q, ok := b.(St); ok && len(p.f) == len(q.f) {
			f := make([]Val, len(p.f))
			for i := range f {
				var ok bool
				if f[i], ok = x.mergeVal(c, p.f[i], q.f[i]); !ok {
					return nil, false
				}
			}
			return St{p.typ, f}, true
		}
	case Tup:
		if q, ok := b.(Tup); ok && len(p) == len(q) {
			f := make(Tup, len(p))
			for i := range f {
				var ok bool
				if f[i], ok = x.mergeVal(c, p[i], q[i]); !ok {
					return nil, false
				}
			}
			return f, true
		}
	}
	return nil, false
}

func (x *Exec) mergeOutcomes(base *State, outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	var res []Outcome
	for _, o := range outs {
		done := false
		for i := range res {
			r := &res[i]
			if !sameHeap(r.st, o.st) {
				continue
			}
			if !x.mergeAll() {
				ok := true
				for j := range r.res {
					if !scalarMergeable(r.res[j], o.res[j]) {
						ok = false
					}
				}
				if !ok {
					continue
				}
			}
			st, c := x.mergeStates(r.st, o.st)
			vals := make(Tup, len(r.res))
			good := true
			for j := range vals {
				var ok bool
				if vals[j], ok = x.mergeVal(c, r.res[j], o.res[j]); !ok {
					good = false
				}
			}
			if !good {
				continue
			}
			r.st, r.res = st, vals
			done = true
			break
		}
		if !done {
			res = append(res, o)
		}
	}
	return res
}

// ---- region execution
func (x *Exec) region(fr *frame, L *loop, start []edge) (exits []edge) {
	ex, _ := x.region2(fr, L, start)
	return ex
}

// region2 runs the blocks of loop L (or the whole function) from the given
// edges; for a loop the header is entered directly with phis already set in
// env by the caller (from==nil).
func (x *Exec) region2(fr *frame, L *loop, start []edge) (exits, backs []edge) {
	pend := map[*ssa.BasicBlock][]edge{}
	for _, e := range start {
		pend[e.to] = append(pend[e.to], e)
	}
	for len(pend) > 0 {
		x.steps++
		if x.steps%64 == 0 && !x.deadline.IsZero() && time.Now().After(x.deadline) {
			unsupported("time limit of symbolic execution reached")
		}
		var b *ssa.BasicBlock
		for c := range pend {
			if b == nil || fr.loops.rpo[c] < fr.loops.rpo[b] {
				b = c
			}
		}
		es := pend[b]
		delete(pend, b)
		var outs []edge
		if in := fr.loops.byHeader[b]; in != nil && in != L {
			outs = x.runLoop(fr, in, es)
		} else {
			states := x.enter(fr, b, es)
			if len(states) > 400 {
				unsupported("path explosion in %s", fr.fn)
			}
			for _, e := range states {
				outs = append(outs, x.block(fr, b, e.env, e.st)...)
			}
		}
		for _, e := range outs {
			switch {
			case L != nil && e.to == L.header:
				backs = append(backs, e)
			case L != nil && !L.blocks[e.to]:
				exits = append(exits, e)
			default:
				pend[e.to] = append(pend[e.to], e)
			}
		}
	}
	return
}

// enter resolves phis and merges states.
func (x *Exec) enter(fr *frame, b *ssa.BasicBlock, es []edge) []edge {
	type item struct {
		e    edge
		phis []Val
	}
	var phis []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	var items []item
	for _, e := range es {
		it := item{e: e}
		if e.from != nil && len(phis) > 0 {
			pi := -1
			for i, p := range b.Preds {
				if p == e.from {
					pi = i
				}
			}
			for _, p := range phis {
				it.phis = append(it.phis, x.val(fr, e.env, e.st, p.Edges[pi]))
			}
		}
		items = append(items, it)
	}
	var res []item
	for _, it := range items {
		done := false
		if it.e.from != nil {
			for i := range res {
				r := &res[i]
				if !sameHeap(r.e.st, it.e.st) {
					continue
				}
				ok := true
				for j := range phis {
					if !x.mergeAll() && !scalarMergeable(r.phis[j], it.phis[j]) {
						ok = false
						break
					}
				}
				if !ok {
					continue
				}
				// common environment must agree on dominating values
				ne := Env{}
				for k, v := range r.e.env {
					if w, ok := it.e.env[k]; ok {
						if sameVal(v, w) {
							ne[k] = v
						} else if ins, isI := k.(ssa.Instruction); isI && dominates(ins.Block(), b) {
							ok = false
							ne = nil
							break
						}
					}
				}
				if ne == nil {
					continue
				}
				vals := make([]Val, len(phis))
				good := true
				st, c := x.mergeStates(r.e.st, it.e.st)
				for j := range phis {
					var ok bool
					if vals[j], ok = x.mergeVal(c, r.phis[j], it.phis[j]); !ok {
						good = false
						break
					}
				}
				if !good {
					continue
				}
				r.e = edge{from: r.e.from, to: b, env: ne, st: st}
				r.phis = vals
				done = true
				break
			}
		}
		if !done {
			res = append(res, it)
		}
	}
	var out []edge
	for _, r := range res {
		env := r.e.env
		if r.e.from != nil && len(phis) > 0 {
			env = env.clone()
			for j, p := range phis {
				env[p] = r.phis[j]
			}
		}
		out = append(out, edge{to: b, env: env, st: r.e.st})
	}
	return out
}

func dominates(a, b *ssa.BasicBlock) bool { return a == b || a.Dominates(b) }

func (e Env) clone() Env {
	n := make(Env, len(e)+8)
	for k, v := range e {
		n[k] = v
	}
	return n
}

func (x *Exec) val(fr *frame, env Env, st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return &Ptr{kind: 3, glob: c, typ: c.Type()}
	case *ssa.Function:
		return &Closure{fn: c}
	case *ssa.Builtin:
		return c
	}
	r, ok := env[v]
	if !ok {
		unsupported("value %s (%s) not available in %s", v.Name(), v, fr.fn)
	}
	return r
}

// block executes the instructions of b (phis already done).
func (x *Exec) block(fr *frame, b *ssa.BasicBlock, env Env, st *State) []edge {
	type work struct {
		i   int
		env Env
		st  *State
	}
	env = env.clone()
	st = st.clone()
	q := []work{{0, env, st}}
	var out []edge
	for len(q) > 0 {
		w := q[len(q)-1]
		q = q[:len(q)-1]
		i, env, st := w.i, w.env, w.st
	instrs:
		for ; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			switch c := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Jump:
				out = append(out, edge{b, b.Succs[0], env, st})
				break instrs
			case *ssa.If:
				cond := x.val(fr, env, st, c.Cond).(Sc).t
				if d, ok := x.decide(st, cond); ok {
					s := 1
					if d {
						s = 0
					}
					out = append(out, edge{b, b.Succs[s], env, st})
					break instrs
				}
				st2 := st.clone()
				x.assume(st, cond, false)
				x.assume(st2, Not(cond), false)
				out = append(out, edge{b, b.Succs[0], env, st}, edge{b, b.Succs[1], env.clone(), st2})
				break instrs
			case *ssa.Return:
				var res Tup
				for _, r := range c.Results {
					res = append(res, x.val(fr, env, st, r))
				}
				fr.rets = append(fr.rets, retState{st, res})
				break instrs
			case *ssa.Panic:
				x.require(st, "panic", fr.fn, TFalse)
				break instrs
			case *ssa.Store:
				v := x.val(fr, env, st, c.Val)
				if !x.store(st, x.val(fr, env, st, c.Addr), v, c.Val.Type(), fr.fn) {
					break instrs
				}
			case *ssa.MapUpdate:
				m := x.val(fr, env, st, c.Map).(Sc).t
				if !x.require(st, "nil-map-write", fr.fn, Not(Eq(m, I(0)))) {
					break instrs
				}
				x.mapStore(st, c.Map.Type(), m, x.val(fr, env, st, c.Key), x.val(fr, env, st, c.Value), fr.fn)
			case *ssa.RunDefers:
			case *ssa.Defer:
				if f := c.Call.StaticCallee(); f != nil && isSyncFn(f) {
					continue
				}
				unsupported("defer in %s", fr.fn)
			case *ssa.Go, *ssa.Send, *ssa.Select:
				unsupported("concurrency in %s", fr.fn)
			case ssa.Value:
				outs := x.value(fr, env, st, c)
				if len(outs) == 0 {
					break instrs
				}
				for j := 1; j < len(outs); j++ {
					e2 := env.clone()
					e2[c] = one(outs[j].res)
					q = append(q, work{i + 1, e2, outs[j].st})
				}
				st = outs[0].st
				env[c] = one(outs[0].res)
			default:
				unsupported("instruction %T in %s", ins, fr.fn)
			}
		}
	}
	return out
}

func one(t Tup) Val {
	if len(t) == 1 {
		return t[0]
	}
	return t
}

func ret1(st *State, v Val) []Outcome { return []Outcome{{st, Tup{v}}} }

func isSyncFn(f *ssa.Function) bool {
	s := f.String()
	return strings.HasPrefix(s, "(*sync.Mutex)") || strings.HasPrefix(s, "(*sync.RWMutex)")
}

// ---- value instructions
func (x *Exec) value(fr *frame, env Env, st *State, v ssa.Value) []Outcome {
	get := func(a ssa.Value) Val { return x.val(fr, env, st, a) }
	switch c := v.(type) {
	case *ssa.Alloc:
		t := c.Type().(*types.Pointer).Elem()
		return x.allocate(st, t, c.Heap, fr)
	case *ssa.BinOp:
		return x.binop(fr, st, c.Op, get(c.X), get(c.Y), c.X.Type(), c.Type())
	case *ssa.UnOp:
		a := get(c.X)
		switch c.Op {
		case token.MUL:
			r, ok := x.load(st, a, c.Type(), fr.fn)
			if !ok {
				return nil
			}
			return ret1(st, r)
		case token.NOT:
			return ret1(st, Sc{Not(a.(Sc).t)})
		case token.SUB:
			if isFloat(c.Type()) {
				p := a.(Sc).t
				_, sign, _ := floatBits(c.Type())
				return ret1(st, Sc{Ite(Lt(p, IB(sign)), Add(p, IB(sign)), Sub(p, IB(sign)))})
			}
			return ret1(st, Sc{x.wrap(Sub(I(0), a.(Sc).t), c.Type())})
		case token.XOR:
			return ret1(st, Sc{x.wrap(Sub(I(-1), a.(Sc).t), c.Type())})
		}
		unsupported("unop %s", c.Op)
	case *ssa.Call:
		return x.callInstr(fr, env, st, c)
	case *ssa.ChangeInterface:
		v := get(c.X)
		if iv, ok := v.(If); ok && iv.tag.op != OConst {
			{
				// remember what the static type said
				to := under(c.Type()).(*types.Interface)
				if set := x.P.implementers(c.X.Type()); len(set) > 0 && len(set) <= 150 &&
					(to.NumMethods() == 0 || len(set) < len(x.P.implementers(c.Type()))) {
					x.assumeNote("closed world: interface values hold only concrete types that occur in this module")
					fs := []*Term{Eq(iv.tag, I(0))}
					for _, t := range set {
						fs = append(fs, Eq(iv.tag, I(x.P.tag(t))))
					}
					x.assume(st, Or(fs...), true)
				}
			}
		}
		return ret1(st, v)
	case *ssa.ChangeType:
		return ret1(st, retype(get(c.X), c.Type()))
	case *ssa.Convert:
		return x.convert(fr, st, get(c.X), c.X.Type(), c.Type())
	case *ssa.MultiConvert:
		return x.convert(fr, st, get(c.X), c.X.Type(), c.Type())
	case *ssa.Extract:
		return ret1(st, get(c.Tuple).(Tup)[c.Index])
	case *ssa.Field:
		return ret1(st, get(c.X).(St).f[c.Field])
	case *ssa.FieldAddr:
		return x.fieldAddr(fr, st, get(c.X), c.X.Type().Underlying().(*types.Pointer).Elem(), c.Field, c.Type())
	case *ssa.Index:
		return x.index(fr, st, get(c.X), get(c.Index).(Sc).t, c.X.Type())
	case *ssa.IndexAddr:
		return x.indexAddr(fr, st, get(c.X), get(c.Index).(Sc).t, c.X.Type())
	case *ssa.Lookup:
		return x.lookup(fr, st, get(c.X), get(c.Index), c.X.Type(), c.CommaOk)
	case *ssa.MakeClosure:
		var fv []Val
		for _, b := range c.Bindings {
			fv = append(fv, get(b))
		}
		return ret1(st, &Closure{c.Fn.(*ssa.Function), fv})
	case *ssa.MakeInterface:
		return ret1(st, x.makeIface(st, get(c.X), c.X.Type()))
	case *ssa.MakeMap:
		return ret1(st, Sc{x.newMap(st, c.Type())})
	case *ssa.MakeSlice:
		et := under(c.Type()).(*types.Slice).Elem()
		ln, cp := get(c.Len).(Sc).t, get(c.Cap).(Sc).t
		if !x.require(st, "makeslice", fr.fn, And(Le(I(0), ln), Le(ln, cp))) {
			return nil
		}
		arr := x.newRef(st)
		x.zeroArr(st, et, arr)
		return ret1(st, Sl{arr, I(0), ln, cp})
	case *ssa.Range:
		if m, ok := under(c.X.Type()).(*types.Map); ok {
			x.mapIterN++
			vis := fmt.Sprintf("VIS|%d", x.mapIterN)
			st.heap[vis] = ConstArr(arrSort(SBool), TFalse)
			return ret1(st, &MapIt{get(c.X), m, x.mapIterN, vis})
		}
		unsupported("range over %s", c.X.Type())
	case *ssa.Next:
		return x.next(fr, st, get(c.Iter), c)
	case *ssa.Slice:
		return x.sliceOp(fr, env, st, c)
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, get(c.X).(If), c.X.Type(), c.AssertedType, c.CommaOk)
	}
	unsupported("value %T in %s", v, fr.fn)
	return nil
}

func retype(v Val, t types.Type) Val {
	switch a := v.(type) {
	case St:
		return St{t, a.f}
	case Ar:
		return Ar{t, a.f}
	}
	return v
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (x *Exec) zeroArr(st *State, et types.Type, arr *Term) {
	for i, l := range x.P.leaves(et) {
		k := fmt.Sprintf("E|%s|%d", x.P.canon.keyOf(et), i)
		h := x.heapGet(st, k, arrSort(arrSort(l.sort())))
		z := I(0)
		if l.kind == LBool {
			z = TFalse
		}
		row := ConstArr(arrSort(l.sort()), z)
		st.heap[k] = Store(h, arr, row)
		if x.stores != nil {
			*x.stores = append(*x.stores, storeEv{key: k, ref: arr, val: row})
		}
	}
}

func (x *Exec) allocate(st *State, t types.Type, heap bool, fr *frame) []Outcome {
	if at, ok := isArrayT(t); ok {
		r := x.newRef(st)
		x.zeroArr(st, at.Elem(), r)
		return ret1(st, Sc{r})
	}
	if !heap {
		x.cellN++
		x.cellTyp[x.cellN] = t
		st.cells[x.cellN] = x.P.zero(t)
		return ret1(st, &Ptr{kind: 0, cell: x.cellN, typ: t})
	}
	r := x.newRef(st)
	for i, l := range x.P.leaves(t) {
		k := fmt.Sprintf("M|%s|%d", x.P.memOf(t), i)
		h := x.heapGet(st, k, arrSort(l.sort()))
		z := I(0)
		if l.kind == LBool {
			z = TFalse
		}
		st.heap[k] = Store(h, r, z)
		if x.stores != nil {
			*x.stores = append(*x.stores, storeEv{key: k, ref: r, val: z})
		}
	}
	return ret1(st, Sc{r})
}

func (x *Exec) fieldAddr(fr *frame, st *State, p Val, root types.Type, field int, ptyp types.Type) []Outcome {
	switch a := p.(type) {
	case Sc:
		if !x.require(st, "nil-deref", fr.fn, Not(Eq(a.t, I(0)))) {
			return nil
		}
		return ret1(st, &Ptr{kind: 1, base: a.t, root: root, path: []int{field}, typ: ptyp})
	case *Ptr:
		n := *a
		n.path = append(append([]int(nil), a.path...), field)
		n.typ = ptyp
		return ret1(st, &n)
	}
	unsupported("fieldAddr %T", p)
	return nil
}

func (x *Exec) index(fr *frame, st *State, v Val, i *Term, t types.Type) []Outcome {
	switch a := v.(type) {
	case Ar:
		if i.op != OConst {
			unsupported("symbolic array index")
		}
		n := i.val.Int64()
		if n < 0 || n >= int64(len(a.f)) {
			x.require(st, "index", fr.fn, TFalse)
			return nil
		}
		return ret1(st, a.f[n])
	case Sc: // string
		x.strFacts(st, a.t)
		if !x.require(st, "index", fr.fn, And(Le(I(0), i), Lt(i, StrLen(a.t)))) {
			return nil
		}
		r := App("strat", SInt, a.t, i)
		x.assume(st, And(Le(I(0), r), Le(r, I(255))), true)
		return ret1(st, Sc{r})
	}
	unsupported("index %T", v)
	return nil
}

func (x *Exec) indexAddr(fr *frame, st *State, v Val, i *Term, t types.Type) []Outcome {
	switch a := v.(type) {
	case Sl:
		if !x.require(st, "index", fr.fn, And(Le(I(0), i), Lt(i, a.ln))) {
			return nil
		}
		et := under(t).(*types.Slice).Elem()
		return ret1(st, &Ptr{kind: 2, root: et, arr: a.arr, idx: Add(a.off, i), typ: types.NewPointer(et)})
	case Sc:
		at, ok := isArrayT(under(t).(*types.Pointer).Elem())
		if !ok {
			unsupported("indexAddr on %s", t)
		}
		if !x.require(st, "nil-deref", fr.fn, Not(Eq(a.t, I(0)))) {
			return nil
		}
		if !x.require(st, "index", fr.fn, And(Le(I(0), i), Lt(i, I(at.Len())))) {
			return nil
		}
		return ret1(st, &Ptr{kind: 2, root: at.Elem(), arr: a.t, idx: i, typ: types.NewPointer(at.Elem())})
	case *Ptr:
		if i.op == OConst {
			n := *a
			n.path = append(append([]int(nil), a.path...), int(i.val.Int64()))
			return ret1(st, &n)
		}
	}
	unsupported("indexAddr %T", v)
	return nil
}

func (x *Exec) strFacts(st *State, t *Term) {
	if t.op == OConst {
		return
	}
	l := StrLen(t)
	x.assume(st, And(Le(I(0), l), Le(l, I(1<<40))), true)
	x.assume(st, Eq(Eq(l, I(0)), Eq(t, I(0))), true)
	if t.op == OApp && t.name == "strcat" {
		x.strFacts(st, t.args[0])
		x.strFacts(st, t.args[1])
		x.assume(st, Eq(l, Add(StrLen(t.args[0]), StrLen(t.args[1]))), true)
	}
}

// ---- interfaces
func (x *Exec) makeIface(st *State, v Val, t types.Type) Val {
	if _, ok := under(t).(*types.Interface); ok {
		return v
	}
	tag := I(x.P.tag(t))
	return If{tag, x.box(st, v, t)}
}

func (x *Exec) box(st *State, v Val, t types.Type) *Term {
	ts := x.flatten(v)
	ls := x.P.leaves(t)
	if len(ts) == 1 && (ls[0].kind == LRef || ls[0].kind == LFunc) {
		return ts[0]
	}
	if len(ts) == 0 {
		return I(0)
	}
	// normalise booleans
	args := make([]*Term, len(ts))
	for i, a := range ts {
		if ls[i].kind == LBool {
			a = Ite(a, I(1), I(0))
		}
		args[i] = a
	}
	k := x.P.canon.keyOf(t)
	b := App("box~"+k, SInt, args...)
	if !b.bnd {
		for i, a := range args {
			_ = a
			p := mk(OApp, SInt, fmt.Sprintf("proj~%s~%d", k, i), nil, b)
			x.assume(st, mk(OEq, SBool, "", nil, ordered(p, args[i])...), true)
		}
	}
	return b
}

func ordered(a, b *Term) []*Term {
	if a.id > b.id {
		return []*Term{b, a}
	}
	return []*Term{a, b}
}

func (x *Exec) unbox(st *State, pay *Term, t types.Type) Val {
	ls := x.P.leaves(t)
	if len(ls) == 1 && (ls[0].kind == LRef || ls[0].kind == LFunc) {
		ts := []*Term{pay}
		if ls[0].kind == LRef && pay.op != OConst {
			if x.isEntryPay(pay) {
				entryRef[pay] = true
			} else if b, ok := payBirth[pay]; ok {
				if _, ok := refBirth[pay]; !ok {
					refBirth[pay] = b
				}
			}
			if _, _, ok := allocTerm(pay); !ok {
				x.assume(st, Not(Eq(pay, I(0))), true)
				x.assumeNote("interfaces do not hold typed nil pointers")
			}
		}
		x.readFacts(st, ls, ts)
		return x.P.unflatten(t, ts)
	}
	if len(ls) == 0 {
		return x.P.unflatten(t, nil)
	}
	k := x.P.canon.keyOf(t)
	ts := make([]*Term, len(ls))
	args := make([]*Term, len(ls))
	for i, l := range ls {
		p := App(fmt.Sprintf("proj~%s~%d", k, i), SInt, pay)
		args[i] = p
		if l.kind == LBool {
			if p.op == OIte && p.args[1].op == OConst && p.args[2].op == OConst {
				ts[i] = p.args[0]
			} else {
				ts[i] = Eq(p, I(1))
			}
		} else {
			ts[i] = p
		}
		if (l.kind == LRef || l.kind == LArr) && x.isEntryPay(pay) {
			entryRef[p] = true
		}
		if l.kind == LOff && x.isEntryPay(pay) {
			ts[i] = I(0)
		}
	}
	if !(pay.op == OApp && pay.name == "box~"+k) {
		x.assume(st, Eq(pay, App("box~"+k, SInt, args...)), true)
	}
	x.readFacts(st, ls, ts)
	return x.P.unflatten(t, ts)
}

func (x *Exec) isEntryPay(pay *Term) bool {
	if pay.op == OApp && strings.HasPrefix(pay.name, "proj~") {
		return x.isEntryPay(pay.args[0])
	}
	return entryPay[pay] || entryRef[pay] || x.isEntryLoad(pay)
}

func (x *Exec) typeAssert(fr *frame, st *State, v If, static, asserted types.Type, commaOk bool) []Outcome {
	var cond *Term
	it, isI := under(asserted).(*types.Interface)
	if isI {
		cond = x.implementsCond(st, v.tag, static, asserted, it)
	} else {
		cond = Eq(v.tag, I(x.P.tag(asserted)))
	}
	good := func(s *State) Val {
		if isI {
			return v
		}
		return x.unbox(s, v.pay, asserted)
	}
	if !commaOk {
		if !x.require(st, "type-assert", fr.fn, cond) {
			return nil
		}
		x.onTag(st, v, static)
		return ret1(st, good(st))
	}
	if d, ok := x.decide(st, cond); ok {
		if d {
			if isI {
				x.onTag(st, v, static)
			}
			return ret1(st, Tup{good(st), Sc{TTrue}})
		}
		return ret1(st, Tup{x.P.zero(asserted), Sc{TFalse}})
	}
	s2 := st.clone()
	x.assume(st, cond, false)
	x.onTag(st, v, static)
	x.assume(s2, Not(cond), false)
	return []Outcome{{st, Tup{Tup{good(st), Sc{TTrue}}}}, {s2, Tup{Tup{x.P.zero(asserted), Sc{TFalse}}}}}
}

// implementsCond: tag implements interface I.
func (x *Exec) implementsCond(st *State, tag *Term, static, asserted types.Type, it *types.Interface) *Term {
	if k, ok := st.eqc[tag]; ok {
		tag = k
	}
	if tag.op == OConst {
		t := x.P.tagType(tag.val.Int64())
		if t == nil {
			return TFalse
		}
		return B(types.Implements(t, it))
	}
	if types.Implements(static, it) || types.Identical(under(static), it) {
		return Not(Eq(tag, I(0)))
	}
	set := x.P.implementers(static)
	if it0 := under(static).(*types.Interface); it0.NumMethods() == 0 {
		if set = x.P.implementers(asserted); len(set) > 0 && len(set) <= 150 {
			x.assumeNote("closed world: interface values hold only concrete types that occur in this module")
			var yes []*Term
			for _, t := range set {
				yes = append(yes, Eq(tag, I(x.P.tag(t))))
			}
			return Or(yes...)
		}
	}
	if len(set) == 0 || len(set) > 150 {
		return And(Not(Eq(tag, I(0))), App("implements~"+x.P.canon.keyOf(asserted), SBool, tag))
	}
	x.assumeNote("closed world: interface values hold only concrete types that occur in this module")
	var yes, no []*Term
	for _, t := range set {
		e := Eq(tag, I(x.P.tag(t)))
		if types.Implements(t, it) {
			yes = append(yes, e)
		} else {
			no = append(no, e)
		}
	}
	if len(no) == 0 {
		return Not(Eq(tag, I(0)))
	}
	return Or(yes...)
}

var implCache = map[types.Type][]types.Type{}

// implementers: closed-world set of concrete types of a static interface.
func (P *Prog) implementers(static types.Type) []types.Type {
	c := P.canon.get(static)
	if r, ok := implCache[c]; ok {
		return r
	}
	it, ok := under(static).(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return nil
	}
	var out []types.Type
	seen := map[types.Type]bool{}
	for _, t := range P.madeL {
		if types.Implements(t, it) && P.inScopeType(t) {
			out = append(out, t)
			seen[t] = true
		}
	}
	// exported named types never converted inside the module
	for _, p := range P.pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || !tn.Exported() || P.isSpecFile(tn.Pos()) {
				continue
			}
			nt, ok := types.Unalias(tn.Type()).(*types.Named)
			if !ok || nt.TypeArgs().Len() == 0 && (tn.IsAlias() || nt.TypeParams().Len() > 0) {
				continue // aliases count when they name an instance of a generic type
			}
			if nt.TypeArgs().Len() > 0 && (hasTypeParam(nt) || !P.inScopeType(nt)) {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			pt := P.canon.get(types.NewPointer(nt))
			vt := P.canon.get(nt)
			if seen[pt] || seen[vt] {
				continue
			}
			if types.Implements(vt, it) {
				out = append(out, vt)
				seen[vt] = true
			} else if types.Implements(pt, it) {
				out = append(out, pt)
				seen[pt] = true
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	implCache[c] = out
	return out
}

func (P *Prog) inScopeType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	pp := n.Obj().Pkg().Path()
	return strings.HasPrefix(pp, modPath) && !P.isSpecFile(n.Obj().Pos()) || strings.HasSuffix(pp, "substraitpb")
}
