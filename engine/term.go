package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sort of a term. Only a handful exist.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
)

func arrSort(elem Sort) Sort { return Sort("(Array Int " + string(elem) + ")") }
func (s Sort) elem() Sort {
	str := string(s)
	return Sort(str[len("(Array Int ") : len(str)-1])
}
func (s Sort) isArr() bool { return strings.HasPrefix(string(s), "(Array") }

type Op uint8

const (
	OConst Op = iota // integer constant
	OTrue
	OFalse
	OVar
	OApp // uninterpreted function application
	OAnd
	OOr
	ONot
	OImp
	OEq
	OIte
	OAdd  // n-ary
	OMulC // const * term  (val)
	OMul
	ODiv // SMT div (floor for positive divisor)
	OMod
	OLt
	OLe
	OSelect
	OStore
	OForall // name = bound variable ; args[0]=body ; args[1:]=patterns
	OConstArr
)

type Term struct {
	id   int
	op   Op
	sort Sort
	args []*Term
	name string
	val  *big.Int
	// bnd: contains bound variables
	bnd bool
	// free symbols cache
	syms map[*Term]bool
	seq  int // creation sequence for OVar
}

var (
	termTab = map[string]*Term{}
	termCnt int
	TTrue   = mk(OTrue, SBool, "", nil)
	TFalse  = mk(OFalse, SBool, "", nil)
	varSeq  int
)

func mk(op Op, s Sort, name string, val *big.Int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte('A' + op))
	sb.WriteString(string(s))
	sb.WriteByte('|')
	sb.WriteString(name)
	if val != nil {
		sb.WriteByte('#')
		sb.WriteString(val.String())
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCnt++
	t := &Term{id: termCnt, op: op, sort: s, args: args, name: name, val: val}
	for _, a := range args {
		if a.bnd {
			t.bnd = true
		}
	}
	if op == OVar {
		varSeq++
		t.seq = varSeq
		if strings.HasPrefix(name, "?") {
			t.bnd = true
		}
	}
	termTab[k] = t
	return t
}

func I(n int64) *Term     { return mk(OConst, SInt, "", big.NewInt(n)) }
func IB(n *big.Int) *Term { return mk(OConst, SInt, "", n) }
func B(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}
func Var(name string, s Sort) *Term { return mk(OVar, s, name, nil) }

var freshCnt int

func Fresh(prefix string, s Sort) *Term {
	freshCnt++
	return Var(fmt.Sprintf("%s!%d", sanitize(prefix), freshCnt), s)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func App(name string, s Sort, args ...*Term) *Term {
	// projections of boxes
	if strings.HasPrefix(name, "proj~") && len(args) == 1 {
		a := args[0]
		rest := name[5:]
		j := strings.LastIndexByte(rest, '~')
		if a.op == OApp && a.name == "box~"+rest[:j] {
			n, _ := strconv.Atoi(rest[j+1:])
			return a.args[n]
		}
		if a.op == OIte {
			return Ite(a.args[0], App(name, s, a.args[1]), App(name, s, a.args[2]))
		}
	}
	return mk(OApp, s, name, nil, args...)
}

func isConst(t *Term) bool { return t.op == OConst }

func Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return TFalse
	case OFalse:
		return TTrue
	case ONot:
		return a.args[0]
	case OLt:
		return Le(a.args[1], a.args[0])
	case OLe:
		return Lt(a.args[1], a.args[0])
	}
	return mk(ONot, SBool, "", nil, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		switch a.op {
		case OTrue:
			return true
		case OFalse:
			return false
		case OAnd:
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a] {
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return TFalse
		}
	}
	switch len(out) {
	case 0:
		return TTrue
	case 1:
		return out[0]
	}
	return mk(OAnd, SBool, "", nil, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		switch a.op {
		case OFalse:
			return true
		case OTrue:
			return false
		case OOr:
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a] {
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return TTrue
		}
	}
	switch len(out) {
	case 0:
		return TFalse
	case 1:
		return out[0]
	}
	return mk(OOr, SBool, "", nil, out...)
}

func Imp(a, b *Term) *Term {
	if a == TTrue {
		return b
	}
	if a == TFalse || b == TTrue || a == b {
		return TTrue
	}
	if b == TFalse {
		return Not(a)
	}
	return mk(OImp, SBool, "", nil, a, b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s %s: %s = %s", a.sort, b.sort, a, b))
	}
	if a.sort == SBool {
		switch {
		case a == TTrue:
			return b
		case b == TTrue:
			return a
		case a == TFalse:
			return Not(b)
		case b == TFalse:
			return Not(a)
		}
	}
	if a.sort == SInt {
		if a.op == OConst && b.op == OConst {
			return B(a.val.Cmp(b.val) == 0)
		}
		if a.op == OIte && b.op == OConst {
			if a.args[1].op == OConst || a.args[2].op == OConst {
				return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
			}
		}
		if b.op == OIte && a.op == OConst {
			return Eq(b, a)
		}
		// allocation terms: distinct when different
		if d, ok := refDistinct(a, b); ok && d {
			return TFalse
		}
		if a.op == OApp && b.op == OApp && a.name == b.name && strings.HasPrefix(a.name, "box~") {
			var cs []*Term
			for i := range a.args {
				cs = append(cs, Eq(a.args[i], b.args[i]))
			}
			return And(cs...)
		}
		la, lb := linOf(a), linOf(b)
		d := la.sub(lb)
		if d.isConst() {
			return B(d.c.Sign() == 0)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, SBool, "", nil, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == TTrue || a == b {
		return a
	}
	if c == TFalse {
		return b
	}
	if a.sort == SBool {
		if a == TTrue && b == TFalse {
			return c
		}
		if a == TFalse && b == TTrue {
			return Not(c)
		}
		if a == TTrue {
			return Or(c, b)
		}
		if a == TFalse {
			return And(Not(c), b)
		}
		if b == TFalse {
			return And(c, a)
		}
		if b == TTrue {
			return Or(Not(c), a)
		}
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return mk(OIte, a.sort, "", nil, c, a, b)
}

// ---- linear arithmetic normal form
type lin struct {
	c *big.Int
	m map[*Term]*big.Int
}

func (l lin) isConst() bool { return len(l.m) == 0 }
func (l lin) sub(o lin) lin { return l.addScaled(o, big.NewInt(-1)) }
func (l lin) addScaled(o lin, k *big.Int) lin {
	r := lin{new(big.Int).Add(l.c, new(big.Int).Mul(o.c, k)), map[*Term]*big.Int{}}
	for t, v := range l.m {
		r.m[t] = v
	}
	for t, v := range o.m {
		nv := new(big.Int).Mul(v, k)
		if old, ok := r.m[t]; ok {
			nv.Add(nv, old)
		}
		if nv.Sign() == 0 {
			delete(r.m, t)
		} else {
			r.m[t] = nv
		}
	}
	return r
}

func linOf(t *Term) lin {
	switch t.op {
	case OConst:
		return lin{t.val, nil}
	case OMulC:
		return lin{big.NewInt(0), map[*Term]*big.Int{t.args[0]: t.val}}
	case OAdd:
		r := lin{big.NewInt(0), map[*Term]*big.Int{}}
		for _, a := range t.args {
			switch a.op {
			case OConst:
				r.c = new(big.Int).Add(r.c, a.val)
			case OMulC:
				r.m[a.args[0]] = a.val
			default:
				r.m[a] = big.NewInt(1)
			}
		}
		return r
	}
	return lin{big.NewInt(0), map[*Term]*big.Int{t: big.NewInt(1)}}
}

func (l lin) term() *Term {
	var ts []*Term
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var parts []*Term
	for _, t := range ts {
		k := l.m[t]
		if k.Cmp(big.NewInt(1)) == 0 {
			parts = append(parts, t)
		} else {
			parts = append(parts, mk(OMulC, SInt, "", k, t))
		}
	}
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, IB(l.c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk(OAdd, SInt, "", nil, parts...)
}

func Add(a, b *Term) *Term { return linOf(a).addScaled(linOf(b), big.NewInt(1)).term() }
func Sub(a, b *Term) *Term { return linOf(a).sub(linOf(b)).term() }
func Mul(a, b *Term) *Term {
	if a.op == OConst {
		return lin{big.NewInt(0), nil}.addScaled(linOf(b), a.val).term()
	}
	if b.op == OConst {
		return Mul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OMul, SInt, "", nil, a, b)
}

// floorDiv: SMT-LIB div semantics (Euclidean)
func Div(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.val.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.val, b.val, m)
		return IB(q)
	}
	if b.op == OConst && b.val.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return mk(ODiv, SInt, "", nil, a, b)
}
func Mod(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.val.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.val, b.val, m)
		return IB(m)
	}
	return mk(OMod, SInt, "", nil, a, b)
}

func Lt(a, b *Term) *Term {
	d := linOf(a).sub(linOf(b))
	if d.isConst() {
		return B(d.c.Sign() < 0)
	}
	return mk(OLt, SBool, "", nil, a, b)
}
func Le(a, b *Term) *Term {
	d := linOf(a).sub(linOf(b))
	if d.isConst() {
		return B(d.c.Sign() <= 0)
	}
	return mk(OLe, SBool, "", nil, a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// ---- allocation references
// allocBase[v] = level of an allocation counter variable; level 0 is the
// constant zero. A term  base - k (k>=1) is a reference allocated after the
// counter variable `base` was created; refs of different levels never clash.
var allocLevel = map[*Term]int{}

// allocTerm decomposes t into (level, base, offset) when t is an allocated ref.
func allocTerm(t *Term) (*Term, int64, bool) {
	if t.op == OConst {
		if t.val.Sign() < 0 && t.val.IsInt64() {
			return nil, t.val.Int64(), true
		}
		return nil, 0, false
	}
	if t.op == OAdd && len(t.args) == 2 && t.args[1].op == OConst {
		if _, ok := allocLevel[t.args[0]]; ok && t.args[1].val.Sign() < 0 {
			return t.args[0], t.args[1].val.Int64(), true
		}
	}
	return nil, 0, false
}

// nonNegTerms: terms known to be >= 0 syntactically (entry references).
var entryRef = map[*Term]bool{}

func isEntryRef(t *Term) bool {
	if t.op == OConst {
		return t.val.Sign() >= 0
	}
	return entryRef[t]
}

// refDistinct reports whether a and b are known distinct references.
func refDistinct(a, b *Term) (bool, bool) {
	ba, oa, ka := allocTerm(a)
	bb, ob, kb := allocTerm(b)
	if ka && kb {
		return !(ba == bb && oa == ob), true
	}
	if ka && (isEntryRef(b) || olderThan(b, ba, oa) || cleanRef[b]) {
		return true, true
	}
	if kb && (isEntryRef(a) || olderThan(a, bb, ob) || cleanRef[a]) {
		return true, true
	}
	return false, false
}

// refBirth[t] = allocation counter term at the time a symbolic reference t
// became known (t >= counter). Anything allocated later is distinct.
var refBirth = map[*Term]*Term{}

func olderThan(t *Term, base *Term, off int64) bool {
	c, ok := refBirth[t]
	if !ok {
		return false
	}
	// t >= c ; the allocated ref is base+off. Distinct when base+off < c.
	return allocBelow(base, off, c)
}

// allocBelow: is the allocated reference (base,off) strictly below counter c ?
func allocBelow(base *Term, off int64, c *Term) bool {
	var cb *Term
	var co int64
	if c.op == OConst {
		co = c.val.Int64()
	} else if _, ok := allocLevel[c]; ok {
		cb = c
	} else if c.op == OAdd && len(c.args) == 2 && c.args[1].op == OConst {
		cb, co = c.args[0], c.args[1].val.Int64()
	} else {
		return false
	}
	if base == cb {
		return off < co
	}
	lb, lc := 0, 0
	if base != nil {
		lb = allocLevel[base]
	}
	if cb != nil {
		lc = allocLevel[cb]
	}
	return lb > lc && allocDesc(base, cb)
}

// allocParent: counter variable -> counter term it was derived from
var allocParent = map[*Term]*Term{}

func allocDesc(base, anc *Term) bool {
	for base != nil {
		if base == anc {
			return true
		}
		p := allocParent[base]
		if p == nil {
			return anc == nil
		}
		if p.op == OAdd {
			p = p.args[0]
		}
		if p.op == OConst {
			p = nil
		}
		base = p
	}
	return anc == nil
}

func newAllocVar(parent *Term) *Term {
	v := Fresh("alloc", SInt)
	lvl := 0
	p := parent
	if p.op == OAdd {
		p = p.args[0]
	}
	if p.op == OVar {
		lvl = allocLevel[p]
	}
	allocLevel[v] = lvl + 1
	allocParent[v] = parent
	return v
}

func Select(a, i *Term) *Term {
	for {
		if a.op == OStore {
			if a.args[1] == i {
				return a.args[2]
			}
			if i.sort == SInt {
				e := Eq(a.args[1], i)
				if e == TTrue {
					return a.args[2]
				}
				if e == TFalse {
					a = a.args[0]
					continue
				}
			}
		}
		if a.op == OConstArr {
			return a.args[0]
		}
		if a.op == OIte {
			return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
		}
		break
	}
	return mk(OSelect, a.sort.elem(), "", nil, a, i)
}

func Store(a, i, v *Term) *Term {
	if a.sort.elem() != v.sort {
		panic(fmt.Sprintf("store sort mismatch %s <- %s", a.sort, v.sort))
	}
	if a.op == OStore && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk(OStore, a.sort, "", nil, a, i, v)
}

func ConstArr(s Sort, v *Term) *Term { return mk(OConstArr, s, "", nil, v) }

var bvCnt int

func BoundVar() *Term {
	bvCnt++
	return Var(fmt.Sprintf("?k%d", bvCnt), SInt)
}

func Forall(v *Term, body *Term) *Term {
	if body == TTrue {
		return TTrue
	}
	if !body.Syms()[v] {
		return body
	}
	return mk(OForall, SBool, v.name, nil, v, body)
}

// Syms returns the free OVar symbols of t (including bound-variable symbols
// that occur; callers filter).
func (t *Term) Syms() map[*Term]bool {
	if t.syms != nil {
		return t.syms
	}
	m := map[*Term]bool{}
	if t.op == OVar {
		m[t] = true
	}
	for _, a := range t.args {
		for s := range a.Syms() {
			m[s] = true
		}
	}
	if t.op == OForall {
		delete(m, t.args[0])
	}
	t.syms = m
	return m
}

// Subst replaces terms (any terms) according to m.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return subst(t, m, memo)
}

func subst(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	na := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		na[i] = subst(a, m, memo)
		if na[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, na)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OApp:
		return App(t.name, t.sort, a...)
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case ONot:
		return Not(a[0])
	case OImp:
		return Imp(a[0], a[1])
	case OEq:
		return Eq(a[0], a[1])
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OAdd:
		r := a[0]
		for _, x := range a[1:] {
			r = Add(r, x)
		}
		return r
	case OMulC:
		return Mul(IB(t.val), a[0])
	case OMul:
		return Mul(a[0], a[1])
	case ODiv:
		return Div(a[0], a[1])
	case OMod:
		return Mod(a[0], a[1])
	case OLt:
		return Lt(a[0], a[1])
	case OLe:
		return Le(a[0], a[1])
	case OSelect:
		return Select(a[0], a[1])
	case OStore:
		return Store(a[0], a[1], a[2])
	case OForall:
		return Forall(a[0], a[1])
	case OConstArr:
		return ConstArr(t.sort, a[0])
	}
	panic("rebuild")
}

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, nil)
	return sb.String()
}

func smtName(n string) string {
	return "|" + strings.ReplaceAll(n, "|", "_") + "|"
}

func (t *Term) write(sb *strings.Builder, let map[*Term]string) {
	if let != nil {
		if n, ok := let[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	t.writeBody(sb, let)
}

var opName = map[Op]string{OAnd: "and", OOr: "or", ONot: "not", OImp: "=>", OEq: "=", OIte: "ite", OAdd: "+", OMul: "*", ODiv: "div", OMod: "mod", OLt: "<", OLe: "<=", OSelect: "select", OStore: "store"}

func (t *Term) writeBody(sb *strings.Builder, let map[*Term]string) {
	switch t.op {
	case OConst:
		if t.val.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.val).String())
		} else {
			sb.WriteString(t.val.String())
		}
	case OTrue:
		sb.WriteString("true")
	case OFalse:
		sb.WriteString("false")
	case OVar:
		sb.WriteString(smtName(t.name))
	case OApp:
		if len(t.args) == 0 {
			sb.WriteString(smtName(t.name))
			return
		}
		sb.WriteByte('(')
		sb.WriteString(smtName(t.name))
		for _, a := range t.args {
			sb.WriteByte(' ')
			a.write(sb, let)
		}
		sb.WriteByte(')')
	case OMulC:
		sb.WriteString("(* ")
		IB(t.val).write(sb, let)
		sb.WriteByte(' ')
		t.args[0].write(sb, let)
		sb.WriteByte(')')
	case OConstArr:
		fmt.Fprintf(sb, "((as const %s) ", t.sort)
		t.args[0].write(sb, let)
		sb.WriteByte(')')
	case OForall:
		fmt.Fprintf(sb, "(forall ((%s Int)) ", smtName(t.args[0].name))
		pats := findPatterns(t.args[0], t.args[1])
		if len(pats) > 0 {
			sb.WriteString("(! ")
		}
		t.args[1].write(sb, let)
		for _, p := range pats {
			sb.WriteString(" :pattern (")
			p.write(sb, nil)
			sb.WriteString(")")
		}
		if len(pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteByte(')')
	default:
		sb.WriteByte('(')
		sb.WriteString(opName[t.op])
		for _, a := range t.args {
			sb.WriteByte(' ')
			a.write(sb, let)
		}
		sb.WriteByte(')')
	}
}

// findPatterns picks trigger terms: selects whose index is exactly the bound
// variable and whose array does not contain it.
func findPatterns(v, body *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.Syms()[v] {
			return
		}
		seen[t] = true
		if t.op == OSelect && t.args[1] == v && !t.args[0].Syms()[v] && !hasIte(t.args[0]) {
			out = append(out, t)
		}
		if t.op == OApp && len(out) < 12 && !strings.HasPrefix(t.name, "L~") {
			for _, a := range t.args {
				if a == v {
					out = append(out, t)
					break
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	// patterns must not contain other bound variables out of scope: keep only those
	// whose bound symbols are just v
	var res []*Term
	for _, p := range out {
		ok := true
		for s := range p.Syms() {
			if s != v && strings.HasPrefix(s.name, "?") {
				ok = false
			}
		}
		if ok {
			res = append(res, p)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].id < res[j].id })
	if len(res) > 8 {
		res = res[:8]
	}
	return res
}

func hasIte(t *Term) bool {
	if t.op == OIte || t.sort == SBool {
		return true
	}
	for _, a := range t.args {
		if hasIte(a) {
			return true
		}
	}
	return false
}
