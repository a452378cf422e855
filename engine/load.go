package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/substrait-io/substrait-go/v8"
const rtPath = modPath + "/zzverif"

// SpecKind of a specification function.
type SpecKind int

const (
	KSpec SpecKind = iota
	KContract
	KIface
	KBounded
)

// Spec is one executable specification function of /verif/contracts.
type Spec struct {
	Name     string // pkg.func
	Pkg      string
	Func     *ssa.Function
	Kind     SpecKind
	Target   string
	TargetFn *ssa.Function // contract
	IfaceObj *types.Func   // interface method object
	IfaceT   types.Type    // interface type
	Props    []string
	Split    []string // parameters to split on
	Unfold   int
	NoUse    bool // contract is only verified, never used at calls
	NoProve  bool
	Weight   int
	Ghost    bool
	File     string
	NoFuzz   bool
	Finding  string // expected failure: a recorded finding
	IH       *LemmaIH
}

// Prog is the loaded program.
type Prog struct {
	prog        *ssa.Program
	pkgs        []*packages.Package
	spkgs       map[string]*ssa.Package
	specs       []*Spec
	logic       map[*ssa.Function]bool
	opaque      map[*ssa.Function]bool // logic functions never unfolded automatically
	inline      map[string]bool
	pureM       map[*types.Func]bool // pure interface methods
	pureDyn     map[*types.Func]bool // pure where the receiver's type is not known
	pureF       map[*ssa.Function]bool
	contr       map[*ssa.Function]*Spec
	ifaceC      map[*types.Func]*Spec
	lemmas      []*Spec
	made        map[types.Type]bool // canonical types converted to interfaces
	madeL       []types.Type
	canon       typeCanon
	memTyp      map[*types.Struct][]*types.Named
	tagOf       map[types.Type]int64
	tagT        []types.Type
	fset        *token.FileSet
	overlay     map[string][]byte
	errs        []string
	overlaySrc  map[string]string
	dropped     []string // contract files or specs that no longer fit the code
	globalInit  map[*ssa.Global]ssa.Value
	globalMulti map[*ssa.Global]bool
	globalAddr  map[*ssa.Global]bool // used other than by a load
}

func overlayFiles(contractsDir, repo string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.Walk(contractsDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(contractsDir, p)
		dir, base := filepath.Split(rel)
		m[filepath.Join(repo, dir, "zz_verif_"+base)] = p
		return nil
	})
	return m, err
}

func load(repo, contractsDir string) (*Prog, error) {
	ov, err := overlayFiles(contractsDir, repo)
	if err != nil {
		return nil, err
	}
	var dropped []string
	for {
		P, bad, err := load1(repo, ov)
		if err == nil {
			P.dropped = append(P.dropped, dropped...)
			return P, nil
		}
		if len(bad) == 0 {
			return nil, err
		}
		for f, e := range bad {
			dropped = append(dropped, fmt.Sprintf("%s: %s", filepath.Base(f), e))
			delete(ov, f)
		}
		sort.Strings(dropped)
	}
}

func load1(repo string, ov map[string]string) (_ *Prog, bad map[string]string, _ error) {
	overlay := map[string][]byte{}
	dirs := map[string]bool{}
	for dst, src := range ov {
		if strings.HasSuffix(src, "_test.go") {
			continue
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, nil, err
		}
		overlay[dst] = b
		d, _ := filepath.Rel(repo, filepath.Dir(dst))
		dirs["./"+d] = true
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:     repo,
		Fset:    fset,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pats := []string{"./types", "./types/integer_parameters", "./extensions", "./functions", "./expr", "./plan", "./plan/internal", "./literal", ".", "./zzverif",
		"github.com/substrait-io/substrait-protobuf/go/substraitpb", "slices", "maps", "cmp"}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, p.PkgPath+": "+e.Error())
		}
	}
	if len(errs) > 0 {
		bad = map[string]string{}
		for _, p := range pkgs {
			for _, e := range p.Errors {
				f := strings.SplitN(e.Pos, ":", 2)[0]
				if _, ok := ov[f]; ok && bad[f] == "" && !strings.Contains(f, "/zzverif/") {
					bad[f] = e.Error()
				}
			}
		}
		return nil, bad, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{prog: prog, pkgs: pkgs, spkgs: map[string]*ssa.Package{}, logic: map[*ssa.Function]bool{}, opaque: map[*ssa.Function]bool{}, inline: map[string]bool{},
		pureM: map[*types.Func]bool{}, pureDyn: map[*types.Func]bool{}, contr: map[*ssa.Function]*Spec{}, ifaceC: map[*types.Func]*Spec{}, made: map[types.Type]bool{},
		tagOf: map[types.Type]int64{}, fset: fset, overlay: overlay, overlaySrc: ov, globalInit: map[*ssa.Global]ssa.Value{}, globalMulti: map[*ssa.Global]bool{}, globalAddr: map[*ssa.Global]bool{}}
	P.canon.init()
	for i, p := range spkgs {
		if p != nil {
			P.spkgs[pkgs[i].PkgPath] = p
		}
	}
	P.collectMade()
	if err := P.discover(); err != nil {
		return nil, nil, err
	}
	return P, nil, nil
}

func (P *Prog) isSpecFile(pos token.Pos) bool {
	if !pos.IsValid() {
		return false
	}
	return strings.HasPrefix(filepath.Base(P.fset.Position(pos).Filename), "zz_verif_")
}

// collectMade finds every concrete type converted to an interface in the
// repository's own code (closed-world enumeration of interface contents).
func (P *Prog) collectMade() {
	fns := ssautil.AllFunctions(P.prog)
	var list []*ssa.Function
	for f := range fns {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool {
		if list[i].String() != list[j].String() {
			return list[i].String() < list[j].String()
		}
		return list[i].Pos() < list[j].Pos()
	})
	for _, f := range list {
		if f.Pkg == nil && f.Origin() == nil && f.Synthetic != "" && len(f.Blocks) == 0 {
			continue
		}
		spec := P.isSpecFile(f.Pos())
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if u, ok := ins.(*ssa.UnOp); !ok || u.Op != token.MUL {
					for _, op := range ins.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							P.globalAddr[g] = true
						}
					}
				}
				switch x := ins.(type) {
				case *ssa.MakeInterface:
					if !spec && !hasTypeParam(x.X.Type()) {
						c := P.canon.get(x.X.Type())
						if !P.made[c] {
							P.made[c] = true
							P.madeL = append(P.madeL, c)
						}
					}
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok {
						if _, dup := P.globalInit[g]; dup || f.Name() != "init" {
							P.globalMulti[g] = true
						}
						P.globalInit[g] = x.Val
					}
				}
			}
		}
	}
	sort.Slice(P.madeL, func(i, j int) bool { return P.madeL[i].String() < P.madeL[j].String() })
}

func hasTypeParam(t types.Type) bool {
	seen := map[types.Type]bool{}
	var w func(t types.Type) bool
	w = func(t types.Type) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		switch x := t.(type) {
		case *types.TypeParam:
			return true
		case *types.Pointer:
			return w(x.Elem())
		case *types.Slice:
			return w(x.Elem())
		case *types.Array:
			return w(x.Elem())
		case *types.Map:
			return w(x.Key()) || w(x.Elem())
		case *types.Chan:
			return w(x.Elem())
		case *types.Named:
			if ta := x.TypeArgs(); ta != nil {
				for i := 0; i < ta.Len(); i++ {
					if w(ta.At(i)) {
						return true
					}
				}
			} else if x.TypeParams().Len() > 0 {
				return true
			}
			return false
		case *types.Alias:
			return w(types.Unalias(x))
		case *types.Signature:
			for i := 0; i < x.Params().Len(); i++ {
				if w(x.Params().At(i).Type()) {
					return true
				}
			}
			for i := 0; i < x.Results().Len(); i++ {
				if w(x.Results().At(i).Type()) {
					return true
				}
			}
			return false
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				if w(x.Field(i).Type()) {
					return true
				}
			}
		}
		return false
	}
	return w(t)
}

func (P *Prog) discover() error {
	for _, p := range P.pkgs {
		sp := P.spkgs[p.PkgPath]
		if sp == nil {
			continue
		}
		for _, f := range p.Syntax {
			fn := P.fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fn), "zz_verif_") {
				continue
			}
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//verif:pure ") || strings.HasPrefix(c.Text, "//verif:puredyn ") {
						for _, n := range strings.Fields(c.Text)[1:] {
							_, mo, err := P.ifaceMethod(p, n)
							if err != nil {
								return err
							}
							if strings.HasPrefix(c.Text, "//verif:puredyn ") {
								P.pureDyn[mo] = true
							} else {
								P.pureM[mo] = true
							}
						}
					}
				}
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				var fobj *ssa.Function
				if fd.Recv == nil {
					fobj = sp.Func(fd.Name.Name)
				}
				if fobj == nil {
					continue
				}
				var s *Spec
				drop := false
				get := func() *Spec {
					if s == nil {
						s = &Spec{Name: shortPkg(p.PkgPath) + "." + fd.Name.Name, Pkg: p.PkgPath, Func: fobj, File: fn, Weight: 1}
					}
					return s
				}
				for _, c := range fd.Doc.List {
					if !strings.HasPrefix(c.Text, "//verif:") {
						continue
					}
					fs := strings.Fields(c.Text[len("//verif:"):])
					switch fs[0] {
					case "spec":
						get().Kind = KSpec
					case "bounded":
						get().Kind = KBounded
					case "contract":
						get().Kind = KContract
						get().Target = strings.Join(fs[1:], " ")
						t, err := P.findFunc(p, get().Target)
						if err != nil {
							P.dropped = append(P.dropped, fmt.Sprintf("%s: %v", get().Name, err))
							drop = true
							continue
						}
						get().TargetFn = t
					case "iface":
						get().Kind = KIface
						get().Target = fs[1]
						it, mo, err := P.ifaceMethod(p, fs[1])
						if err != nil {
							P.dropped = append(P.dropped, fmt.Sprintf("%s: %v", get().Name, err))
							drop = true
							continue
						}
						get().IfaceT, get().IfaceObj = it, mo
					case "props":
						get().Props = append(get().Props, fs[1:]...)
					case "split":
						get().Split = append(get().Split, fs[1:]...)
					case "nouse":
						get().NoUse = true
					case "noprove":
						get().NoProve = true
					case "weight":
						fmt.Sscan(fs[1], &get().Weight)
					case "lemma":
						get().Kind = KSpec
						get().Ghost = true
					case "logic":
						P.logic[fobj] = true
					case "opaque":
						P.logic[fobj] = true
						P.opaque[fobj] = true
					case "pure", "puredyn", "gen", "inputs":
					case "nofuzz":
						get().NoFuzz = true
					case "finding":
						get().Kind = KBounded
						get().Finding = fs[1]
					default:
						return fmt.Errorf("%s: unknown directive %s", fn, c.Text)
					}
				}
				if s != nil && !drop {
					P.specs = append(P.specs, s)
					if !s.NoUse {
						if s.TargetFn != nil {
							P.contr[s.TargetFn] = s
						}
						if s.IfaceObj != nil {
							P.ifaceC[s.IfaceObj] = s
						}
					}
					if s.Ghost {
						P.lemmas = append(P.lemmas, s)
					}
				}
			}
		}
	}
	sort.Slice(P.specs, func(i, j int) bool { return P.specs[i].Name < P.specs[j].Name })
	return nil
}

func shortPkg(p string) string {
	if p == modPath {
		return "substraitgo"
	}
	return strings.TrimPrefix(p, modPath+"/")
}

// ifaceMethod resolves "Type.Equals" or "pkg.Type.Equals" in package p.
func (P *Prog) ifaceMethod(p *packages.Package, name string) (types.Type, *types.Func, error) {
	parts := strings.Split(name, ".")
	scope := p.Types.Scope()
	if len(parts) == 3 {
		for _, q := range P.pkgs {
			if q.Name == parts[0] {
				scope = q.Types.Scope()
			}
		}
		parts = parts[1:]
	}
	o := scope.Lookup(parts[0])
	if o == nil {
		return nil, nil, fmt.Errorf("no interface %s", name)
	}
	it, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return nil, nil, fmt.Errorf("%s is not an interface", name)
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == parts[1] {
			return o.Type(), it.Method(i), nil
		}
	}
	return nil, nil, fmt.Errorf("no method %s", name)
}

// findFunc resolves "Func", "(*T).Method", "(T).Method", "pkg.Func".
func (P *Prog) findFunc(p *packages.Package, name string) (*ssa.Function, error) {
	sp := P.spkgs[p.PkgPath]
	if strings.HasPrefix(name, "(") {
		i := strings.Index(name, ")")
		tn := name[1:i]
		m := strings.TrimPrefix(name[i+1:], ".")
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		pk := p
		if j := strings.Index(tn, "."); j > 0 {
			for _, q := range P.pkgs {
				if q.Name == tn[:j] {
					pk = q
				}
			}
			tn = tn[j+1:]
		}
		o := pk.Types.Scope().Lookup(tn)
		if o == nil {
			return nil, fmt.Errorf("no type %s", tn)
		}
		var t types.Type = types.Unalias(o.Type())
		if ptr {
			t = types.NewPointer(t)
		}
		sel := P.prog.MethodSets.MethodSet(t).Lookup(pk.Types, m)
		if sel == nil {
			return nil, fmt.Errorf("no method %s", name)
		}
		return P.prog.MethodValue(sel), nil
	}
	if j := strings.Index(name, "."); j > 0 {
		for path, q := range P.spkgs {
			if q.Pkg.Name() == name[:j] || strings.HasSuffix(path, "/"+name[:j]) {
				if f := q.Func(name[j+1:]); f != nil {
					return f, nil
				}
			}
		}
		return nil, fmt.Errorf("no func %s", name)
	}
	f := sp.Func(name)
	if f == nil {
		return nil, fmt.Errorf("no func %s", name)
	}
	return f, nil
}
