package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// The replay binary of a package: an in-package test, laid over the tree with
// go test -overlay, that executes the specifications on generated inputs.

func (P *Prog) moduleDeps(p *packages.Package) map[string]*packages.Package {
	out := map[string]*packages.Package{}
	byPath := map[string]*packages.Package{}
	for _, q := range P.pkgs {
		byPath[q.PkgPath] = q
	}
	var walk func(q *packages.Package)
	walk = func(q *packages.Package) {
		for path := range q.Imports {
			if r := byPath[path]; r != nil && out[path] == nil {
				out[path] = r
				walk(r)
			}
		}
	}
	walk(p)
	return out
}

type regWriter struct {
	P    *Prog
	p    *packages.Package
	deps map[string]*packages.Package
	imps map[string]string
}

func (w *regWriter) qual(q *types.Package) string {
	if q.Path() == w.p.PkgPath {
		return ""
	}
	if a, ok := w.imps[q.Path()]; ok {
		return a
	}
	a := fmt.Sprintf("vp%d", len(w.imps))
	w.imps[q.Path()] = a
	return a
}

// nameable: the type can be written in package p.
func (w *regWriter) nameable(t types.Type) bool {
	switch t := t.(type) {
	case *types.Alias:
		return w.nameable(types.Unalias(t))
	case *types.Pointer:
		return w.nameable(t.Elem())
	case *types.Slice:
		return w.nameable(t.Elem())
	case *types.Array:
		return w.nameable(t.Elem())
	case *types.Map:
		return w.nameable(t.Key()) && w.nameable(t.Elem())
	case *types.Basic:
		return true
	case *types.Named:
		o := t.Obj()
		if o.Pkg() == nil {
			return true
		}
		if o.Parent() != o.Pkg().Scope() {
			return false
		}
		if o.Pkg().Path() != w.p.PkgPath {
			if !o.Exported() {
				return false
			}
			if strings.Contains(o.Pkg().Path(), "/internal") && !strings.HasPrefix(w.p.PkgPath, strings.Split(o.Pkg().Path(), "/internal")[0]) {
				return false
			}
			if w.deps[o.Pkg().Path()] == nil && strings.HasPrefix(o.Pkg().Path(), modPath) {
				return false
			}
		}
		if ta := t.TypeArgs(); ta != nil {
			for i := 0; i < ta.Len(); i++ {
				if !w.nameable(ta.At(i)) {
					return false
				}
			}
		} else if t.TypeParams().Len() > 0 {
			return false
		}
		return true
	}
	return false
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

const pbPath = "github.com/substrait-io/substrait-protobuf/go/substraitpb"

func (P *Prog) pkgOf(path string) *packages.Package {
	for _, p := range P.pkgs {
		if p.PkgPath == path {
			return p
		}
	}
	return nil
}

// regSource writes the registry test file of a package.
func (P *Prog) regSource(pkgPath string) string {
	p := P.pkgOf(pkgPath)
	w := &regWriter{P: P, p: p, deps: P.moduleDeps(p), imps: map[string]string{}}
	var b strings.Builder
	seen := map[string]bool{}
	add := func(t types.Type) {
		if !w.nameable(t) {
			return
		}
		s := types.TypeString(t, w.qual)
		if seen[s] {
			return
		}
		seen[s] = true
		fmt.Fprintf(&b, "\t\t{T: reflect.TypeFor[%s](), Name: %q},\n", s, shortType(t))
	}
	for _, t := range P.madeL {
		n := namedOf(t)
		if n == nil || n.Obj().Pkg() == nil {
			continue
		}
		pp := n.Obj().Pkg().Path()
		if strings.HasPrefix(pp, modPath) && pp != rtPath || pp == pbPath {
			add(t)
		}
	}
	if pb := w.deps[pbPath]; pb != nil {
		sc := pb.Types.Scope()
		for _, n := range sc.Names() {
			o, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || !o.Exported() {
				continue
			}
			if _, ok := o.Type().Underlying().(*types.Struct); ok {
				add(types.NewPointer(o.Type()))
			}
		}
	}
	var gens, specs strings.Builder
	inputs := map[string]string{}
	var paths []string
	for path := range w.deps {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	paths = append(paths, pkgPath)
	for _, path := range paths {
		q := P.pkgOf(path)
		for _, f := range q.Syntax {
			fn := P.fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fn), "zz_verif_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				for _, c := range fd.Doc.List {
					switch {
					case c.Text == "//verif:gen":
						nm := fd.Name.Name
						if path != pkgPath {
							if !ast.IsExported(nm) {
								continue
							}
							nm = w.qual(q.Types) + "." + nm
						}
						fmt.Fprintf(&gens, "\t\t%s,\n", nm)
					case strings.HasPrefix(c.Text, "//verif:inputs ") && path == pkgPath:
						for _, s := range strings.Fields(c.Text)[1:] {
							inputs[s] = fd.Name.Name
						}
					}
				}
			}
		}
	}
	for _, s := range P.specs {
		if s.Pkg != pkgPath || !s.fuzzable() {
			continue
		}
		in := "nil"
		if i, ok := inputs[s.Func.Name()]; ok {
			in = i
		}
		fmt.Fprintf(&specs, "\t\t{Name: %q, Fn: %s, Inputs: %s, NReq: %d, Iface: %v},\n", s.Name, s.Func.Name(), in, countReq(s.Func), s.Kind == KIface)
	}
	var h strings.Builder
	fmt.Fprintf(&h, "package %s\n\nimport (\n\t\"reflect\"\n\t\"testing\"\n\tzz \"%s\"\n", p.Name, rtPath)
	var ks []string
	for k := range w.imps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&h, "\t%s %q\n", w.imps[k], k)
	}
	fmt.Fprintf(&h, ")\n\nfunc TestVerifFuzz(t *testing.T) {\n\t_ = reflect.TypeOf(0)\n\tzz.RunFuzz(&zz.Reg{\n\tTypes: []zz.TypeEntry{\n%s\t},\n\tGens: []any{\n%s\t},\n\tSpecs: []zz.SpecEntry{\n%s\t}})\n}\n", b.String(), gens.String(), specs.String())
	return h.String()
}

func countReq(f *ssa.Function) int {
	n := 0
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == rtPath && g.Name() == "Requires" {
					n++
				}
			}
		}
	}
	return n
}

// fuzzable: lemmas about specification functions alone are not executed.
func (s *Spec) fuzzable() bool {
	if s.NoFuzz {
		return false
	}
	if s.TargetFn != nil && strings.HasPrefix(s.TargetFn.Name(), "V") && strings.HasPrefix(filepath.Base(s.Func.Prog.Fset.Position(s.TargetFn.Pos()).Filename), "zz_verif_") {
		return false
	}
	return true
}

// mine collects integer and string constants of the repository's code.
func (P *Prog) mine() (ints []int64, strs []string) {
	is, ss := map[int64]bool{}, map[string]bool{}
	for f := range ssautil.AllFunctions(P.prog) {
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || f.Pkg.Pkg.Path() == rtPath || P.isSpecFile(f.Pos()) {
			continue
		}
		var ops []*ssa.Value
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ops = i.Operands(ops[:0])
				for _, o := range ops {
					c, ok := (*o).(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					switch c.Value.Kind() {
					case constant.Int:
						if v, ok := constant.Int64Val(c.Value); ok && (v > 3 || v < -1) {
							is[v] = true
						}
					case constant.String:
						if s := constant.StringVal(c.Value); len(s) > 0 && len(s) <= 20 && !strings.ContainsAny(s, "%\n") {
							ss[s] = true
						}
					}
				}
			}
		}
	}
	for v := range is {
		ints = append(ints, v)
	}
	for s := range ss {
		strs = append(strs, s)
	}
	sort.Slice(ints, func(i, j int) bool { return ints[i] < ints[j] })
	sort.Strings(strs)
	return
}

// buildReplay compiles the replay binary of a package.
func (P *Prog) buildReplay(pkgPath, dir string) (string, error) {
	rel := strings.TrimPrefix(strings.TrimPrefix(pkgPath, modPath), "/")
	name := strings.ReplaceAll(rel, "/", "_")
	if name == "" {
		name = "root"
	}
	src := filepath.Join(dir, name+"_reg.go")
	if err := os.WriteFile(src, []byte(P.regSource(pkgPath)), 0o644); err != nil {
		return "", err
	}
	ov := map[string]map[string]string{"Replace": {}}
	for dst := range P.overlay {
		ov["Replace"][dst] = P.overlaySrc[dst]
	}
	ov["Replace"][filepath.Join(repoDir(), rel, "zz_verif_fuzz_test.go")] = src
	ovf := filepath.Join(dir, name+"_overlay.json")
	b, _ := json.Marshal(ov)
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, name+".test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "./"+rel)
	cmd.Dir = repoDir()
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("replay build of %s: %v\n%s", pkgPath, err, trunc(string(out), 4000))
	}
	return bin, nil
}
