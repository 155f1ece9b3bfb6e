package main

// Loading: /repo's current source plus the in-package harness files (through an overlay),
// type-checked and translated to go/ssa on every run.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog    *ssa.Program
	pkg     *ssa.Package
	pkgs    map[string]*ssa.Package
	repo    string
	overlay map[string][]byte
	mu      sync.Mutex
}

var initPkgs = map[string]bool{
	"errors": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "strconv": true, "strings": true, "bytes": true,
	"sort": true, "slices": true, "math": true, "math/bits": true, "io": true, "bufio": true, "encoding/csv": true,
	"internal/stringslite": true, "internal/bytealg": true, "cmp": true, "maps": true, "iter": true, "internal/itoa": true,
	"internal/errors": true, "internal/byteorder": true, "internal/strconv": true, "time": true, "internal/oserror": true,
	"path/filepath": true, "internal/filepathlite": true,
}

const repoPath = "github.com/urban-wombat/gotables"

func (p *Program) initOK(pk *ssa.Package) bool {
	if pk == nil {
		return true
	}
	pt := pk.Pkg.Path()
	return initPkgs[pt] || pt == repoPath
}

// initReach: packages worth descending into when looking for initialisers to run.
func (p *Program) initReach(pk *ssa.Package) bool { return true }

var denyBody = map[string]bool{"reflect": true, "runtime": true, "os": true, "fmt": true, "syscall": true, "log": true,
	"encoding/gob": true, "encoding/json": true, "regexp": true, "regexp/syntax": true, "internal/reflectlite": true, "sync": true, "sync/atomic": true,
	"internal/poll": true, "gopkg.in/yaml.v3": true, "internal/runtime/atomic": true, "math/rand": true, "os/exec": true, "internal/abi": true, "unsafe": true}

func (p *Program) bodyOK(fn *ssa.Function) bool {
	var pk *ssa.Package = fn.Pkg
	f := fn
	for pk == nil && f.Parent() != nil {
		f = f.Parent()
		pk = f.Pkg
	}
	if pk == nil {
		if o := fn.Origin(); o != nil && o.Pkg != nil {
			pk = o.Pkg
		}
	}
	if pk == nil {
		return true
	}
	return !denyBody[pk.Pkg.Path()]
}

func harnessFiles(dir, prop string) (map[string]string, error) {
	m := map[string]string{}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		base := strings.TrimSuffix(n, ".go")
		if strings.HasPrefix(base, "rt") || base == prop || strings.HasPrefix(base, prop+"_") {
			m["zz_verif_"+n] = filepath.Join(dir, n)
		}
	}
	return m, nil
}

func Load(repo string, hfiles map[string]string) (*Program, error) {
	ov := map[string][]byte{}
	for n, f := range hfiles {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[filepath.Join(repo, n)] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkg: ps[0], repo: repo, overlay: ov, pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	return P, nil
}

func (p *Program) stdFunc(pkg, name string) *ssa.Function {
	k := p.pkgs[pkg]
	if k == nil {
		return nil
	}
	return k.Func(name)
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (p *Program) methodByName(t types.Type, name string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (I *Interp) intrinsic(fn *ssa.Function) intrinsicFn {
	if f, ok := I.intr[fn]; ok {
		return f
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	var f intrinsicFn
	if st := I.prog.pkg.Func("vzStub_" + mangle(name)); st != nil && fn.Pkg != I.prog.pkg {
		f = func(I *Interp, fn *ssa.Function, args []Value) Value {
			if I.fp != nil { // memory of the model is not memory of the program
				old := I.fp
				I.fp = nil
				defer func() { I.fp = old }()
			}
			return I.call(st, args, nil)
		}
	} else {
		f = lookupIntrinsic(name, fn)
	}
	I.intr[fn] = f
	return f
}

func mangle(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			b[i] = '_'
		}
	}
	return string(b)
}

func (p *Program) harnesses(prefix string) []string {
	var out []string
	for n, m := range p.pkg.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, prefix) && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}
