package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	prog       *ssa.Program
	pkgs       []*packages.Package
	repo       string
	modPath    string
	fnInfos    map[*ssa.Function]*fnInfo
	specs      map[string]*FuncSpec
	dynSpecs   map[string]*FuncSpec
	pureFn     map[*ssa.Function]bool
	db         *SpecDB
	fns        map[string]*ssa.Function // by short name
	byFull     map[string]*ssa.Function
	prop       string
	pieceCache map[*Clause][]*Expr
	pkgNames   map[string]*types.Package
	missing    []string
	hints      map[string]map[string]map[string]bool // function -> loop -> dropped candidates
}

// hints: contracts/hints.json, property -> function -> loop -> candidates not worth trying. They only save time:
// every candidate that is used is still checked, and a function that does not verify is tried again without hints.
type hintFile map[string]map[string]map[string][]string

func readHints(path string) hintFile {
	h := hintFile{}
	if b, err := os.ReadFile(path); err == nil {
		json.Unmarshal(b, &h)
	}
	return h
}

func (w *World) loadHints(contracts string) {
	w.hints = map[string]map[string]map[string]bool{}
	if os.Getenv("GOVC_NOHINTS") != "" {
		return
	}
	for fn, ls := range readHints(filepath.Join(contracts, "hints.json"))[w.prop] {
		w.hints[fn] = map[string]map[string]bool{}
		for l, ns := range ls {
			w.hints[fn][l] = map[string]bool{}
			for _, n := range ns {
				w.hints[fn][l][n] = true
			}
		}
	}
}

func (w *World) hintDrop(fn, loop, name string) bool { return w.hints[fn][loop][name] }

func (w *World) shorten(full string) string {
	s := strings.ReplaceAll(full, w.modPath+"/", "")
	return strings.ReplaceAll(s, w.modPath+".", "main.")
}

func loadWorld(repo, contracts, prop string) (*World, error) {
	w := &World{repo: repo, modPath: "github.com/dappnode/mev-sp-oracle", fnInfos: map[*ssa.Function]*fnInfo{},
		specs: map[string]*FuncSpec{}, dynSpecs: map[string]*FuncSpec{}, fns: map[string]*ssa.Function{}, byFull: map[string]*ssa.Function{},
		pureFn: map[*ssa.Function]bool{}, prop: prop, pieceCache: map[*Clause][]*Expr{}, pkgNames: map[string]*types.Package{}}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d errors loading %s", nerr, repo)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	w.pkgs = pkgs
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	w.prog = prog
	for _, p := range sp {
		if p == nil {
			continue
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				w.addFn(m)
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						if f := prog.FuncValue(n.Method(i)); f != nil {
							w.addFn(f)
						}
					}
				}
			}
		}
	}
	for _, p := range pkgs {
		w.pkgNames[p.Types.Name()] = p.Types
	}
	ordered := append([]*packages.Package{}, pkgs...)
	sort.SliceStable(ordered, func(i, j int) bool { return ordered[i].Name == "oracle" && ordered[j].Name != "oracle" })
	for _, p := range ordered {
		for _, q := range p.Types.Imports() {
			if w.pkgNames[q.Name()] == nil {
				w.pkgNames[q.Name()] = q
			}
			if q.Path() == "math/big" {
				bigT = types.NewPointer(q.Scope().Lookup("Int").Type())
			}
		}
	}
	w.db = loadSpecs(contracts)
	for _, n := range strings.Split(os.Getenv("GOVC_INLINE"), ";") {
		delete(w.db.Funcs, n)
	}
	for n, f := range w.db.Funcs {
		if strings.HasPrefix(n, "dyn:") {
			w.dynSpecs[n] = f
			continue
		}
		if fn := w.fns[n]; fn != nil {
			w.specs[originName(fn)] = f
		} else {
			w.specs[n] = f
			if !f.Trusted {
				w.missing = append(w.missing, n)
			}
		}
	}
	w.loadHints(contracts)
	initModels()
	initStaticAxioms()
	return w, nil
}

func (w *World) addFn(f *ssa.Function) {
	full := f.String()
	w.byFull[full] = f
	if strings.Contains(full, w.modPath) {
		w.fns[w.shorten(full)] = f
	}
}

func (w *World) pkgByName(n string) *types.Package { return w.pkgNames[n] }

// dependency constants the models rely on
func (w *World) checkAssumptions() (bad []string) {
	for _, p := range w.pkgs {
		for _, q := range p.Types.Imports() {
			if q.Path() != "github.com/attestantio/go-eth2-client/api/v1" {
				continue
			}
			for n, v := range map[string]string{"ValidatorStateUnknown": "0", "ValidatorStatePendingInitialized": "1", "ValidatorStatePendingQueued": "2", "ValidatorStateWithdrawalDone": "9", "ValidatorStateActiveOngoing": "3", "ValidatorStateActiveExiting": "4", "ValidatorStateActiveSlashed": "5"} {
				if c, ok := q.Scope().Lookup(n).(*types.Const); !ok || c.Val().ExactString() != v {
					bad = append(bad, n+" is not "+v)
				}
			}
			return
		}
	}
	return bad
}
