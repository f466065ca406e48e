package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values that only feed log output or error texts are not evaluated.

func calleeName(c *ssa.CallCommon) string {
	if f := c.StaticCallee(); f != nil {
		if f.Origin() != nil {
			return f.Origin().String()
		}
		return f.String()
	}
	if c.IsInvoke() {
		return "invoke:" + shortType(c.Value.Type()) + "." + c.Method.Name()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin:" + b.Name()
	}
	return ""
}

func isLogCall(n string) bool {
	return strings.Contains(n, "github.com/sirupsen/logrus")
}

func isFatalCall(n string) bool {
	if !isLogCall(n) {
		return n == "os.Exit" || strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "log.Panic")
	}
	i := strings.LastIndex(n, ".")
	m := n[i+1:]
	return strings.HasPrefix(m, "Fatal") || strings.HasPrefix(m, "Panic") || m == "Exit"
}

func isFmtPure(n string) bool {
	switch n {
	case "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln", "errors.New", "fmt.Errorf",
		"github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return true
	}
	return false
}

var pureExternal = map[string]bool{
	"(*math/big.Int).String": true, "(*math/big.Int).Text": true, "(*math/big.Int).Cmp": true, "(*math/big.Int).Sign": true,
	"(*math/big.Int).Uint64": true, "(*math/big.Int).Int64": true,
	"github.com/ethereum/go-ethereum/common/hexutil.Encode":                true,
	"(github.com/ethereum/go-ethereum/common.Hash).String":                 true,
	"(github.com/ethereum/go-ethereum/common.Hash).Hex":                    true,
	"(github.com/ethereum/go-ethereum/common.Address).String":              true,
	"(github.com/ethereum/go-ethereum/common.Address).Hex":                 true,
	"encoding/hex.EncodeToString":                                          true,
	"strings.ToLower":                                                      true,
	"time.Since":                                                           true,
	"time.Now":                                                             true,
	"(time.Duration).Seconds":                                              true,
	"(github.com/attestantio/go-eth2-client/api/v1.ValidatorState).String": true,
}

// removableCall: evaluating the call has no effect besides its result
func (w *World) removableCall(c *ssa.Call) bool {
	n := calleeName(&c.Call)
	if isLogCall(n) && !isFatalCall(n) {
		return true
	}
	if isFmtPure(n) || pureExternal[n] {
		return true
	}
	if f := c.Call.StaticCallee(); f != nil {
		if sp := w.specs[f.String()]; sp != nil && sp.Pure {
			return true
		}
		return w.isPureFn(f, 0)
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		return b.Name() == "len" || b.Name() == "cap"
	}
	return false
}

// isPureFn: an in-repo function without stores, map updates or impure calls
func (w *World) isPureFn(f *ssa.Function, d int) bool {
	if d > 4 || len(f.Blocks) == 0 {
		return false
	}
	if r, ok := w.pureFn[f]; ok {
		return r
	}
	w.pureFn[f] = false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !localAlloc(in.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Panic, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select, *ssa.MakeClosure:
				return false
			case *ssa.Call:
				n := calleeName(&in.Call)
				if isLogCall(n) && !isFatalCall(n) || isFmtPure(n) || pureExternal[n] || n == "builtin:len" || n == "builtin:append" {
					continue
				}
				if g := in.Call.StaticCallee(); g != nil && w.isPureFn(g, d+1) {
					continue
				}
				return false
			}
		}
	}
	w.pureFn[f] = true
	return true
}

func localAlloc(v ssa.Value) bool {
	for {
		switch a := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		default:
			return false
		}
	}
}

// sinkOnly reports whether v is used only by log calls, error texts or dead code.
func (w *World) sinkOnly(fi *fnInfo, v ssa.Value) bool {
	switch fi.sinkVis[v] {
	case 1:
		return true // in progress: optimistic
	case 2:
		return true
	case 3:
		return false
	}
	switch v.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, *ssa.Next, *ssa.Range, *ssa.MakeClosure:
		fi.sinkVis[v] = 3
		return false
	}
	if c, ok := v.(*ssa.Call); ok && !w.removableCall(c) {
		fi.sinkVis[v] = 3
		return false
	}
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	fi.sinkVis[v] = 1
	ok := true
	for _, r := range *refs {
		if !w.sinkUse(fi, r, v) {
			ok = false
			break
		}
	}
	if ok {
		// optimistic cycles: only cache at the outermost level when true
		fi.sinkVis[v] = 2
	} else {
		fi.sinkVis[v] = 3
		// results computed while v was assumed sink-only may be wrong: reset them
		for u, s := range fi.sinkVis {
			if s == 2 {
				delete(fi.sinkVis, u)
			}
		}
	}
	return ok
}

func (w *World) sinkUse(fi *fnInfo, in ssa.Instruction, v ssa.Value) bool {
	switch i := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.Call:
		n := calleeName(&i.Call)
		if isLogCall(n) {
			if isFatalCall(n) {
				return true
			}
			return w.sinkOnly(fi, i)
		}
		if isFmtPure(n) {
			if strings.HasSuffix(n, "errors.New") || strings.HasSuffix(n, "Errorf") {
				// the text of an error is irrelevant, %w wrapping keeps non-nilness
				return true
			}
			return w.sinkOnly(fi, i)
		}
		if n == "github.com/pkg/errors.Wrap" || n == "github.com/pkg/errors.Wrapf" {
			for k, a := range i.Call.Args {
				if a == v && k == 0 {
					return false
				}
			}
			return true
		}
		if w.removableCall(i) {
			return w.sinkOnly(fi, i)
		}
		return false
	case *ssa.Store:
		return w.sinkStore(fi, i.Addr)
	case *ssa.MapUpdate:
		return w.sinkStore(fi, i.Map)
	case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice, *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface,
		*ssa.Convert, *ssa.UnOp, *ssa.BinOp, *ssa.Extract, *ssa.Field, *ssa.Phi, *ssa.Lookup, *ssa.Index, *ssa.TypeAssert:
		return w.sinkOnly(fi, in.(ssa.Value))
	}
	return false
}

// sinkStore: the stored-to object is local and only feeds sinks
func (w *World) sinkStore(fi *fnInfo, addr ssa.Value) bool {
	a := addr
	for {
		switch t := a.(type) {
		case *ssa.IndexAddr:
			a = t.X
			continue
		case *ssa.FieldAddr:
			a = t.X
			continue
		case *ssa.Slice:
			a = t.X
			continue
		}
		break
	}
	switch a.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return w.sinkOnly(fi, a)
	}
	return false
}
