package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes

var models map[string]model

func (w *World) model(name string) model { return models[name] }

var bigT types.Type // *big.Int (set by the loader)

func (x *Exec) regBig() {
	if _, ok := heapInfo["Big"]; !ok {
		bt := types.Typ[types.UntypedNil].Underlying()
		if bigT != nil {
			bt = bigT.Underlying().(*types.Pointer).Elem()
		}
		x.regKey("Big", 1, SInt, Leaf{"", SInt, bt})
	}
}

func (x *Exec) ref(s *State, v Val, t types.Type) *Term { return x.toVT(s, v, t).L[0] }

// big returns the value of a *big.Int
func (x *Exec) bigOf(s *State, v Val, pos string) *Term {
	x.regBig()
	w := x.toVT(s, v, bigT)
	x.mustHold(s, Ne(w.L[0], Int(0)), "nil *big.Int", pos)
	return s.read(x.hget(s, "Big"), w.L[0])
}
func (x *Exec) setBig(s *State, v Val, val *Term) {
	w := x.toVT(s, v, bigT)
	s.heap["Big"] = Store(x.hget(s, "Big"), w.L[0], val)
}
func (x *Exec) newBig(s *State, val *Term) *VT {
	x.regBig()
	r := x.newRef(s)
	s.heap["Big"] = Store(x.hget(s, "Big"), r, val)
	return vt(bigT, r)
}

func bigBin(f func(x *Exec, s *State, a, b *Term, pos string) *Term) model {
	return func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		p := x.pos(in)
		x.bigOf(s, args[0], p)
		a, b := x.bigOf(s, args[1], p), x.bigOf(s, args[2], p)
		x.setBig(s, args[0], f(x, s, a, b, p))
		return one(s, args[0])
	}
}

func boolV(t *Term) Val { return vt(types.Typ[types.Bool], t) }
func strV(t *Term) Val  { return vt(types.Typ[types.String], t) }

var errT = types.Universe.Lookup("error").Type()

func (x *Exec) newErr(s *State) *VT {
	e := Fresh("err", SInt)
	s.assume(Lt(Int(0), e))
	return vt(errT, e)
}

// errors created by New/Errorf are not interpreted beyond being non-nil
func mNewErr(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
	return one(s, vt(errT, Var("err.new", SInt)))
}

func hasPrefixT(a, p *Term) *Term {
	if p.K == KStr {
		n := int64(len(p.Str))
		if a.K == KStr {
			return BoolT(strings.HasPrefix(a.Str, p.Str))
		}
		return And(Le(Int(n), UF("strlen", SInt, a)), Eq(UF("substr", SStr, a, Int(0), Int(n)), p))
	}
	return UF("hasprefix", SBool, a, p)
}

func addrBytes(v *VT, n int64) *Term { return SeqStr(v.L[0], Int(0), Int(n)) }

func derefArr(x *Exec, s *State, v Val, t types.Type, pos string) *VT {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		x.nilCheck(s, v, pos)
		w := x.load(s, x.pointee(v, p.Elem()))
		return x.toVT(s, w, p.Elem())
	}
	return x.toVT(s, v, t)
}

// addrString: EIP-55 text of the bytes of an address
func addrString(b *Term) *Term { return UF("addrstr", SStr, b) }

func hex0x(b *Term) *Term { return UF("strcat", SStr, StrLit("0x"), UF("hexenc", SStr, b)) }

func initModels() {
	addAxiom("err.new", Lt(Int(0), Var("err.new", SInt)))
	addAxiom("err.wrap", Lt(Int(0), Var("err.wrap", SInt)))
	{
		b := BoundVar("b", SStr)
		t := UF("addrstr", SStr, b)
		low := app("strlower", SStr, t)
		addAxiom("addrstr", quant(KForall, []*Term{b}, And(app("=", SBool, app("strlen", SInt, t), Int(42)),
			app("=", SBool, UF("strat", SInt, t, Int(0)), Int('0')), app("=", SBool, UF("strat", SInt, t, Int(1)), Int('x')),
			app("=", SBool, low, app("strcat", SStr, StrLit("0x"), app("hexenc", SStr, b))),
			Eq(UF("unaddrstr", SStr, t), b)), [][]*Term{{t}}))
		i := BoundVar("i", SInt)
		it := UF("itoa", SStr, i)
		addAxiom("itoa", quant(KForall, []*Term{i}, And(Eq(UF("unitoa", SInt, it), i), app("=", SBool, app("strlower", SStr, it), it)), [][]*Term{{it}}))
	}
	models = map[string]model{}
	M := func(n string, m model) { models[n] = m }
	B := "(*math/big.Int)."
	M(B+"Add", bigBin(func(x *Exec, s *State, a, b *Term, p string) *Term { return Add(a, b) }))
	M(B+"Sub", bigBin(func(x *Exec, s *State, a, b *Term, p string) *Term { return Sub(a, b) }))
	M(B+"Mul", bigBin(func(x *Exec, s *State, a, b *Term, p string) *Term { usesNL = true; return Mul(a, b) }))
	M(B+"Div", bigBin(func(x *Exec, s *State, a, b *Term, p string) *Term {
		x.mustHold(s, Ne(b, Int(0)), "division by zero", p)
		if b.K != KInt {
			usesNL = true
		}
		return Div(a, b)
	}))
	M(B+"Mod", bigBin(func(x *Exec, s *State, a, b *Term, p string) *Term {
		x.mustHold(s, Ne(b, Int(0)), "division by zero", p)
		if b.K != KInt {
			usesNL = true
		}
		return Mod(a, b)
	}))
	// truncated division and remainder
	M(B+"Quo", bigBin(func(x *Exec, s *State, a, b *Term, p string) *Term {
		x.mustHold(s, Ne(b, Int(0)), "division by zero", p)
		if b.K != KInt {
			usesNL = true
		}
		return x.truncDiv(s, bigT, a, b)
	}))
	M(B+"Rem", bigBin(func(x *Exec, s *State, a, b *Term, p string) *Term {
		x.mustHold(s, Ne(b, Int(0)), "division by zero", p)
		usesNL = true
		return Sub(a, Mul(b, x.truncDiv(s, bigT, a, b)))
	}))
	unary := func(f func(x *Exec, s *State, a *Term) *Term) model {
		return func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
			p := x.pos(in)
			x.bigOf(s, args[0], p)
			a := x.bigOf(s, args[1], p)
			x.setBig(s, args[0], f(x, s, a))
			return one(s, args[0])
		}
	}
	M(B+"Set", unary(func(x *Exec, s *State, a *Term) *Term { return a }))
	M(B+"Neg", unary(func(x *Exec, s *State, a *Term) *Term { return Neg(a) }))
	M(B+"Abs", unary(func(x *Exec, s *State, a *Term) *Term { return Ite(Le(Int(0), a), a, Neg(a)) }))
	setI := func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		x.bigOf(s, args[0], x.pos(in))
		x.setBig(s, args[0], x.toVT(s, args[1], c.Args[len(c.Args)-1].Type()).L[0])
		return one(s, args[0])
	}
	M(B+"SetUint64", setI)
	M(B+"SetInt64", setI)
	M(B+"SetBytes", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		x.bigOf(s, args[0], x.pos(in))
		v := UF("bebytes", SInt, x.seqStr(s, x.toVT(s, args[1], c.Args[1].Type())))
		s.assume(Le(Int(0), v))
		x.setBig(s, args[0], v)
		return one(s, args[0])
	})
	M(B+"SetString", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		x.bigOf(s, args[0], x.pos(in))
		x.setBig(s, args[0], Fresh("setstr", SInt))
		return one(s, VTuple{args[0], boolV(Fresh("ok", SBool))})
	})
	M("math/big.NewInt", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		return one(s, x.newBig(s, x.toVT(s, args[0], types.Typ[types.Int64]).L[0]))
	})
	M(B+"Cmp", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		a, b := x.bigOf(s, args[0], x.pos(in)), x.bigOf(s, args[1], x.pos(in))
		return one(s, vt(types.Typ[types.Int], Ite(Lt(a, b), Int(-1), Ite(Eq(a, b), Int(0), Int(1)))))
	})
	M(B+"CmpAbs", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		a, b := x.bigOf(s, args[0], x.pos(in)), x.bigOf(s, args[1], x.pos(in))
		abs := func(t *Term) *Term { return Ite(Le(Int(0), t), t, Neg(t)) }
		a, b = abs(a), abs(b)
		return one(s, vt(types.Typ[types.Int], Ite(Lt(a, b), Int(-1), Ite(Eq(a, b), Int(0), Int(1)))))
	})
	M(B+"Sign", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		a := x.bigOf(s, args[0], x.pos(in))
		return one(s, vt(types.Typ[types.Int], Ite(Lt(a, Int(0)), Int(-1), Ite(Eq(a, Int(0)), Int(0), Int(1)))))
	})
	M(B+"Uint64", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		a := x.bigOf(s, args[0], x.pos(in))
		return one(s, vt(types.Typ[types.Uint64], bigLow64(a)))
	})
	M(B+"Int64", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		a := x.bigOf(s, args[0], x.pos(in))
		return one(s, vt(types.Typ[types.Int64], bigLowI64(a)))
	})
	M(B+"IsUint64", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		a := x.bigOf(s, args[0], x.pos(in))
		return one(s, boolV(And(Le(Int(0), a), Lt(a, IntB(two64)))))
	})
	M(B+"IsInt64", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		a := x.bigOf(s, args[0], x.pos(in))
		return one(s, boolV(And(Le(IntB(new(big.Int).Neg(two63)), a), Lt(a, IntB(two63)))))
	})
	str := func(f func(t *Term) *Term) model {
		return func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
			return one(s, strV(f(x.bigOf(s, args[0], x.pos(in)))))
		}
	}
	M(B+"String", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		// nil receivers print <nil>
		x.regBig()
		r := x.toVT(s, args[0], bigT).L[0]
		return one(s, strV(Ite(Eq(r, Int(0)), StrLit("<nil>"), UF("itoa", SStr, Select(x.hget(s, "Big"), r)))))
	})
	_ = str
	// errors
	for _, n := range []string{"errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf"} {
		M(n, mNewErr)
	}
	wrap := func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		e := x.toVT(s, args[0], errT).L[0]
		return one(s, vt(errT, Ite(Eq(e, Int(0)), Int(0), Var("err.wrap", SInt))))
	}
	for _, n := range []string{"Wrap", "Wrapf", "WithMessage", "WithStack", "WithMessagef"} {
		M("github.com/pkg/errors."+n, wrap)
	}
	M("invoke:error.Error", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		return one(s, strV(UF("errtext", SStr, x.toVT(s, args[0], errT).L[0])))
	})
	// strings
	sArg := func(x *Exec, s *State, args []Val, i int) *Term {
		return x.toVT(s, args[i], types.Typ[types.String]).L[0]
	}
	M("strings.ToLower", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		return one(s, strV(UF("strlower", SStr, sArg(x, s, args, 0))))
	})
	M("strings.EqualFold", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		return one(s, boolV(Eq(UF("strlower", SStr, sArg(x, s, args, 0)), UF("strlower", SStr, sArg(x, s, args, 1)))))
	})
	M("strings.HasPrefix", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		return one(s, boolV(hasPrefixT(sArg(x, s, args, 0), sArg(x, s, args, 1))))
	})
	M("strings.TrimPrefix", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		a, p := sArg(x, s, args, 0), sArg(x, s, args, 1)
		return one(s, strV(Ite(hasPrefixT(a, p), UF("substr", SStr, a, UF("strlen", SInt, p), UF("strlen", SInt, a)), a)))
	})
	M("strings.Compare", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		a, b := sArg(x, s, args, 0), sArg(x, s, args, 1)
		return one(s, vt(types.Typ[types.Int], Ite(UF("strlt", SBool, a, b), Int(-1), Ite(Eq(a, b), Int(0), Int(1)))))
	})
	for _, n := range []string{"Contains", "HasSuffix"} {
		n := n
		M("strings."+n, func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
			return one(s, boolV(UF("str"+strings.ToLower(n), SBool, sArg(x, s, args, 0), sArg(x, s, args, 1))))
		})
	}
	M("encoding/hex.EncodeToString", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		return one(s, strV(UF("hexenc", SStr, x.seqStr(s, x.toVT(s, args[0], c.Args[0].Type())))))
	})
	M("github.com/ethereum/go-ethereum/common/hexutil.Encode", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		return one(s, strV(hex0x(x.seqStr(s, x.toVT(s, args[0], c.Args[0].Type())))))
	})
	M("strconv.FormatUint", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		b := x.toVT(s, args[1], types.Typ[types.Int]).L[0]
		v := x.toVT(s, args[0], types.Typ[types.Uint64]).L[0]
		if b == Int(10) {
			return one(s, strV(UF("itoa", SStr, v)))
		}
		return one(s, strV(UF("fmtuint", SStr, v, b)))
	})
	M("strconv.Itoa", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		return one(s, strV(UF("itoa", SStr, x.toVT(s, args[0], types.Typ[types.Int]).L[0])))
	})
	M("fmt.Sprintf", mSprintf)
	M("fmt.Sprint", mSprintf)
	M("fmt.Sprintln", mSprintf)
	// addresses and hashes
	arrStr := func(n int64, f func(b *Term) *Term) model {
		return func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
			var t types.Type
			if c.IsInvoke() {
				t = c.Value.Type()
			} else {
				t = c.Args[0].Type()
			}
			return one(s, strV(f(addrBytes(derefArr(x, s, args[0], t, x.pos(in)), n))))
		}
	}
	for _, m := range []string{"String", "Hex"} {
		M("(github.com/ethereum/go-ethereum/common.Address)."+m, arrStr(20, addrString))
		M("(github.com/ethereum/go-ethereum/common.Hash)."+m, arrStr(32, hex0x))
	}
	M("(github.com/attestantio/go-eth2-client/spec/bellatrix.ExecutionAddress).String", arrStr(20, addrString))
	M("(github.com/attestantio/go-eth2-client/spec/phase0.BLSPubKey).String", arrStr(48, hex0x))
	M("(github.com/attestantio/go-eth2-client/spec/phase0.Hash32).String", arrStr(32, hex0x))
	M("github.com/ethereum/go-ethereum/common.HexToAddress", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		b := UF("hexaddr", SStr, UF("strlower", SStr, sArg(x, s, args, 0)))
		return one(s, vt(c.Signature().Results().At(0).Type(), UF("strarr", ArrS(SInt, SInt), b)))
	})
	M("(*github.com/holiman/uint256.Int).Bytes32", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		x.nilCheck(s, args[0], x.pos(in))
		v := x.load(s, x.pointee(args[0], c.Args[0].Type().Underlying().(*types.Pointer).Elem())).(*VT).L[0]
		return one(s, vt(c.Signature().Results().At(0).Type(), UF("strarr", ArrS(SInt, SInt), UF("be32", SStr, v))))
	})
	fixedLen["be32"] = 32
	fixedLen["hexaddr"] = 20
	M("crypto/sha256.Sum256", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		b := UF("sha256", SStr, x.seqStr(s, x.toVT(s, args[0], c.Args[0].Type())))
		return one(s, vt(c.Signature().Results().At(0).Type(), UF("strarr", ArrS(SInt, SInt), b)))
	})
	// json of strings
	M("encoding/json.Marshal", mJSONMarshal)
	M("encoding/json.MarshalIndent", mJSONMarshal)
	M("encoding/json.Unmarshal", mJSONUnmarshal)
	// retry
	M("github.com/avast/retry-go/v4.Do", mRetryDo)
	// locks: sequential semantics (interleavings are handled by the lock-discipline obligations)
	for _, m := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
		m := m
		for _, t := range []string{"RWMutex", "Mutex"} {
			M("(*sync."+t+")."+m, func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
				x.lockOp(s, m, args[0], c.Args[0].Type(), x.pos(in))
				return one(s, VTuple{})
			})
		}
	}
	M("sort.Slice", mSortSlice)
	M("sort.SliceStable", mSortSlice)
	M("sort.Strings", mSortStrings)
	// transactions: the decoded content is opaque, its accessors are functions of it
	T := "(*github.com/ethereum/go-ethereum/core/types.Transaction)."
	content := func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) *Term {
		x.nilCheck(s, args[0], x.pos(in))
		return x.load(s, x.pointee(args[0], c.Args[0].Type().Underlying().(*types.Pointer).Elem())).(*VT).L[0]
	}
	for _, n := range []string{"GasPrice", "GasTipCap", "GasFeeCap", "Value"} {
		n := n
		M(T+n, func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
			t := UF("tx."+n, SInt, content(x, s, c, args, in))
			s.assume(Le(Int(0), t))
			return one(s, x.newBig(s, t))
		})
	}
	M(T+"Type", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		t := UF("tx.Type", SInt, content(x, s, c, args, in))
		s.assume(And(Le(Int(0), t), Le(t, Int(255))))
		return one(s, vt(types.Typ[types.Uint8], t))
	})
	M(T+"Hash", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		return one(s, vt(c.Signature().Results().At(0).Type(), UF("strarr", ArrS(SInt, SInt), UF("txhash", SStr, content(x, s, c, args, in)))))
	})
	M(T+"To", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		ct := content(x, s, c, args, in)
		pt := c.Signature().Results().At(0).Type()
		p := x.allocObj(s, pt.Underlying().(*types.Pointer).Elem(), pt)
		et := pt.Underlying().(*types.Pointer).Elem()
		x.store(s, x.pointee(p, et), vt(et, UF("strarr", ArrS(SInt, SInt), UF("tx.To", SStr, ct))))
		create := s.clone()
		create.assume(UF("tx.IsCreate", SBool, ct))
		s.assume(Not(UF("tx.IsCreate", SBool, ct)))
		var out []callRes
		if !create.dead {
			out = append(out, callRes{create, vt(pt, Int(0))})
		}
		if !s.dead {
			out = append(out, callRes{s, p})
		}
		return out
	})
	fixedLen["tx.To"] = 20
	M(T+"UnmarshalBinary", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		x.nilCheck(s, args[0], x.pos(in))
		b := x.seqStr(s, x.toVT(s, args[1], c.Args[1].Type()))
		et := c.Args[0].Type().Underlying().(*types.Pointer).Elem()
		x.store(s, x.pointee(args[0], et), vt(et, UF("txdecode", SInt, b)))
		return one(s, vt(errT, Ite(UF("txok", SBool, b), Int(0), Var("err.new", SInt))))
	})
	M("github.com/ethereum/go-ethereum/core/types.LatestSignerForChainID", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		t := UF("signer", SInt, x.bigOf(s, args[0], x.pos(in)))
		s.assume(Lt(Int(0), t))
		return one(s, vt(c.Signature().Results().At(0).Type(), t))
	})
	M("github.com/ethereum/go-ethereum/core/types.Sender", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		sg := x.toVT(s, args[0], c.Args[0].Type()).L[0]
		x.nilCheck(s, args[1], x.pos(in))
		ct := x.load(s, x.pointee(args[1], c.Args[1].Type().Underlying().(*types.Pointer).Elem())).(*VT).L[0]
		at := c.Signature().Results().At(0).Type()
		return one(s, VTuple{vt(at, UF("strarr", ArrS(SInt, SInt), UF("tx.Sender", SStr, sg, ct))),
			vt(errT, Ite(UF("tx.senderok", SBool, sg, ct), Int(0), Var("err.new", SInt)))})
	})
	fixedLen["tx.Sender"] = 20
	M("(github.com/attestantio/go-eth2-client/api/v1.ValidatorState).IsActive", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		v := x.toVT(s, args[0], c.Args[0].Type()).L[0]
		return one(s, boolV(isActiveState(v)))
	})
	M("(github.com/attestantio/go-eth2-client/api/v1.ValidatorState).String", func(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
		return one(s, strV(UF("valstatestr", SStr, x.toVT(s, args[0], c.Args[0].Type()).L[0])))
	})
}

// v1.ValidatorState: ActiveOngoing=3 ActiveExiting=4 ActiveSlashed=5 (checked against the dependency's source by the loader)
func isActiveState(v *Term) *Term { return Or(Eq(v, Int(3)), Eq(v, Int(4)), Eq(v, Int(5))) }

func bigLow64(a *Term) *Term {
	if a.K == KInt {
		m := new(big.Int).Mod(new(big.Int).Abs(a.I), two64)
		return IntB(m)
	}
	return Ite(And(Le(Int(0), a), Lt(a, IntB(two64))), a, Ite(Le(Int(0), a), Mod(a, IntB(two64)), Mod(Neg(a), IntB(two64))))
}
func bigLowI64(a *Term) *Term {
	in := And(Le(IntB(new(big.Int).Neg(two63)), a), Lt(a, IntB(two63)))
	if in == True {
		return a
	}
	f := UF("biglow.i64", SInt, a)
	return Ite(in, a, Sub(Mod(f, IntB(two64)), IntB(two63)))
}

func mSprintf(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
	name := calleeName(c)
	format := ""
	va := args[len(args)-1]
	if name == "fmt.Sprintf" {
		f := x.toVT(s, args[0], types.Typ[types.String]).L[0]
		if f.K != KStr {
			return one(s, strV(Fresh("sprintf", SStr)))
		}
		format = f.Str
	}
	w, ok := va.(*VT)
	if !ok || len(w.L) < 3 || w.L[2].K != KInt {
		return one(s, strV(Fresh("sprintf", SStr)))
	}
	el := w.T
	if sl, ok := w.T.Underlying().(*types.Slice); ok {
		el = sl.Elem()
	}
	n := w.L[2].I.Int64()
	var ts []*Term
	sig := ""
	for i := int64(0); i < n; i++ {
		e := x.sliceElem(s, w, el, Int(i))
		b, ok := x.boxes[e.L[0]]
		if !ok {
			return one(s, strV(Fresh("sprintf", SStr)))
		}
		f, ok := b.(*VIface)
		if !ok {
			return one(s, strV(Fresh("sprintf", SStr)))
		}
		fw, ok := f.V.(*VT)
		if !ok || len(fw.L) != 1 {
			return one(s, strV(Fresh("sprintf", SStr)))
		}
		if _, isP := f.T.Underlying().(*types.Pointer); isP {
			return one(s, strV(Fresh("sprintf", SStr)))
		}
		ts = append(ts, fw.L[0])
		sig += fw.L[0].S[:1]
	}
	if format == "%d" && len(ts) == 1 && ts[0].S == SInt {
		return one(s, strV(UF("itoa", SStr, ts[0])))
	}
	if len(ts) == 0 {
		return one(s, strV(StrLit(format)))
	}
	// literal text around verbs, each verb rendered on its own
	if name == "fmt.Sprintf" {
		if t := sprintfCat(format, ts); t != nil {
			return one(s, strV(t))
		}
	}
	return one(s, strV(UF(sanitize(name+":"+format+":"+sig), SStr, ts...)))
}

func sprintfCat(format string, ts []*Term) *Term {
	var parts []*Term
	lit := ""
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += string(format[i])
			continue
		}
		i++
		if i >= len(format) {
			return nil
		}
		switch format[i] {
		case '%':
			lit += "%"
		case 'd', 's', 'v':
			if k >= len(ts) {
				return nil
			}
			if lit != "" {
				parts = append(parts, StrLit(lit))
				lit = ""
			}
			t := ts[k]
			k++
			switch t.S {
			case SInt:
				parts = append(parts, UF("itoa", SStr, t))
			case SStr:
				parts = append(parts, t)
			default:
				return nil
			}
		default:
			return nil
		}
	}
	if k != len(ts) {
		return nil
	}
	if lit != "" {
		parts = append(parts, StrLit(lit))
	}
	if len(parts) == 0 {
		return StrLit("")
	}
	t := parts[len(parts)-1]
	for i := len(parts) - 2; i >= 0; i-- {
		t = UF("strcat", SStr, parts[i], t)
	}
	return t
}

var byteSliceT = types.NewSlice(types.Universe.Lookup("byte").Type())

func mJSONMarshal(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
	f, _ := args[0].(*VIface)
	if f != nil {
		if b, ok := f.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			str := x.toVT(s, f.V, f.T).L[0]
			return one(s, VTuple{x.bytesOf(s, UF("jsonstr", SStr, str), byteSliceT), vt(errT, Int(0))})
		}
		// a struct (or pointer to one): the text is a function of the value's leaves and of the heap it reaches
		t := f.T
		var w *VT
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
			x.nilCheck(s, f.V, x.pos(in))
			w = x.toVT(s, x.load(s, x.pointee(f.V, t)), t)
		} else {
			w = x.toVT(s, f.V, t)
		}
		txt := x.jsonOf(s, t, w)
		r := x.bytesOf(s, txt, byteSliceT)
		e := Fresh("err", SInt)
		s.assume(Le(Int(0), e))
		return one(s, VTuple{r, vt(errT, e)})
	}
	r := x.freshVT(s, "json", byteSliceT)
	e := x.freshVT(s, "err", errT)
	return one(s, VTuple{r, e})
}

// jsonOf is the JSON text of a value: an uninterpreted function of its leaves. Memory the value
// reaches through references is named by the versions of every heap component at the time, so the
// text is only equal to another one taken when nothing reachable was changed.
func (x *Exec) jsonOf(s *State, t types.Type, w *VT) *Term {
	sg := ""
	for _, l := range w.L {
		sg += l.S[:1]
	}
	nm := sanitize("json:" + shortType(t))
	var ts []*Term
	ts = append(ts, w.L...)
	reach := x.reachKeys(t)
	for _, k := range reach {
		ts = append(ts, x.hget(s, k))
	}
	nm = fmt.Sprintf("%s:%d", nm, len(ts))
	return UF(nm, SStr, ts...)
}

// reachKeys: heap components reachable from a value of type t through registered keys
func (x *Exec) reachKeys(t types.Type) []string {
	set := map[string]bool{}
	seen := map[string]bool{}
	var rec func(t types.Type)
	recObj := func(t types.Type) {
		lv := x.pointee(vt(types.NewPointer(t), Int(1)), t)
		if lv.isWholeArray() {
			return
		}
		_, ks := x.lvKeys(lv)
		for _, k := range ks {
			set[k] = true
		}
	}
	rec = func(t types.Type) {
		k := types.TypeString(t, nil)
		if seen[k] {
			return
		}
		seen[k] = true
		if atomicStructs[shortType(t)] {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			recObj(u.Elem())
			rec(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type())
			}
		case *types.Slice:
			_, ks := x.elKeys(u.Elem())
			for _, k := range ks {
				set[k] = true
			}
			rec(u.Elem())
		case *types.Map:
			d, _, vs := x.mapKeys(u)
			set[d] = true
			for _, v := range vs {
				set[v] = true
			}
			rec(u.Elem())
		}
	}
	rec(t)
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func mJSONUnmarshal(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
	f, _ := args[1].(*VIface)
	if f == nil {
		return one(s, x.freshVT(s, "err", errT))
	}
	p, ok := f.T.Underlying().(*types.Pointer)
	if !ok {
		return one(s, x.freshVT(s, "err", errT))
	}
	content := x.seqStr(s, x.toVT(s, args[0], c.Args[0].Type()))
	lv := x.pointee(f.V, p.Elem())
	if b, ok := p.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		okT := UF("isjsonstr", SBool, content)
		old := x.load(s, lv).(*VT).L[0]
		x.store(s, lv, vt(p.Elem(), Ite(okT, UF("unjsonstr", SStr, content), old)))
		return one(s, vt(errT, Ite(okT, Int(0), Var("err.new", SInt))))
	}
	// arbitrary decoded value built from fresh objects
	x.bumpAlloc(s)
	v := x.freshVT(s, "unmarshal", p.Elem())
	x.store(s, lv, v)
	s.ghost["#unmarshal"] = content
	return one(s, x.freshVT(s, "err", errT))
}

// mRetryDo: the closure runs one or more times; the result is nil exactly when its last run returned nil.
// Variables the closure assigns hold arbitrary values before that last run.
func mRetryDo(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
	cl, ok := args[0].(*VClosure)
	if !ok {
		return one(s, x.freshVT(s, "err", errT))
	}
	for i, fv := range cl.Fn.FreeVars {
		pt, ok := fv.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		stored := false
		var scan func(v ssa.Value)
		scan = func(v ssa.Value) {
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == v {
						stored = true
					}
				case *ssa.FieldAddr:
					scan(r)
				case *ssa.IndexAddr:
					scan(r)
				}
			}
		}
		scan(fv)
		if stored {
			x.store(s, x.pointee(cl.Binds[i], pt.Elem()), x.freshVT(s, "retry."+fv.Name(), pt.Elem()))
		}
	}
	var out []callRes
	for _, r := range x.callFn(s, c, cl.Fn, cl.Binds, nil, in) {
		if r.st.dead {
			continue
		}
		e := x.toVT(r.st, r.v, errT).L[0]
		out = append(out, callRes{r.st, vt(errT, Ite(Eq(e, Int(0)), Int(0), Var("err.wrap", SInt)))})
	}
	return out
}

// lockOp tracks the mutex as an integer: -1 write locked, n>0 readers, 0 free.
func (x *Exec) lockOp(s *State, op string, p Val, t types.Type, pos string) {
	if !x.locks {
		return
	}
	et := t.Underlying().(*types.Pointer).Elem()
	lv := x.pointee(p, et)
	v := x.load(s, lv).(*VT).L[0]
	set := func(n *Term) { x.store(s, lv, vt(et, n)) }
	switch op {
	case "Lock":
		x.oblige(s, "lock", "Lock of a mutex this call chain already holds", Eq(v, Int(0)), pos)
		s.assume(Eq(v, Int(0)))
		set(Int(-1))
	case "Unlock":
		x.oblige(s, "lock", "Unlock of a mutex that is not write-locked", Eq(v, Int(-1)), pos)
		s.assume(Eq(v, Int(-1)))
		set(Int(0))
	case "RLock":
		x.oblige(s, "lock", "RLock of a mutex this call chain already holds", Eq(v, Int(0)), pos)
		s.assume(Le(Int(0), v))
		set(Add(v, Int(1)))
	case "RUnlock":
		x.oblige(s, "lock", "RUnlock of a mutex that is not read-locked", Lt(Int(0), v), pos)
		s.assume(Lt(Int(0), v))
		set(Sub(v, Int(1)))
	}
}

// permute replaces the elements of slice w by a permutation of themselves and returns the
// index function new -> old.
func (x *Exec) permute(s *State, w *VT, el types.Type) {
	ls, ks := x.elKeys(el)
	n := w.L[2]
	id := Fresh("perm", SInt).Op
	perm := func(t *Term) *Term { return UF(sanitize("p."+id), SInt, t) }
	inv := func(t *Term) *Term { return UF(sanitize("pi."+id), SInt, t) }
	rng := func(t *Term) *Term { return And(Le(Int(0), t), Lt(t, n)) }
	k := BoundVar("i", SInt)
	s.assume(Forall([]*Term{k}, Implies(rng(k), And(rng(perm(k)), Eq(inv(perm(k)), k))), []*Term{perm(k)}))
	s.assume(Forall([]*Term{k}, Implies(rng(k), And(rng(inv(k)), Eq(perm(inv(k)), k))), []*Term{inv(k)}))
	for j := range ls {
		h := x.hget(s, ks[j])
		old := Select(h, w.L[0])
		na := Fresh("sorted", old.S)
		sel := app("select", ls[j].S, na, k)
		in := And(Le(w.L[1], k), Lt(k, Add(w.L[1], n)))
		s.assume(Forall([]*Term{k}, Eq(sel, Ite(in, Select(old, Add(w.L[1], perm(Sub(k, w.L[1])))), Select(old, k))), []*Term{sel}))
		// every old element is found in the new order
		osel := app("select", ls[j].S, old, k)
		if old.K == KVar || old.K == KApp && old.Op == "select" {
			s.assume(Forall([]*Term{k}, Implies(in, Eq(osel, app("select", ls[j].S, na, Add(w.L[1], inv(Sub(k, w.L[1])))))), []*Term{osel}))
		}
		s.heap[ks[j]] = Store(h, w.L[0], na)
	}
}

func mSortSlice(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
	f, ok := args[0].(*VIface)
	cl, ok2 := args[1].(*VClosure)
	if !ok || !ok2 {
		panic(unsupported("sort.Slice of unknown slice"))
	}
	w := x.toVT(s, f.V, f.T)
	el := f.T.Underlying().(*types.Slice).Elem()
	x.permute(s, w, el)
	i, j := Fresh("si", SInt), Fresh("sj", SInt)
	t := s.clone()
	rng := And(Le(Int(0), i), Lt(i, j), Lt(j, w.L[2]))
	t.assume(rng)
	n0 := len(t.pc)
	base := map[*Term]bool{}
	for _, p := range t.pc {
		base[p] = true
	}
	_ = n0
	saved, sa := x.obls, x.aborts
	x.aborts = false
	outs := x.execFunc(t, cl.Fn, []Val{vt(types.Typ[types.Int], j), vt(types.Typ[types.Int], i)}, cl.Binds)
	x.obls, x.aborts = saved, sa
	// not less(j, i)
	var alts []*Term
	for _, o := range outs {
		var cs []*Term
		for _, p := range o.st.pc {
			if !base[p] {
				cs = append(cs, p)
			}
		}
		alts = append(alts, Implies(And(cs...), Not(x.toVT(o.st, o.res[0], types.Typ[types.Bool]).L[0])))
	}
	bi, bj := BoundVar("i", SInt), BoundVar("j", SInt)
	body := Subst(Implies(rng, And(alts...)), map[*Term]*Term{i: bi, j: bj})
	s.assume(Forall([]*Term{bi, bj}, body))
	return one(s, VTuple{})
}

func mSortStrings(x *Exec, s *State, c *ssa.CallCommon, args []Val, in ssa.Instruction) []callRes {
	w := x.toVT(s, args[0], c.Args[0].Type())
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	x.permute(s, w, el)
	_, ks := x.elKeys(el)
	a := Select(x.hget(s, ks[0]), w.L[0])
	bi, bj := BoundVar("i", SInt), BoundVar("j", SInt)
	ei, ej := Select(a, Add(w.L[1], bi)), Select(a, Add(w.L[1], bj))
	s.assume(Forall([]*Term{bi, bj}, Implies(And(Le(Int(0), bi), Lt(bi, bj), Lt(bj, w.L[2])), Not(UF("strlt", SBool, ej, ei)))))
	return one(s, VTuple{})
}

var _ = token.ADD
