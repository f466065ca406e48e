package main

import (
	"fmt"
	"sort"
	"strings"
)

// CompInfo describes a comprehension view: a finite-support integer function.
type CompInfo struct {
	sym   string
	sort  Sort
	shape string
	hi    *Term // for range comprehensions over [0,hi)
	skel  string
	nfree int
}

var compBySym = map[string]*CompInfo{}
// set for functions whose contract says so
var sumPairs bool
var touchedKeys = map[int]*Term{}

// touched: a term was used as a map key (touchIx: as an index of a sequence)
func touch(t *Term) {
	if len(t.free) == 0 {
		touchedKeys[t.id] = t
		mapKeysUsed[t.id] = true
	}
}
func touchIx(t *Term) {
	if len(t.free) == 0 {
		touchedKeys[t.id] = t
	}
}

var mapKeysUsed = map[int]bool{}

// heapRoots names the heap arrays a comprehension's definition reads, ignoring their versions
func heapRoots(t *Term) string {
	names := map[string]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.K == KVar && strings.HasPrefix(t.Op, "H.") {
			n := t.Op
			if i := strings.LastIndexByte(n, '!'); i > 0 {
				n = n[:i]
			}
			names[n] = true
		}
		for i, a := range t.Args {
			if t.K == KApp && t.Op == "store" && i > 0 {
				continue
			}
			rec(a)
		}
	}
	rec(t)
	var out []string
	for n := range names {
		out = append(out, n)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func sumName(s Sort) string {
	if s == SInt {
		return "Sum"
	}
	return "Sum_" + sanitize(s)
}

func SumOf(view *Term) *Term {
	return UF(sumName(arrIdx(view.S)), SInt, view)
}

func viewInfo(v *Term) *CompInfo {
	if v.K == KVar || v.K == KApp {
		return compBySym[v.Op]
	}
	return nil
}

// sumAxioms generates ground instances of true facts about finite sums for the
// Sum terms that occur in a query:
//
//	cong:   (forall j. A[j]=B[j])            => Sum A = Sum B
//	point:  (forall j/=k. A[j]=B[j])         => Sum B = Sum A + B[k] - A[k]
//	zero:   (forall j. A[j]=0)               => Sum A = 0
//	nonneg: (forall j. A[j]>=0)              => Sum A >= 0
//	mono:   (forall j. A[j]<=B[j])           => Sum A <= Sum B
//	concat: C = A on [0,n), C[n+j] = B[j]    => Sum C = Sum A + Sum B
//
// the quantified premises are given as Skolem witnesses. A lean set relates only views that read
// the same heap arrays and leaves out bounds and concatenations.
func sumAxioms(c *collector, lean bool) []*Term {
	var out []*Term
	byShape := map[string][]*Term{}
	var shapes []string
	for t := range c.sumTerms() {
		v := t.Args[0]
		ci := viewInfo(v)
		sh := "?" + v.S
		if ci != nil {
			sh = ci.shape
			if lean {
				sh += "|" + ci.skel
			}
		} else if lean {
			continue
		}
		if _, ok := byShape[sh]; !ok {
			shapes = append(shapes, sh)
		}
		byShape[sh] = append(byShape[sh], v)
	}
	sort.Strings(shapes)
	var keys []*Term
	for id, k := range touchedKeys {
		if c.seen[id] || k.K == KInt {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	wit := func(s Sort, parts ...interface{}) *Term {
		return Var(sanitize("wit"+fmt.Sprint(parts...)), s)
	}
	for _, sh := range shapes {
		vs := byShape[sh]
		sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
		var ks []*Term
		for _, k := range keys {
			if lean && sh[0] == 'm' && (k.K == KInt || !mapKeysUsed[k.id]) {
				continue
			}
			ks = append(ks, k)
		}
		for _, v := range vs {
			if ci := viewInfo(v); ci != nil && ci.hi != nil && v.K == KVar {
				ks = append(ks, ci.hi)
			}
		}
		ks = dedupTerms(ks)
		for _, a := range vs {
			is := arrIdx(a.S)
			w := wit(is, "z", a.id)
			out = append(out, Or(Ne(Select(a, w), Int(0)), Eq(SumOf(a), Int(0))))
			if lean {
				continue
			}
			w = wit(is, "n", a.id)
			out = append(out, Or(Lt(Select(a, w), Int(0)), Ge(SumOf(a), Int(0))))
			// any single element is bounded by a sum of non-negatives
			for _, k := range ks {
				if k.S == is {
					out = append(out, Or(Lt(Select(a, w), Int(0)), Ge(SumOf(a), Select(a, k))))
				}
			}
		}
		for i, a := range vs {
			for j, b := range vs {
				if i == j || a.S != b.S {
					continue
				}
				is := arrIdx(a.S)
				if c.wantMono {
					w := wit(is, "m", a.id, "_", b.id)
					out = append(out, Or(Gt(Select(a, w), Select(b, w)), Le(SumOf(a), SumOf(b))))
				}
				if i > j {
					continue
				}
				w := wit(is, "c", a.id, "_", b.id)
				out = append(out, Or(Ne(Select(a, w), Select(b, w)), Eq(SumOf(a), SumOf(b))))
				for _, k := range ks {
					if k.S != is {
						continue
					}
					w := wit(is, "p", a.id, "_", b.id, "_", k.id)
					out = append(out, Or(And(Ne(w, k), Ne(Select(a, w), Select(b, w))),
						Eq(SumOf(b), Add(SumOf(a), Sub(Select(b, k), Select(a, k))))))
				}
			}
		}
		// two keys at once
		if sumPairs && sh[0] == 'm' && len(vs) <= 8 {
			for i, a := range vs {
				for j, b := range vs {
					if i >= j || a.S != b.S {
						continue
					}
					is := arrIdx(a.S)
					for p, k := range ks {
						for q, l := range ks {
							if p >= q || k.S != is || l.S != is || !mapKeysUsed[k.id] || !mapKeysUsed[l.id] {
								continue
							}
							w := wit(is, "p", a.id, "_", b.id, "_", k.id, "_", l.id)
							out = append(out, Or(And(Ne(w, k), Ne(w, l), Ne(Select(a, w), Select(b, w))),
								Eq(SumOf(b), Add(SumOf(a), Sub(Select(b, k), Select(a, k)), Ite(Eq(k, l), Int(0), Sub(Select(b, l), Select(a, l)))))))
						}
					}
				}
			}
		}
		// concatenation
		if !lean && len(vs) >= 3 && len(vs) <= 8 {
			for _, a := range vs {
				ca := viewInfo(a)
				if ca == nil || ca.hi == nil || a.K != KVar {
					continue
				}
				for _, b := range vs {
					for _, d := range vs {
						if a == d || b == d || a == b {
							continue
						}
						w := wit(SInt, "cat", a.id, "_", b.id, "_", d.id)
						rhs := Ite(Lt(w, ca.hi), Select(a, w), Select(b, Sub(w, ca.hi)))
						out = append(out, Or(Ne(Select(d, w), rhs), Eq(SumOf(d), Add(SumOf(a), SumOf(b)))))
					}
				}
			}
		}
	}
	return out
}

func (c *collector) sumTerms() map[*Term]bool {
	m := map[*Term]bool{}
	for _, t := range c.ord {
		if t.K == KApp && (t.Op == "Sum" || len(t.Op) > 4 && t.Op[:4] == "Sum_") && len(t.free) == 0 {
			m[t] = true
		}
	}
	return m
}

func dedupTerms(ts []*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	for _, t := range ts {
		if !seen[t.id] {
			seen[t.id] = true
			out = append(out, t)
		}
	}
	return out
}
