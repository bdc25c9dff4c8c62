package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"sync"
	"sync/atomic"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkrlwe"
)

// Basis conversions (spec/RNS.tla) and gadget decomposition (spec/Gadget.tla).

type rnsInput struct {
	LogN     int             `json:"logN"`
	Q        []uint64        `json:"q"`
	P        []uint64        `json:"p"`
	LogQ     []int           `json:"logQ"`
	LogP     []int           `json:"logP"`
	Gamma    int             `json:"gamma"`
	Symbolic bool            `json:"symbolic"`
	Seed     int64           `json:"seed"`
	Conc     int             `json:"conc"` // repetitions with every converter running concurrently
	Tests    json.RawMessage `json:"tests"`
}

func (in *rnsInput) params() rlwe.Parameters {
	lit := rlwe.ParametersLiteral{LogN: in.LogN, Sigma: rlwe.DefaultSigma}
	if len(in.Q) > 0 {
		lit.Q, lit.P = in.Q, in.P
	} else {
		lit.LogQ, lit.LogP = in.LogQ, in.LogP
	}
	p, err := rlwe.NewParametersFromLiteral(lit)
	if err != nil {
		fatal("parameters: %v", err)
	}
	return p
}

// residues, row by row; the 16 columns of the specification are repeated over the ring's coefficients
func fillRows(p *ring.Poly, rows [][]uint64) {
	for i, r := range rows {
		for k := range p.Coeffs[i] {
			p.Coeffs[i][k] = r[k%len(r)]
		}
	}
}

func cmpRows(p *ring.Poly, rows [][]uint64, mod []uint64) string {
	for i, r := range rows {
		for k, w := range p.Coeffs[i] {
			if w%mod[i] != r[k%len(r)]%mod[i] {
				return fmt.Sprintf("modulus %d, coefficient %d: got %d, want %d", mod[i], k, w%mod[i], r[k%len(r)]%mod[i])
			}
		}
	}
	return ""
}

func garbage(p *ring.Poly, mod []uint64, rng *rand.Rand) {
	for i := range p.Coeffs {
		for k := range p.Coeffs[i] {
			p.Coeffs[i][k] = rng.Uint64() % mod[i]
		}
	}
}

// classInt picks an integer below M of the named class; ms are the factors of M.
func classInt(cl string, M *big.Int, ms []uint64, rng *rand.Rand) *big.Int {
	one := big.NewInt(1)
	x := new(big.Int)
	switch cl {
	case "zero":
	case "one":
		x.Set(one)
	case "two":
		x.SetInt64(2)
	case "max":
		x.Sub(M, one)
	case "max1":
		x.Sub(M, big.NewInt(2))
	case "half":
		x.Rsh(M, 1)
	case "half1":
		x.Rsh(M, 1)
		x.Add(x, one)
	case "mult", "multm1":
		m := new(big.Int).SetUint64(ms[rng.Intn(len(ms))])
		x.Rand(rng, M)
		x.Div(x, m)
		x.Mul(x, m)
		if cl == "multm1" && x.Sign() > 0 {
			x.Sub(x, one)
		}
	case "small":
		x.SetInt64(rng.Int63n(1 << 20))
	case "few", "many":
		// the digits of the conversion are all small, or all next to their modulus
		for _, q := range ms {
			x.Add(x, new(big.Int).Div(M, new(big.Int).SetUint64(q)))
		}
		x.Mul(x, big.NewInt(1+rng.Int63n(3)))
		if cl == "many" {
			x.Neg(x)
		}
	case "big":
		x.Sub(M, big.NewInt(1+rng.Int63n(1<<20)))
	default:
		x.Rand(rng, M)
	}
	return x.Mod(x, M)
}

func putInts(p *ring.Poly, xs []*big.Int, mod []uint64) {
	t, b := new(big.Int), new(big.Int)
	for i, m := range mod {
		b.SetUint64(m)
		for k, x := range xs {
			p.Coeffs[i][k] = t.Mod(x, b).Uint64()
		}
	}
}

// cmpInts: the polynomial holds the integers xs; an integer within floating-point precision of 0 or of src may
// come out shifted by one multiple of step (the same in every modulus).
var wrapped atomic.Int64

func cmpInts(p *ring.Poly, xs, pos []*big.Int, src *big.Int, step *big.Int, mod []uint64) string {
	t, b := new(big.Int), new(big.Int)
	for k, x := range xs {
		match := func(y *big.Int) bool {
			for i, m := range mod {
				b.SetUint64(m)
				if p.Coeffs[i][k]%m != t.Mod(y, b).Uint64() {
					return false
				}
			}
			return true
		}
		if match(x) {
			continue
		}
		lo := new(big.Int).Lsh(pos[k], 44)
		hi := new(big.Int).Lsh(new(big.Int).Sub(src, pos[k]), 44)
		if lo.Cmp(src) < 0 || hi.Cmp(src) < 0 {
			if match(new(big.Int).Add(x, step)) || match(new(big.Int).Sub(x, step)) {
				wrapped.Add(1)
				continue
			}
		}
		got := make([]uint64, len(mod))
		for i, m := range mod {
			got[i] = p.Coeffs[i][k] % m
		}
		return fmt.Sprintf("coefficient %d: got residues %v (moduli %v), want %v", k, got, mod, x)
	}
	return ""
}

type rnsOp struct {
	Conv int        `json:"conv"`
	Kind string     `json:"kind"`
	LQ   int        `json:"lq"`
	LP   int        `json:"lp"`
	InQ  [][]uint64 `json:"inq"`
	InP  [][]uint64 `json:"inp"`
	Out  [][]uint64 `json:"out"`
	Hi   []string   `json:"hi"`
	Lo   []string   `json:"lo"`
}

type prepared struct {
	op      rnsOp
	q, p    *ring.Poly // inputs
	hi, lo  []*big.Int
	src     *big.Int
	removed *big.Int
}

func runRNS(inp, outp string) {
	var in rnsInput
	readJSON(inp, &in)
	var tests [][]rnsOp
	if err := json.Unmarshal(in.Tests, &tests); err != nil {
		fatal("%v", err)
	}
	par := in.params()
	rq, rp := par.RingQ(), par.RingP()
	Q, P := rq.Modulus, rp.Modulus
	rng := rand.New(rand.NewSource(in.Seed))
	rep := &Report{Ops: map[string]int{}}

	prep := func(o rnsOp) *prepared {
		w := &prepared{op: o, q: rq.NewPoly(), p: rp.NewPoly()}
		if !in.Symbolic {
			fillRows(w.q, o.InQ)
			fillRows(w.p, o.InP)
		} else {
			kept, gone := Q[:o.LQ+1], P[:o.LP+1]
			if o.Kind == "upQP" || o.Kind == "downP" {
				kept, gone = P[:o.LP+1], Q[:o.LQ+1]
			}
			H, R := prodOf(kept), prodOf(gone)
			w.src, w.removed = R, R
			N := par.N()
			w.hi, w.lo = make([]*big.Int, N), make([]*big.Int, N)
			xs := make([]*big.Int, N)
			for k := 0; k < N; k++ {
				w.lo[k] = classInt(o.Lo[k%len(o.Lo)], R, gone, rng)
				if o.Kind == "upQP" || o.Kind == "upPQ" {
					w.hi[k] = new(big.Int)
				} else {
					w.hi[k] = classInt(o.Hi[k%len(o.Hi)], H, kept, rng)
				}
				xs[k] = new(big.Int).Add(new(big.Int).Mul(w.hi[k], R), w.lo[k])
			}
			putInts(w.q, xs, Q[:o.LQ+1])
			putInts(w.p, xs, P[:o.LP+1])
		}
		if o.Kind == "downQntt" {
			rq.NTTLvl(o.LQ, w.q, w.q)
			rp.NTTLvl(o.LP, w.p, w.p)
		}
		return w
	}
	run := func(c *mkrlwe.FastBasisExtender, w *prepared, oq, op *ring.Poly) string {
		o := w.op
		q, p := w.q.CopyNew(), w.p.CopyNew()
		var res *ring.Poly
		var mod []uint64
		pan, msg := try(func() {
			switch o.Kind {
			case "upQP":
				c.ModUpQtoP(o.LQ, o.LP, q, op)
				res, mod = op, P[:o.LP+1]
			case "upPQ":
				c.ModUpPtoQ(o.LP, o.LQ, p, oq)
				res, mod = oq, Q[:o.LQ+1]
			case "downQ":
				c.ModDownQPtoQ(o.LQ, o.LP, q, p, oq)
				res, mod = oq, Q[:o.LQ+1]
			case "downQntt":
				c.ModDownQPtoQNTT(o.LQ, o.LP, q, p, oq)
				rq.InvNTTLvl(o.LQ, oq, oq)
				res, mod = oq, Q[:o.LQ+1]
			case "downP":
				c.ModDownQPtoP(o.LQ, o.LP, q, p, op)
				res, mod = op, P[:o.LP+1]
			}
		})
		if pan {
			return "panic: " + msg
		}
		if !in.Symbolic {
			return cmpRows(res, o.Out, mod)
		}
		if o.Kind == "upQP" || o.Kind == "upPQ" {
			return cmpInts(res, w.lo, w.lo, w.src, w.removed, mod)
		}
		return cmpInts(res, w.hi, w.lo, w.src, big.NewInt(1), mod)
	}

	for ti, t := range tests {
		rep.Behaviours++
		conv := []*mkrlwe.FastBasisExtender{nil, mkrlwe.NewFastBasisExtender(rq, rp)}
		per := map[int][]*prepared{}
		bad := false
		for si, o := range t {
			rep.Steps++
			rep.Ops[o.Kind]++
			if o.Kind == "copy" {
				conv = append(conv, conv[o.Conv].ShallowCopy())
				continue
			}
			w := prep(o)
			per[o.Conv] = append(per[o.Conv], w)
			oq, op := rq.NewPoly(), rp.NewPoly()
			garbage(oq, Q, rng)
			garbage(op, P, rng)
			rep.Checks += par.N()
			if r := run(conv[o.Conv], w, oq, op); r != "" {
				rep.Failures = append(rep.Failures, Failure{ti, si, o.Kind, "value", fmt.Sprintf("%s at levels (%d,%d): %s", o.Kind, o.LQ, o.LP, r), fmt.Sprint(Q, P)})
				bad = true
				break
			}
		}
		if in.Conc > 0 && !bad {
			var wg sync.WaitGroup
			var mu sync.Mutex
			first := ""
			for id, ws := range per {
				id, ws := id, ws
				wg.Add(1)
				go func() {
					defer wg.Done()
					oq, op := rq.NewPoly(), rp.NewPoly()
					for r := 0; r < in.Conc; r++ {
						for _, w := range ws {
							if s := run(conv[id], w, oq, op); s != "" {
								mu.Lock()
								if first == "" {
									first = fmt.Sprintf("copies used at the same time: %s at levels (%d,%d): %s", w.op.Kind, w.op.LQ, w.op.LP, s)
								}
								mu.Unlock()
								return
							}
						}
					}
				}()
			}
			wg.Wait()
			rep.Checks += in.Conc * len(t)
			if first != "" {
				rep.Failures = append(rep.Failures, Failure{ti, len(t), "copy", "independent", first, fmt.Sprint(Q, P)})
			}
		}
		if len(rep.Failures) >= 5 {
			break
		}
	}
	rep.Ops["wrapped by floating point"] = int(wrapped.Load())
	writeJSON(outp, rep)
}

// ---- gadget -----------------------------------------------------------------

type gadOp struct {
	Kind   string     `json:"kind"`
	L      int        `json:"l"`
	S      int        `json:"s"`
	NTT    bool       `json:"ntt"`
	A      [][]uint64 `json:"a"`
	B      []uint64   `json:"b"`
	Out    [][]uint64 `json:"out"`
	Digits []struct {
		Q [][]uint64 `json:"q"`
		P [][]uint64 `json:"p"`
	} `json:"digits"`
	Dg [][]string `json:"dg"`
}

type gadSlot struct {
	swk *mkrlwe.SwitchingKey
	a   *ring.Poly // coefficient domain
}

func runGadget(inp, outp string) {
	var in rnsInput
	readJSON(inp, &in)
	var tests [][]gadOp
	if err := json.Unmarshal(in.Tests, &tests); err != nil {
		fatal("%v", err)
	}
	params := mkrlwe.NewParameters(in.params(), in.Gamma)
	rq, rp := params.RingQ(), params.RingP()
	Q, P := rq.Modulus, rp.Modulus
	N := params.N()
	alpha := len(P) / in.Gamma
	rng := rand.New(rand.NewSource(in.Seed))
	rep := &Report{Ops: map[string]int{}}
	ks := mkrlwe.NewKeySwitcher(params)
	bigP := prodOf(P)
	beta := func(l int) int { return (l + alpha) / alpha }

	newDigits := func() *mkrlwe.SwitchingKey {
		s := new(mkrlwe.SwitchingKey)
		for i := 0; i < beta(len(Q)-1); i++ {
			v := params.RingQP().NewPoly()
			garbage(v.Q, Q, rng)
			garbage(v.P, P, rng)
			s.Value = append(s.Value, v)
		}
		return s
	}
	// the error-free gadget encoding of b: P*b in the digit's moduli, Montgomery form, NTT domain
	gadget := func(b *ring.Poly) *mkrlwe.SwitchingKey {
		s := new(mkrlwe.SwitchingKey)
		for i := 0; i < beta(len(Q)-1); i++ {
			v := params.RingQP().NewPoly()
			for j := i * alpha; j < (i+1)*alpha && j < len(Q); j++ {
				pm := new(big.Int).Mod(bigP, new(big.Int).SetUint64(Q[j])).Uint64()
				for k := 0; k < N; k++ {
					v.Q.Coeffs[j][k] = mulmod(pm, b.Coeffs[j][k], Q[j])
				}
			}
			rq.NTT(v.Q, v.Q)
			rq.MForm(v.Q, v.Q)
			s.Value = append(s.Value, v)
		}
		return s
	}
	spreadB := func(b []uint64) *ring.Poly {
		p := rq.NewPoly()
		for j := range Q {
			for k, w := range b {
				p.Coeffs[j][k] = w % Q[j]
			}
			if in.Symbolic { // a full-size factor
				for k := len(b); k < N; k++ {
					p.Coeffs[j][k] = b[(k*7)%len(b)] * uint64(k%5) % Q[j]
				}
			}
		}
		return p
	}
	// reference negacyclic product
	mulRef := func(a, b *ring.Poly, l int) *ring.Poly {
		x, y := a.CopyNew(), b.CopyNew()
		r := rq.NewPoly()
		rq.NTTLvl(l, x, x)
		rq.NTTLvl(l, y, y)
		rq.MFormLvl(l, x, x)
		rq.MulCoeffsMontgomeryLvl(l, x, y, r)
		rq.InvNTTLvl(l, r, r)
		return r
	}
	polyRowsOf := func(p *ring.Poly, l int) [][]uint64 { return p.Coeffs[:l+1] }

	for ti, t := range tests {
		rep.Behaviours++
		slots := map[int]*gadSlot{}
		for si, o := range t {
			rep.Steps++
			rep.Ops[o.Kind]++
			reason := ""
			// the polynomial
			var a *ring.Poly
			var dg [][]*big.Int
			if o.Kind != "exth" {
				a = ring.NewPoly(N, o.L+1)
				if !in.Symbolic {
					fillRows(a, o.A)
				} else {
					dg = make([][]*big.Int, beta(o.L))
					for i := range dg {
						hi := (i + 1) * alpha
						if hi > o.L+1 {
							hi = o.L + 1
						}
						ms := Q[i*alpha : hi]
						M := prodOf(ms)
						dg[i] = make([]*big.Int, N)
						for k := range dg[i] {
							dg[i][k] = classInt(o.Dg[i][k%len(o.Dg[i])], M, ms, rng)
						}
						tmp := &ring.Poly{Coeffs: a.Coeffs[i*alpha : hi]}
						putInts(tmp, dg[i], ms)
					}
				}
			}
			arg := a
			if a != nil && o.NTT {
				arg = a.CopyNew()
				rq.NTTLvl(o.L, arg, arg)
				arg.IsNTT = true
			}
			var keep *ring.Poly
			if arg != nil {
				keep = arg.CopyNew()
			}
			switch o.Kind {
			case "dec":
				s := newDigits()
				pan, msg := try(func() { ks.Decompose(o.L, arg, s) })
				if pan {
					reason = "panic: " + msg
					break
				}
				slots[o.S] = &gadSlot{s, a.CopyNew()}
				for i := 0; i < beta(o.L) && reason == ""; i++ {
					dq, dp := s.Value[i].Q.CopyNew(), s.Value[i].P.CopyNew()
					rq.InvNTTLvl(o.L, dq, dq)
					rp.InvNTT(dp, dp)
					if !in.Symbolic {
						if reason = cmpRows(dq, o.Digits[i].Q, Q); reason == "" {
							reason = cmpRows(dp, o.Digits[i].P, P)
						}
					} else {
						hi := (i + 1) * alpha
						if hi > o.L+1 {
							hi = o.L + 1
						}
						M := prodOf(Q[i*alpha : hi])
						all := &ring.Poly{Coeffs: append(append([][]uint64{}, dq.Coeffs[:o.L+1]...), dp.Coeffs...)}
						mods := append(append([]uint64{}, Q[:o.L+1]...), P...)
						reason = cmpInts(all, dg[i], dg[i], M, M, mods)
					}
					if reason != "" {
						reason = fmt.Sprintf("digit %d: %s", i, reason)
					}
					rep.Checks += N
				}
			case "ext":
				b := spreadB(o.B)
				c := rq.NewPoly()
				garbage(c, Q, rng)
				pan, msg := try(func() { ks.ExternalProduct(o.L, arg, gadget(b), c) })
				if pan {
					reason = "panic: " + msg
					break
				}
				want := o.Out
				if in.Symbolic {
					want = polyRowsOf(mulRef(padPoly(a, len(Q)), b, o.L), o.L)
				}
				reason = cmpRows(c, want, Q)
				rep.Checks += N
			case "exth":
				b := spreadB(o.B)
				c := rq.NewPoly()
				garbage(c, Q, rng)
				sl := slots[o.S]
				h := newHasher()
				h.swk(sl.swk)
				before := h
				pan, msg := try(func() { ks.ExternalProductHoisted(o.L, sl.swk, gadget(b), c) })
				if pan {
					reason = "panic: " + msg
					break
				}
				want := o.Out
				if in.Symbolic {
					want = polyRowsOf(mulRef(padPoly(sl.a, len(Q)), b, o.L), o.L)
				}
				reason = cmpRows(c, want, Q)
				h = newHasher()
				h.swk(sl.swk)
				if reason == "" && h != before {
					reason = "the precomputed digits were modified"
				}
				rep.Checks += N
			}
			if reason == "" && arg != nil {
				h1, h2 := newHasher(), newHasher()
				h1.poly(keep)
				h2.poly(arg)
				if h1 != h2 {
					reason = "the polynomial handed over was modified"
				}
			}
			if reason != "" {
				rep.Failures = append(rep.Failures, Failure{ti, si, o.Kind, "value", fmt.Sprintf("%s at level %d (%d special primes, gamma %d, ntt %v): %s", o.Kind, o.L, len(P), in.Gamma, o.NTT, reason), fmt.Sprint(Q, P)})
				break
			}
		}
		if len(rep.Failures) >= 5 {
			break
		}
	}
	rep.Ops["wrapped by floating point"] = int(wrapped.Load())
	writeJSON(outp, rep)
}

func padPoly(p *ring.Poly, n int) *ring.Poly {
	r := ring.NewPoly(len(p.Coeffs[0]), n)
	for i := range p.Coeffs {
		copy(r.Coeffs[i], p.Coeffs[i])
	}
	return r
}

func init() {
	modes["rns"] = runRNS
	modes["gadget"] = runGadget
}
