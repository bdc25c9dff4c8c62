package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

// Executes histories of spec/KeyGen.tla and records, for every operation, the random components it contains.

type kgOp struct {
	Nm string `json:"nm"`
	O  int    `json:"o"`
	P  int    `json:"p"`
	A  int    `json:"a"`
	S  string `json:"s"`
}

type kgComp struct {
	Nm   string `json:"nm"`
	Dig  int    `json:"dig"`
	Amt  int    `json:"amt"`
	Tok  string `json:"tok"`
	Cons int    `json:"cons"`
	Max  int64  `json:"max"`
	Var  int64  `json:"var"`
	Nz   int    `json:"nz"`
	Zero int    `json:"zero"`
	Pos  int    `json:"pos"`
	Low  int    `json:"low"`
}

type kgEvent struct {
	Op    kgOp     `json:"op"`
	Out   string   `json:"out"`
	Msg   string   `json:"msg"`
	ID    int      `json:"id"`
	Amt   int      `json:"amt"`
	Beta  int      `json:"beta"`
	Deg   int      `json:"deg"`
	Sig   int      `json:"sig"` // configured width of the errors, in tenths
	Np2   int      `json:"np2"`
	Comps []kgComp `json:"comps"`
}

type kgInput struct {
	Ring  RingCfg  `json:"ring"`
	Gamma int      `json:"gamma"` // 0: through mkckks.NewParameters
	Names int      `json:"names"`
	Seed  int64    `json:"seed"`
	Hist  [][]kgOp `json:"hist"`
}

type kgWorld struct {
	in    *kgInput
	ckpar ckks.Parameters
	ck    mkckks.Parameters
	par   mkrlwe.Parameters
	rq    *ring.Ring
	rp    *ring.Ring
	beta  int
	alpha int
	names []string
	amts  []int
	kgs   []*mkrlwe.KeyGenerator
	encs  []*mkckks.Encryptor
	sk    map[int]*mkrlwe.SecretKey
	pk    map[int]*mkrlwe.PublicKey

	oldErr *rlwe.PolyQP
	oldSwk *mkrlwe.SwitchingKey
	oldSet *mkrlwe.RotationKeySet
	inSet  map[string]bool
	rng    *rand.Rand
	comps  []kgComp
	idok   bool
	amok   bool
}

// solve turns a value (coefficient domain, plain) into a small integer polynomial and describes it.
func (w *kgWorld) describe(nm string, dig, amt int, v rlwe.PolyQP, lq, lp int) {
	c := kgComp{Nm: nm, Dig: dig, Amt: amt, Cons: 1}
	h := newHasher()
	hn := newHasher()
	N := w.par.N()
	var sq float64
	pos := 0
	q0 := w.rq.Modulus[0]
	cen := func(x, q uint64) int64 {
		x %= q
		if x > q/2 {
			return -int64(q - x)
		}
		return int64(x)
	}
	for k := 0; k < N; k++ {
		x := cen(v.Q.Coeffs[0][k], q0)
		for j := 1; j <= lq; j++ {
			if cen(v.Q.Coeffs[j][k], w.rq.Modulus[j]) != x {
				c.Cons = 0
			}
		}
		for j := 0; j <= lp; j++ {
			if cen(v.P.Coeffs[j][k], w.rp.Modulus[j]) != x {
				c.Cons = 0
			}
		}
		h.word(uint64(x))
		hn.word(uint64(-x))
		a := x
		if a < 0 {
			a = -a
		}
		if a > c.Max {
			c.Max = a
		}
		sq += float64(x) * float64(x)
		if x != 0 {
			c.Nz++
			if x > 0 {
				pos++
			}
		}
	}
	if c.Max > 1<<30 {
		c.Max = 1 << 30
		c.Cons = 0
	}
	va := 100 * sq / float64(N)
	if va > 1e9 {
		va = 1e9
	}
	c.Var = int64(va)
	c.Zero = 1000 * (N - c.Nz) / N
	if c.Nz > 0 {
		c.Pos = 1000 * pos / c.Nz
	}
	// a draw and its negative count as the same
	a, b := uint64(h), uint64(hn)
	if b < a {
		a = b
	}
	c.Tok = fmt.Sprintf("%016x", a)
	w.comps = append(w.comps, c)
}

// reference element: uniform in every modulus
func (w *kgWorld) describeCRS(amt, dig int, v rlwe.PolyQP) {
	c := kgComp{Nm: "crs", Dig: dig, Amt: amt, Cons: 1}
	h := newHasher()
	low, tot := 0, 0
	worst := 500
	do := func(p *ring.Poly, mod []uint64) {
		for j, row := range p.Coeffs {
			l := 0
			for _, x := range row {
				h.word(x % mod[j])
				if x%mod[j] < mod[j]/2 {
					l++
				}
			}
			low += l
			tot += len(row)
			if r := 1000 * l / len(row); abs(r-500) > abs(worst-500) {
				worst = r
			}
		}
	}
	do(v.Q, w.rq.Modulus)
	do(v.P, w.rp.Modulus)
	c.Low = worst
	c.Nz = tot
	c.Tok = fmt.Sprintf("%016x", uint64(h))
	w.comps = append(w.comps, c)
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func (w *kgWorld) lq() int { return len(w.rq.Modulus) - 1 }
func (w *kgWorld) lp() int { return len(w.rp.Modulus) - 1 }

func (w *kgWorld) copyQP(v rlwe.PolyQP) rlwe.PolyQP {
	return rlwe.PolyQP{Q: v.Q.CopyNew(), P: v.P.CopyNew()}
}

func (w *kgWorld) inv(v rlwe.PolyQP) rlwe.PolyQP {
	r := w.copyQP(v)
	w.rq.InvNTT(r.Q, r.Q)
	w.rp.InvNTT(r.P, r.P)
	return r
}
func (w *kgWorld) ntt(v rlwe.PolyQP) rlwe.PolyQP {
	r := w.copyQP(v)
	w.rq.NTT(r.Q, r.Q)
	w.rp.NTT(r.P, r.P)
	return r
}
func (w *kgWorld) invM(v rlwe.PolyQP) rlwe.PolyQP {
	r := w.copyQP(v)
	w.rq.InvMForm(r.Q, r.Q)
	w.rp.InvMForm(r.P, r.P)
	return r
}
func (w *kgWorld) mul(a, b rlwe.PolyQP) rlwe.PolyQP { // plain, NTT
	r := w.copyQP(a)
	w.rq.MForm(r.Q, r.Q)
	w.rp.MForm(r.P, r.P)
	w.rq.MulCoeffsMontgomery(r.Q, b.Q, r.Q)
	w.rp.MulCoeffsMontgomery(r.P, b.P, r.P)
	return r
}
func (w *kgWorld) add(a, b rlwe.PolyQP) rlwe.PolyQP {
	r := w.copyQP(a)
	w.rq.Add(r.Q, b.Q, r.Q)
	w.rp.Add(r.P, b.P, r.P)
	return r
}
func (w *kgWorld) sub(a, b rlwe.PolyQP) rlwe.PolyQP {
	r := w.copyQP(a)
	w.rq.Sub(r.Q, b.Q, r.Q)
	w.rp.Sub(r.P, b.P, r.P)
	return r
}

// plain NTT-domain secret
func (w *kgWorld) secret(sk *mkrlwe.SecretKey) rlwe.PolyQP { return w.invM(sk.Value) }

// s(X^g), plain NTT domain, by permuting coefficients
func (w *kgWorld) autom(s rlwe.PolyQP, g uint64) rlwe.PolyQP {
	c := w.inv(s)
	N := uint64(w.par.N())
	r := w.par.RingQP().NewPoly()
	do := func(in, out *ring.Poly, mod []uint64) {
		for j := range mod {
			for k := uint64(0); k < N; k++ {
				e := k * g % (2 * N)
				x := in.Coeffs[j][k] % mod[j]
				if e >= N {
					e -= N
					if x != 0 {
						x = mod[j] - x
					}
				}
				out.Coeffs[j][e] = x
			}
		}
	}
	do(c.Q, r.Q, w.rq.Modulus)
	do(c.P, r.P, w.rp.Modulus)
	return w.ntt(r)
}

// P*s in the moduli of digit i, 0 elsewhere
func (w *kgWorld) gad(s rlwe.PolyQP, i int) rlwe.PolyQP {
	r := w.par.RingQP().NewPoly()
	bp := prodOf(w.rp.Modulus)
	for j := i * w.alpha; j < (i+1)*w.alpha && j <= w.lq(); j++ {
		q := w.rq.Modulus[j]
		pm := new(big.Int).Mod(bp, new(big.Int).SetUint64(q)).Uint64()
		for k := range r.Q.Coeffs[j] {
			r.Q.Coeffs[j][k] = mulmod(pm, s.Q.Coeffs[j][k], q)
		}
	}
	return r
}

func (w *kgWorld) describeSecret(nm string, sk *mkrlwe.SecretKey) {
	w.describe(nm, 0, 0, w.inv(w.secret(sk)), w.lq(), w.lp())
}

func (w *kgWorld) want(id string, p int) {
	if id != w.names[p] {
		w.idok = false
	}
}

func powMod2N(k, N int) uint64 {
	g := uint64(1)
	for i := 0; i < k; i++ {
		g = g * 5 % uint64(2*N)
	}
	return g
}

func (w *kgWorld) rotKey(rk *mkrlwe.RotationKey, p, amt int) {
	N := w.par.N()
	w.want(rk.ID, p)
	norm := ((amt % (N / 2)) + N/2) % (N / 2)
	if int(rk.RotIdx) != norm {
		w.amok = false
	}
	s := w.secret(w.sk[p])
	s1 := w.autom(s, powMod2N(N/2-norm, N)) // 5^-amt
	for i := 0; i < w.beta; i++ {
		a := w.invM(w.par.CRS[norm].Value[i])
		v := w.invM(rk.Value.Value[i])
		w.describe("rk", i, norm, w.inv(w.sub(w.add(v, w.mul(a, s1)), w.gad(s, i))), w.lq(), w.lp())
	}
}

func (w *kgWorld) exec(op kgOp) {
	var kg *mkrlwe.KeyGenerator
	var enc *mkckks.Encryptor
	switch op.Nm {
	case "newkg", "newenc", "addcrs":
	case "enc", "roundtrip":
		enc = w.encs[op.O-1]
	default:
		kg = w.kgs[op.O-1]
	}
	id := w.names[op.P]
	N := w.par.N()
	gen := func(kg *mkrlwe.KeyGenerator, d string) *mkrlwe.SecretKey {
		switch d {
		case "p10":
			return kg.GenSecretKeyWithDistrib(0.1, id)
		case "p33":
			return kg.GenSecretKeyWithDistrib(1.0/3, id)
		case "p80":
			return kg.GenSecretKeyWithDistrib(0.8, id)
		case "sparse1":
			return kg.GenSecretKeySparse(1, id)
		case "sparse8":
			return kg.GenSecretKeySparse(8, id)
		case "sparseN":
			return kg.GenSecretKeySparse(N, id)
		case "gauss":
			return kg.GenSecretKeyGaussian(id)
		}
		return kg.GenSecretKey(id)
	}
	pubkey := func(pk *mkrlwe.PublicKey) {
		w.want(pk.ID, op.P)
		s := w.secret(w.sk[op.P])
		w.describe("pk", 0, 0, w.inv(w.add(pk.Value[0], w.mul(pk.Value[1], s))), w.lq(), w.lp())
		// the mask is the reference string's first element
		w.describe("pkc", 0, 0, w.inv(w.add(pk.Value[0], w.mul(w.par.CRS[0].Value[0], s))), w.lq(), w.lp())
		w.pk[op.P] = pk
	}
	switch op.Nm {
	case "newkg":
		w.kgs = append(w.kgs, mkrlwe.NewKeyGenerator(w.par))
	case "newenc":
		w.encs = append(w.encs, mkckks.NewEncryptor(w.ck))
	case "gensk":
		sk := gen(kg, op.S)
		w.want(sk.ID, op.P)
		w.sk[op.P] = sk
		delete(w.pk, op.P)
		w.describeSecret("s", sk)
	case "genpair", "genpairs":
		var sk *mkrlwe.SecretKey
		var pk *mkrlwe.PublicKey
		if op.Nm == "genpair" {
			sk, pk = kg.GenKeyPair(id)
		} else {
			sk, pk = kg.GenKeyPairSparse(map[string]int{"sparse1": 1, "sparse8": 8, "sparseN": N}[op.S], id)
		}
		w.want(sk.ID, op.P)
		w.sk[op.P] = sk
		w.describeSecret("s", sk)
		pubkey(pk)
	case "genpk":
		pubkey(kg.GenPublicKey(w.sk[op.P]))
	case "generr":
		if op.S != "over" || w.oldErr == nil {
			e := w.par.RingQP().NewPoly()
			w.oldErr = &e
		}
		e := *w.oldErr
		kg.GenGaussianError(e)
		w.describe("e", 0, 0, w.inv(e), w.lq(), w.lp())
	case "genswk":
		if op.S != "over" || w.oldSwk == nil {
			w.oldSwk = mkrlwe.NewSwitchingKey(w.par)
		}
		swk := w.oldSwk
		kg.GenSwitchingKey(w.sk[op.P], swk)
		s := w.secret(w.sk[op.P])
		for i := 0; i < w.beta; i++ {
			w.describe("swk", i, 0, w.inv(w.sub(w.invM(swk.Value[i]), w.gad(s, i))), w.lq(), w.lp())
		}
	case "genrlk":
		r := gen(kg, op.S)
		w.describeSecret("r", r)
		rlk := kg.GenRelinearizationKey(w.sk[op.P], r)
		w.want(rlk.ID, op.P)
		s, rr := w.secret(w.sk[op.P]), w.secret(r)
		for i := 0; i < w.beta; i++ {
			a, u := w.invM(w.par.CRS[0].Value[i]), w.invM(w.par.CRS[-1].Value[i])
			b, d, v := w.invM(rlk.Value[0].Value[i]), w.invM(rlk.Value[1].Value[i]), w.invM(rlk.Value[2].Value[i])
			w.describe("b", i, 0, w.inv(w.add(b, w.mul(s, a))), w.lq(), w.lp())
			w.describe("d", i, 0, w.inv(w.sub(w.add(d, w.mul(rr, a)), w.gad(s, i))), w.lq(), w.lp())
			w.describe("v", i, 0, w.inv(w.add(w.add(v, w.mul(s, u)), w.gad(rr, i))), w.lq(), w.lp())
		}
	case "genrk":
		amt := w.amts[op.A]
		if w.rng.Intn(3) == 0 {
			amt -= N / 2
		}
		w.rotKey(kg.GenRotationKey(amt, w.sk[op.P]), op.P, amt)
	case "gendef":
		if op.S != "over" || w.oldSet == nil {
			w.oldSet = mkrlwe.NewRotationKeySet()
			w.inSet = map[string]bool{}
		}
		set := w.oldSet
		w.inSet[id] = true
		kg.GenDefaultRotationKeys(w.sk[op.P], set)
		n := 0
		for k := 1; k < N/2; k *= 2 {
			n++
			w.rotKey(set.GetRotationKey(id, uint(k)), op.P, k)
		}
		if len(set.Value) != len(w.inSet) || len(set.Value[id]) != n {
			w.amok = false
		}
	case "genck":
		ck := kg.GenConjugationKey(w.sk[op.P])
		w.want(ck.ID, op.P)
		s := w.secret(w.sk[op.P])
		s1 := w.autom(s, uint64(2*N-1))
		for i := 0; i < w.beta; i++ {
			a := w.invM(w.par.CRS[-2].Value[i])
			w.describe("ck", i, 0, w.inv(w.sub(w.add(w.invM(ck.Value.Value[i]), w.mul(a, s)), w.gad(s1, i))), w.lq(), w.lp())
		}
	case "addcrs":
		w.par.AddCRS(w.amts[op.A])
		for i, v := range w.par.CRS[w.amts[op.A]].Value {
			w.describeCRS(w.amts[op.A], i, v)
		}
	case "enc":
		w.encrypt(enc, op)
	case "roundtrip":
		w.roundtrip(enc, op)
	}
}

// ciphertext of the given route and level; m is the plaintext (coefficient domain) it must contain
func (w *kgWorld) encCt(enc *mkckks.Encryptor, op kgOp, pk *mkrlwe.PublicKey, msg *mkckks.Message) (ct *mkckks.Ciphertext, pt *ckks.Plaintext) {
	lvl := op.A
	if lvl > w.lq() {
		lvl = w.lq()
	}
	ids := mkrlwe.NewIDSet()
	ids.Add(pk.ID)
	pt = enc.EncodeMsgNew(msg)
	switch op.S {
	case "rlwe", "rlwentt":
		c := mkrlwe.NewCiphertext(w.par, ids, lvl)
		if op.S == "rlwentt" {
			c = mkrlwe.NewCiphertextNTT(w.par, ids, lvl)
		}
		enc.Encryptor.Encrypt(&rlwe.Plaintext{Value: pt.Value}, pk, c)
		ct = &mkckks.Ciphertext{Ciphertext: c, Scale: pt.Scale}
	case "ptxt", "ptxtcoeff":
		ct = mkckks.NewCiphertext(w.ck, ids, lvl, w.ck.Scale())
		if op.S == "ptxtcoeff" {
			p2 := &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: pt.Value.CopyNew()}, Scale: pt.Scale}
			if p2.Value.IsNTT {
				w.rq.InvNTT(p2.Value, p2.Value)
				p2.Value.IsNTT = false
			}
			enc.EncryptPtxt(p2, pk, ct)
		} else {
			enc.EncryptPtxt(pt, pk, ct)
		}
	case "msg":
		ct = mkckks.NewCiphertext(w.ck, ids, lvl, w.ck.Scale())
		enc.EncryptMsg(msg, pk, ct)
	case "expand":
		ids.Add(w.names[len(w.names)-1])
		ct = enc.EncryptMsgNewExpand(msg, pk, ids)
	default:
		ct = enc.EncryptMsgNew(msg, pk)
	}
	return
}

func (w *kgWorld) coeffPart(p *ring.Poly) *ring.Poly {
	r := p.CopyNew()
	if p.IsNTT {
		w.rq.InvNTTLvl(len(p.Coeffs)-1, r, r)
	}
	return r
}

// an encryption of 0 under the "public key" (B, B), B a large constant: both parts are B*u plus their error
func (w *kgWorld) encrypt(enc *mkckks.Encryptor, op kgOp) {
	const B = 1 << 24
	id := w.names[op.P]
	pk := mkrlwe.NewPublicKey(w.par, id)
	for i := 0; i < 2; i++ {
		for j := range pk.Value[i].Q.Coeffs {
			pk.Value[i].Q.Coeffs[j][0] = B
		}
		for j := range pk.Value[i].P.Coeffs {
			pk.Value[i].P.Coeffs[j][0] = B
		}
		pk.Value[i] = w.ntt(pk.Value[i])
	}
	ct, _ := w.encCt(enc, op, pk, mkckks.NewMessage(w.ck))
	N := w.par.N()
	u := [2]*ring.Poly{}
	e := [2]*ring.Poly{}
	for t, key := range []string{"0", id} {
		c := w.coeffPart(ct.Value[key])
		L := len(c.Coeffs)
		u[t], e[t] = ring.NewPoly(N, L), ring.NewPoly(N, L)
		for j := 0; j < L; j++ {
			q := w.rq.Modulus[j]
			for k := 0; k < N; k++ {
				x := int64(c.Coeffs[j][k] % q)
				if uint64(x) > q/2 {
					x -= int64(q)
				}
				m := (x + B/2) >> 24
				r := x - m*B
				u[t].Coeffs[j][k] = uint64(m+int64(q)) % q
				e[t].Coeffs[j][k] = uint64(r+int64(q)) % q
			}
		}
	}
	L := len(u[0].Coeffs)
	w.describe("u", 0, 0, rlwe.PolyQP{Q: u[0]}, L-1, -1)
	// the same mask in both parts, or the ciphertext decrypts to nothing
	h0, h1 := newHasher(), newHasher()
	h0.poly(u[0])
	h1.poly(u[1])
	if h0 != h1 {
		w.comps[len(w.comps)-1].Cons = 0
	}
	w.describe("e0", 0, 0, rlwe.PolyQP{Q: e[0]}, L-1, -1)
	w.describe("e1", 0, 0, rlwe.PolyQP{Q: e[1]}, L-1, -1)
}

func (w *kgWorld) roundtrip(enc *mkckks.Encryptor, op kgOp) {
	msg := mkckks.NewMessage(w.ck)
	for i := range msg.Value {
		msg.Value[i] = complex(w.rng.Float64()*2-1, w.rng.Float64()*2-1)
	}
	pk, sk := w.pk[op.P], w.sk[op.P]
	ct, pt := w.encCt(enc, op, pk, msg)
	L := len(ct.Value["0"].Coeffs)
	s := w.secret(sk)
	c0, c1 := w.coeffPart(ct.Value["0"]), w.coeffPart(ct.Value[w.names[op.P]])
	w.rq.NTTLvl(L-1, c0, c0)
	w.rq.NTTLvl(L-1, c1, c1)
	w.rq.MFormLvl(L-1, c1, c1)
	w.rq.MulCoeffsMontgomeryAndAddLvl(L-1, c1, s.Q, c0)
	m := w.coeffPart(pt.Value)
	w.rq.NTTLvl(L-1, m, m)
	w.rq.SubLvl(L-1, c0, m, c0)
	w.rq.InvNTTLvl(L-1, c0, c0)
	w.describe("noise", 0, 0, rlwe.PolyQP{Q: c0}, L-1, -1)
}

func runKeyTrace(inp, outp string) {
	var in kgInput
	readJSON(inp, &in)
	var events []kgEvent
	rng := rand.New(rand.NewSource(in.Seed))
	for hi, hist := range in.Hist {
		w := &kgWorld{in: &in, sk: map[int]*mkrlwe.SecretKey{}, pk: map[int]*mkrlwe.PublicKey{}, rng: rng}
		w.ckpar, w.ck = in.Ring.params()
		if in.Gamma > 0 {
			w.ck.Parameters = mkrlwe.NewParameters(w.ckpar.Parameters, in.Gamma)
		}
		w.par = w.ck.Parameters
		w.rq, w.rp = w.par.RingQ(), w.par.RingP()
		w.alpha = w.par.PCount() / w.par.Gamma()
		w.beta = (w.par.QCount() + w.alpha - 1) / w.alpha
		w.names = idNames[(in.Names+hi)%len(idNames)]
		N := w.par.N()
		np2 := 0
		w.amts = []int{0}
		for k := 1; k < N/2; k *= 2 {
			np2++
		}
		// model amounts: 1, 2: defaults; the others are not powers of two
		other := 5 + rng.Intn(N/2-10)
		for other == N/4 || other == N/4+3 || other&(other-1) == 0 {
			other++
		}
		w.amts = append(w.amts, 1, N/4, 3, N/2-1, other, N/4+3)
		emit := func(op kgOp, f func()) bool {
			w.comps = []kgComp{}
			w.idok, w.amok = true, true
			pan, msg := try(f)
			ev := kgEvent{Op: op, Out: "ok", Beta: w.beta, Deg: N, Sig: int(10*w.ckpar.Sigma() + 0.5), Np2: np2, Comps: w.comps, ID: 1, Amt: 1}
			if pan {
				ev.Out, ev.Msg = "panic", msg
			}
			if !w.idok {
				ev.ID = 0
			}
			if !w.amok {
				ev.Amt = 0
			}
			events = append(events, ev)
			return !pan
		}
		emit(kgOp{Nm: "process"}, func() {})
		ok := emit(kgOp{Nm: "params"}, func() {
			for idx, e := range w.par.CRS {
				for i, v := range e.Value {
					w.describeCRS(idx, i, v)
				}
			}
		})
		for _, op := range hist {
			if !ok {
				break
			}
			op := op
			ok = emit(op, func() { w.exec(op) })
		}
	}
	b, err := json.Marshal(events)
	if err != nil {
		fatal("%v", err)
	}
	writeFile(outp, b)
}

func init() { modes["keytrace"] = runKeyTrace }
