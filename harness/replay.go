package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

// ---- behaviours as the specification writes them --------------------------

type SymScale struct {
	T  int            `json:"t"`
	Th int            `json:"th"`
	Q  map[string]int `json:"q"`
	Ap bool           `json:"ap"`
}

type SpecCt struct {
	On  bool     `json:"on"`
	Ids []int    `json:"ids"`
	Lvl int      `json:"lvl"`
	Sc  SymScale `json:"sc"`
	V   [][2]int `json:"v"`
	Den int      `json:"den"`
	Eb  int      `json:"eb"`
	Rb  int      `json:"rb"`
	NTT bool     `json:"ntt"`
}

type SpecMsg struct {
	V     [][2]int `json:"v"`
	Den   int      `json:"den"`
	Short bool     `json:"short"`
}

type Const struct {
	Re, Im, Den int
}

type Target struct {
	E    int    `json:"e"`
	Th   int    `json:"th"`
	Edge string `json:"edge"`
}

type Op struct {
	Nm   string   `json:"nm"`
	Out  string   `json:"out"`
	How  string   `json:"how"`
	D    int      `json:"d"`
	A    int      `json:"a"`
	B    int      `json:"b"`
	H    int      `json:"h"`
	Ha   int      `json:"ha"`
	Hb   int      `json:"hb"`
	T    int      `json:"t"`
	P    int      `json:"p"`
	P2   int      `json:"q"`
	M2   SpecMsg  `json:"m2"`
	K    int      `json:"k"`
	Keys string   `json:"keys"`
	Dist string   `json:"dist"`
	Msg  SpecMsg  `json:"msg"`
	Ids  []int    `json:"ids"`
	Ks   []int    `json:"ks"`
	Lv   int      `json:"lv"`
	Dom  string   `json:"dom"`
	Ty   string   `json:"ty"`
	C    Const    `json:"c"`
	Sc   SymScale `json:"sc"`
	Tg   Target   `json:"tg"`
	R    SpecCt   `json:"r"`
	Kind string   `json:"kind"`
	Jobs []Op     `json:"jobs"`
}

// ---- the real system --------------------------------------------------------

type party struct {
	id   string
	sk   *mkrlwe.SecretKey
	skC  *ring.Poly // private copy for the reference decryption
	pk   *mkrlwe.PublicKey
	rlk  *mkrlwe.RelinearizationKey
	cjk  *mkrlwe.ConjugationKey
	rk   map[int]*mkrlwe.RotationKey
	dist string
}

type world struct {
	cfg    RingCfg
	ckp    ckks.Parameters
	params mkckks.Parameters
	ringQ  *ring.Ring
	q      []uint64
	enc    ckks.Encoder // reference encoder/decoder
	kgen   *mkrlwe.KeyGenerator
	encr   *mkckks.Encryptor
	decr   *mkckks.Decryptor
	eval   *mkckks.Evaluator
	ksw    *mkrlwe.KeySwitcher
	sks    *mkrlwe.SecretKeySet
	pks    *mkrlwe.PublicKeySet
	rlks   *mkrlwe.RelinearizationKeySet
	rks    *mkrlwe.RotationKeySet
	cjks   *mkrlwe.ConjugationKeySet
	names  []string
	part   map[int]*party
	ct     map[int]*mkckks.Ciphertext
	ctD    map[int]uint64
	pt     map[int]*ckks.Plaintext
	ptD    map[int]uint64
	ho     map[int]*mkrlwe.HoistedCiphertext
	hoD    map[int]uint64
	keyD   uint64
	mask   []bool
	rng    *rand.Rand
	fresh  bool // compare with fresh objects
	checks int
	maxErr float64
	wks    []*worker
	other  *group
}

func newWorld(cfg RingCfg, seed int64, fresh bool) *world {
	w := &world{cfg: cfg}
	w.ckp, w.params = cfg.params()
	w.ringQ = w.ckp.RingQ()
	w.q = w.ringQ.Modulus
	w.enc = ckks.NewEncoder(w.ckp)
	w.kgen = mkckks.NewKeyGenerator(w.params)
	w.encr = mkckks.NewEncryptor(w.params)
	w.decr = mkckks.NewDecryptor(w.params)
	w.eval = mkckks.NewEvaluator(w.params)
	w.ksw = mkrlwe.NewKeySwitcher(w.params.Parameters)
	w.sks = mkrlwe.NewSecretKeySet()
	w.pks = mkrlwe.NewPublicKeyKeySet()
	w.rlks = mkrlwe.NewRelinearizationKeyKeySet(w.params.Parameters)
	w.rks = mkrlwe.NewRotationKeySet()
	w.cjks = mkrlwe.NewConjugationKeySet()
	w.part = map[int]*party{}
	w.ct, w.ctD = map[int]*mkckks.Ciphertext{}, map[int]uint64{}
	w.pt, w.ptD = map[int]*ckks.Plaintext{}, map[int]uint64{}
	w.ho, w.hoD = map[int]*mkrlwe.HoistedCiphertext{}, map[int]uint64{}
	w.rng = rand.New(rand.NewSource(seed))
	w.names = append([]string(nil), idNames[w.rng.Intn(len(idNames))]...)
	for i := len(w.names); i < 64; i++ {
		w.names = append(w.names, w.names[i%10+1]+"~"+strconv.Itoa(i))
	}
	w.fresh = fresh
	w.maxErr = -999
	w.mask = make([]bool, cfg.Stride)
	for i := range w.mask {
		w.mask[i] = cfg.Stride == 1 || w.rng.Intn(4) != 0
	}
	w.mask[w.rng.Intn(cfg.Stride)] = true
	w.keyD = w.keyDigest()
	return w
}

func (w *world) slots() int { return 1 << uint(w.cfg.LogSlots) }

// a model vector laid out in the real slots: each model slot is a block of Stride real slots
func (w *world) spread(v [][2]int, den int) []complex128 {
	out := make([]complex128, w.slots())
	f := math.Exp2(float64(-den))
	for i := range v {
		for j := 0; j < w.cfg.Stride; j++ {
			if w.mask[j] {
				out[i*w.cfg.Stride+j] = complex(float64(v[i][0])*f, float64(v[i][1])*f)
			}
		}
	}
	return out
}

func (w *world) msg(v SpecMsg) *mkckks.Message {
	m := mkckks.NewMessage(w.params)
	copy(m.Value, w.spread(v.V, v.Den))
	// a message may list fewer values than there are slots: the others are zero
	if v.Short {
		n := len(m.Value)
		for n > 0 && m.Value[n-1] == 0 {
			n--
		}
		m.Value = m.Value[:n:n]
	}
	return m
}

func (w *world) scaleOf(s SymScale) float64 {
	f := new(big.Float).SetPrec(200).SetInt64(1)
	mul := func(x *big.Float, e int) {
		for ; e > 0; e-- {
			f.Mul(f, x)
		}
		for ; e < 0; e++ {
			f.Quo(f, x)
		}
	}
	mul(big.NewFloat(2), s.T)
	mul(big.NewFloat(3), s.Th)
	for k, e := range s.Q {
		i, _ := strconv.Atoi(k)
		mul(new(big.Float).SetPrec(200).SetUint64(w.q[i]), e)
	}
	r, _ := f.Float64()
	return r
}

func (w *world) idset(ids []int) *mkrlwe.IDSet {
	s := mkrlwe.NewIDSet()
	for _, p := range ids {
		s.Add(w.names[p])
	}
	return s
}

func (w *world) skset(ps []int) *mkrlwe.SecretKeySet {
	s := mkrlwe.NewSecretKeySet()
	for _, p := range ps {
		s.AddSecretKey(w.part[p].sk)
	}
	return s
}

// reference decryption, independent of the code under test
func (w *world) phase(ct *mkckks.Ciphertext) (*ring.Poly, error) {
	lvl := ct.Level()
	acc := w.ringQ.NewPolyLvl(lvl)
	c0, ok := ct.Value["0"]
	if !ok || c0 == nil {
		return nil, fmt.Errorf("ciphertext without constant part")
	}
	w.ringQ.ReduceLvl(lvl, c0, acc)
	if c0.IsNTT {
		w.ringQ.InvNTTLvl(lvl, acc, acc)
	}
	tmp := w.ringQ.NewPolyLvl(lvl)
	for id, c := range ct.Value {
		if id == "0" {
			continue
		}
		if c.Level() != lvl {
			return nil, fmt.Errorf("share of %q has level %d, ciphertext has level %d", id, c.Level(), lvl)
		}
		var p *party
		for _, x := range w.part {
			if x.id == id {
				p = x
			}
		}
		if p == nil {
			return nil, fmt.Errorf("share of unknown identity %q", id)
		}
		w.ringQ.ReduceLvl(lvl, c, tmp)
		if !c.IsNTT {
			w.ringQ.NTTLvl(lvl, tmp, tmp)
		}
		w.ringQ.MulCoeffsMontgomeryLvl(lvl, tmp, p.skC, tmp)
		w.ringQ.InvNTTLvl(lvl, tmp, tmp)
		w.ringQ.AddLvl(lvl, acc, tmp, acc)
	}
	return acc, nil
}

func (w *world) decode(p *ring.Poly, scale float64) []complex128 {
	pl := &ckks.Plaintext{Plaintext: &rlwe.Plaintext{Value: p}, Scale: scale}
	p.IsNTT = false
	return w.enc.Decode(pl, w.cfg.LogSlots)
}

// tolerance of the specification for a ciphertext
func (w *world) tol(e SpecCt) float64 {
	m := 0
	for _, x := range e.V {
		for _, y := range x {
			if y < 0 {
				y = -y
			}
			if y > m {
				m = y
			}
		}
	}
	mag := math.Max(float64(m), 1) * math.Exp2(float64(-e.Den))
	t := math.Exp2(float64(e.Eb)) / w.scaleOf(e.Sc)
	t += mag * math.Exp2(-40)
	if e.Rb > -900 {
		t += math.Exp2(float64(e.Rb))
	}
	return t
}

func (w *world) compare(got []complex128, e SpecCt, what string) error {
	want := w.spread(e.V, e.Den)
	if len(got) != len(want) {
		return fmt.Errorf("%s has %d slots, expected %d", what, len(got), len(want))
	}
	tol := w.tol(e)
	worst := 0.0
	for i := range want {
		d := cmplx.Abs(got[i] - want[i])
		if d > worst || math.IsNaN(d) {
			worst = d
		}
		if math.IsNaN(d) || d > tol {
			return fmt.Errorf("%s decrypts to %.6g in slot %d, the specification says %.6g (error 2^%.1f, allowed 2^%.1f)", what, got[i], i, want[i], math.Log2(d), math.Log2(tol))
		}
	}
	w.checks++
	if r := math.Log2(worst / tol); r > w.maxErr {
		w.maxErr = r
	}
	return nil
}

// verify compares a real ciphertext with the specification's
func (w *world) verify(ct *mkckks.Ciphertext, e SpecCt, what string) error {
	if ct == nil || ct.Ciphertext == nil {
		return fmt.Errorf("%s is nil", what)
	}
	if ct.Level() != e.Lvl {
		return fmt.Errorf("%s has level %d, the specification says %d", what, ct.Level(), e.Lvl)
	}
	want := []string{}
	for _, p := range e.Ids {
		want = append(want, w.names[p])
	}
	sort.Strings(want)
	if got := idsOf(ct.IDSet()); !eqStrings(got, want) {
		return fmt.Errorf("%s has participants %q, the specification says %q", what, got, want)
	}
	if !e.NTT {
		sc := w.scaleOf(e.Sc)
		rt := 1e-9
		if e.Sc.Ap {
			rt = math.Exp2(-16)
		}
		if !(math.Abs(ct.ScalingFactor()/sc-1) <= rt) {
			return fmt.Errorf("%s has scale 2^%.3f, the specification says 2^%.3f", what, math.Log2(ct.ScalingFactor()), math.Log2(sc))
		}
	}
	ph, err := w.phase(ct)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	sc := ct.ScalingFactor()
	if e.NTT {
		sc = w.scaleOf(e.Sc)
	}
	return w.compare(w.decode(ph, sc), e, what)
}

// ---- frame -------------------------------------------------------------------

func (w *world) keyDigest() uint64 {
	h := newHasher()
	ps := []int{}
	for p := range w.part {
		ps = append(ps, p)
	}
	sort.Ints(ps)
	for _, p := range ps {
		x := w.part[p]
		h.str(x.sk.ID)
		h.str(x.pk.ID)
		h.poly(x.sk.Value.Q)
		h.poly(x.sk.Value.P)
		for i := 0; i < 2; i++ {
			h.poly(x.pk.Value[i].Q)
			h.poly(x.pk.Value[i].P)
		}
		if w.cfg.Heavy {
			continue
		}
		if x.rlk != nil {
			h.str(x.rlk.ID)
			for i := 0; i < 3; i++ {
				h.swk(x.rlk.Value[i])
			}
		}
		if x.cjk != nil {
			h.str(x.cjk.ID)
			h.swk(x.cjk.Value)
		}
		ks := []int{}
		for k := range x.rk {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			h.word(uint64(x.rk[k].RotIdx))
			h.str(x.rk[k].ID)
			h.swk(x.rk[k].Value)
		}
	}
	if !w.cfg.Heavy {
		ks := []int{}
		for k := range w.params.CRS {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			h.word(uint64(int64(k)))
			h.swk(w.params.CRS[k])
		}
	}
	return uint64(h)
}

// everything that was not declared as a result is bit-for-bit what it was
func (w *world) frame(except int, exHo, exPt int, keysMayGrow bool) error {
	for r, c := range w.ct {
		if r != except && ctDigest(c) != w.ctD[r] {
			return fmt.Errorf("ciphertext register %d was changed by an operation on other objects", r)
		}
	}
	for r, c := range w.ho {
		if r != exHo && hoDigest(c) != w.hoD[r] {
			return fmt.Errorf("hoisted form %d was changed by an operation on other objects", r)
		}
	}
	for r, c := range w.pt {
		if r != exPt && ptDigest(c) != w.ptD[r] {
			return fmt.Errorf("plaintext %d was changed by an operation on other objects", r)
		}
	}
	d := w.keyDigest()
	if !keysMayGrow && d != w.keyD {
		return fmt.Errorf("key material or the reference string was changed by an operation that does not generate keys")
	}
	w.keyD = d
	w.checks++
	return nil
}

// a new result shares no storage with any other live object
func (w *world) unshared(rows func(func(uintptr)), except int, exHo int) error {
	mine := map[uintptr]bool{}
	dup := false
	rows(func(a uintptr) {
		if mine[a] {
			dup = true
		}
		mine[a] = true
	})
	if dup {
		return fmt.Errorf("two parts of the result share storage")
	}
	clash := ""
	chk := func(what string) func(uintptr) {
		return func(a uintptr) {
			if mine[a] && clash == "" {
				clash = what
			}
		}
	}
	for r, c := range w.ct {
		if r != except {
			ctRows(c, chk(fmt.Sprintf("ciphertext register %d", r)))
		}
	}
	for r, c := range w.ho {
		if r != exHo {
			hoRows(c, chk(fmt.Sprintf("hoisted form %d", r)))
		}
	}
	for r, p := range w.pt {
		polyRows(p.Value, chk(fmt.Sprintf("plaintext %d", r)))
	}
	for _, x := range w.part {
		polyRows(x.sk.Value.Q, chk("a secret key"))
		for i := 0; i < 2; i++ {
			polyRows(x.pk.Value[i].Q, chk("a public key"))
		}
		if x.rlk != nil {
			for i := 0; i < 3; i++ {
				swkRows(x.rlk.Value[i], chk("a relinearization key"))
			}
		}
		if x.cjk != nil {
			swkRows(x.cjk.Value, chk("a conjugation key"))
		}
		for _, k := range x.rk {
			swkRows(k.Value, chk("a rotation key"))
		}
	}
	for _, s := range w.params.CRS {
		swkRows(s, chk("the reference string"))
	}
	hoistPools(w.rlks, func(h *mkrlwe.HoistedCiphertext) {
		hoRows(h, chk("the relinearization key set's scratch memory"))
	})
	if clash != "" {
		return fmt.Errorf("the result shares storage with %s", clash)
	}
	w.checks++
	return nil
}

// ---- steps ---------------------------------------------------------------------

func (w *world) genParty(p int, dist string, keys string) *party {
	x := &party{id: w.names[p], rk: map[int]*mkrlwe.RotationKey{}, dist: dist}
	switch dist {
	case "sparse":
		x.sk, x.pk = w.kgen.GenKeyPairSparse(w.params.N()/2, x.id)
	case "gauss":
		x.sk = w.kgen.GenSecretKeyGaussian(x.id)
		x.pk = w.kgen.GenPublicKey(x.sk)
	case "dist":
		x.sk = w.kgen.GenSecretKeyWithDistrib(0.3, x.id)
		x.pk = w.kgen.GenPublicKey(x.sk)
	default:
		x.sk, x.pk = w.kgen.GenKeyPair(x.id)
	}
	x.skC = x.sk.Value.Q.CopyNew()
	w.part[p] = x
	w.sks.AddSecretKey(x.sk)
	w.pks.AddPublicKey(x.pk)
	if keys == "all" {
		w.genRlk(x)
		w.genCjk(x)
		if w.cfg.Heavy {
			for k := w.cfg.Stride; k < w.params.N()/2; k *= 2 {
				w.addRk(x, w.kgen.GenRotationKey(k, x.sk))
			}
		} else {
			set := mkrlwe.NewRotationKeySet()
			w.kgen.GenDefaultRotationKeys(x.sk, set)
			for _, rk := range set.Value[x.id] {
				w.addRk(x, rk)
			}
		}
	}
	return x
}

func (w *world) genRlk(x *party) {
	r := w.kgen.GenSecretKey(x.id)
	x.rlk = w.kgen.GenRelinearizationKey(x.sk, r)
	w.rlks.AddRelinearizationKey(x.rlk)
}
func (w *world) genCjk(x *party) {
	x.cjk = w.kgen.GenConjugationKey(x.sk)
	w.cjks.AddConjugationKey(x.cjk)
}
func (w *world) addRk(x *party, rk *mkrlwe.RotationKey) {
	x.rk[int(rk.RotIdx)] = rk
	w.rks.AddRotationKey(rk)
}

func cval(c Const) complex128 {
	f := math.Exp2(float64(-c.Den))
	return complex(float64(c.Re)*f, float64(c.Im)*f)
}

func constant(c Const, ty string) interface{} {
	v := cval(c)
	switch ty {
	case "int":
		return int(real(v))
	case "int64":
		return int64(real(v))
	case "uint64":
		return uint64(real(v))
	case "float64":
		return real(v)
	}
	return v
}

func (w *world) encode(m SpecMsg, sc SymScale, lvl int, ntt bool) *ckks.Plaintext {
	pl := ckks.NewPlaintext(w.ckp, lvl, w.scaleOf(sc))
	if ntt {
		w.enc.EncodeNTT(pl, w.spread(m.V, m.Den), w.cfg.LogSlots)
	} else {
		w.enc.Encode(pl, w.spread(m.V, m.Den), w.cfg.LogSlots)
	}
	return pl
}

func (w *world) scribblePoly(p *ring.Poly) {
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = w.rng.Uint64() % w.q[i%len(w.q)]
		}
	}
}

func (w *world) put(r int, c *mkckks.Ciphertext) {
	if c == nil {
		delete(w.ct, r)
		delete(w.ctD, r)
		return
	}
	w.ct[r] = c
	w.ctD[r] = ctDigest(c)
}

// the ciphertext a generic-layer operation writes into: a new one, or one used before
// (a private copy of it when the operation is repeated for comparison)
func (w *world) into(o *Op, ids *mkrlwe.IDSet, scale float64, again bool) *mkckks.Ciphertext {
	if o.How != "reuse" {
		return mkckks.NewCiphertext(w.params, ids, o.Lv, scale)
	}
	out := w.ct[o.D]
	if again {
		out = mkckks.NewCiphertext(w.params, ids, o.Lv, scale)
		for _, p := range out.Value {
			w.scribblePoly(p)
		}
	}
	out.SetScalingFactor(scale)
	return out
}

// product on the generic layer, rescaled as mkckks does it
func (w *world) mulKs(o *Op, eval *mkckks.Evaluator, ksw *mkrlwe.KeySwitcher, rlks *mkrlwe.RelinearizationKeySet, again bool) *mkckks.Ciphertext {
	a, b := w.ct[o.A], w.ct[o.B]
	out := w.into(o, a.IDSet().Union(b.IDSet()), a.Scale*b.Scale, again)
	if o.Nm == "mulks" {
		ksw.MulAndRelin(a.Ciphertext, b.Ciphertext, rlks, out.Ciphertext)
	} else {
		ha, hb := w.hoisted(o)
		ksw.MulAndRelinHoisted(a.Ciphertext, b.Ciphertext, ha, hb, rlks, out.Ciphertext)
	}
	if o.Lv > 0 {
		if err := eval.Rescale(out, w.params.Scale(), out); err != nil {
			panic(err)
		}
	}
	return out
}

func (w *world) hoisted(o *Op) (ha, hb *mkrlwe.HoistedCiphertext) {
	if o.Ha != 0 {
		ha = w.ho[o.Ha]
	}
	if o.Hb != 0 {
		hb = w.ho[o.Hb]
	}
	return
}

// pure runs a deterministic operation that creates a new ciphertext
func (w *world) pure(o *Op, eval *mkckks.Evaluator, ksw *mkrlwe.KeySwitcher, rlks *mkrlwe.RelinearizationKeySet, again bool) *mkckks.Ciphertext {
	T := w.cfg.Stride
	switch o.Nm {
	case "add":
		return eval.AddNew(w.ct[o.A], w.ct[o.B])
	case "sub":
		return eval.SubNew(w.ct[o.A], w.ct[o.B])
	case "mul":
		return eval.MulRelinNew(w.ct[o.A], w.ct[o.B], rlks)
	case "mulks", "mulhks":
		return w.mulKs(o, eval, ksw, rlks, again)
	case "mulh":
		ha, hb := w.hoisted(o)
		return eval.MulRelinHoistedNew(w.ct[o.A], w.ct[o.B], ha, hb, rlks)
	case "roth":
		return eval.RotateHoistedNew(w.ct[o.A], o.K*T, w.ho[o.H], w.rks)
	case "rot":
		return eval.RotateNew(w.ct[o.A], o.K*T, w.rks)
	case "rotks":
		a := w.ct[o.A]
		out := w.into(o, a.IDSet(), a.Scale, again)
		ksw.Rotate(a.Ciphertext, o.K*T, w.rks, out.Ciphertext)
		return out
	case "rothks":
		a := w.ct[o.A]
		out := w.into(o, a.IDSet(), a.Scale, again)
		ksw.RotateHoisted(a.Ciphertext, o.K*T, w.ho[o.H], w.rks, out.Ciphertext)
		return out
	case "conjks":
		a := w.ct[o.A]
		out := w.into(o, a.IDSet(), a.Scale, again)
		ksw.Conjugate(a.Ciphertext, w.cjks, out.Ciphertext)
		return out
	case "conj":
		return eval.ConjugateNew(w.ct[o.A], w.cjks)
	case "mulpt":
		return eval.MulPtxtNew(w.ct[o.A], w.pt[o.T])
	}
	return nil
}

// a new relinearization key set with the keys currently registered
func (w *world) freshRlks(o *Op) *mkrlwe.RelinearizationKeySet {
	switch o.Nm {
	case "mul", "mulks", "mulh", "mulhks":
	default:
		return w.rlks
	}
	s := mkrlwe.NewRelinearizationKeyKeySet(w.params.Parameters)
	for _, x := range w.part {
		if x.rlk != nil {
			s.AddRelinearizationKey(x.rlk)
		}
	}
	return s
}

// the scale a ciphertext is to be rescaled to
func (w *world) target(a *mkckks.Ciphertext, t Target) float64 {
	if t.Edge == "" || a.Level() == 0 {
		return math.Exp2(float64(t.E)) * math.Pow(3, float64(t.Th))
	}
	x := 2 * (a.ScalingFactor() / float64(w.q[a.Level()]))
	switch t.Edge {
	case "below":
		x *= 1 - math.Exp2(-20)
	case "above":
		x *= 1 + math.Exp2(-20)
	}
	return x
}

// ---- another group of parties, using the same objects under the same identities ----

type group struct {
	part map[int]*party
	sks  *mkrlwe.SecretKeySet
	rlks *mkrlwe.RelinearizationKeySet
	rks  *mkrlwe.RotationKeySet
	cjks *mkrlwe.ConjugationKeySet
}

func (w *world) member(p int) *party {
	if w.other == nil {
		w.other = &group{part: map[int]*party{}, sks: mkrlwe.NewSecretKeySet(), rlks: mkrlwe.NewRelinearizationKeyKeySet(w.params.Parameters),
			rks: mkrlwe.NewRotationKeySet(), cjks: mkrlwe.NewConjugationKeySet()}
	}
	g := w.other
	x := g.part[p]
	if x == nil {
		x = &party{id: w.names[p]}
		x.sk, x.pk = w.kgen.GenKeyPair(x.id)
		g.part[p] = x
		g.sks.AddSecretKey(x.sk)
		g.rlks.AddRelinearizationKey(w.kgen.GenRelinearizationKey(x.sk, w.kgen.GenSecretKey(x.id)))
		g.cjks.AddConjugationKey(w.kgen.GenConjugationKey(x.sk))
		w.kgen.GenDefaultRotationKeys(x.sk, g.rks)
	}
	return x
}

// otherGroup: the product of two encryptions, rotated and conjugated, decrypted by the other group
func (w *world) otherGroup(o *Op) []complex128 {
	a := w.encr.EncryptMsgNew(w.msg(o.Msg), w.member(o.P).pk)
	b := w.encr.EncryptMsgNew(w.msg(o.M2), w.member(o.P2).pk)
	g := w.other
	c := w.eval.MulRelinNew(a, b, g.rlks)
	c = w.eval.RotateNew(c, o.K*w.cfg.Stride, g.rks)
	c = w.eval.ConjugateNew(c, g.cjks)
	return w.decr.Decrypt(c, g.sks).Value
}

// ---- work done at the same time -----------------------------------------------

// objects of one worker
type worker struct {
	kgen *mkrlwe.KeyGenerator
	encr *mkckks.Encryptor
	decr *mkckks.Decryptor
	eval *mkckks.Evaluator
	rlks *mkrlwe.RelinearizationKeySet
}

func (w *world) worker(i int) *worker {
	for len(w.wks) <= i {
		w.wks = append(w.wks, &worker{kgen: mkckks.NewKeyGenerator(w.params), encr: mkckks.NewEncryptor(w.params),
			decr: mkckks.NewDecryptor(w.params), eval: mkckks.NewEvaluator(w.params)})
	}
	k := w.wks[i]
	k.rlks = w.freshRlks(&Op{Nm: "mul"})
	return k
}

// job prepares one job for a worker: the returned function may run beside the others
// (a job that only computes is repeated: reps)
func (w *world) job(o *Op, k *worker) (run func() *mkckks.Ciphertext, post func() error, reps int) {
	reps = 4
	switch o.Nm {
	case "add", "sub", "mul", "mulh", "roth", "rot", "conj", "mulpt":
		return func() *mkckks.Ciphertext { return w.pure(o, k.eval, nil, k.rlks, false) }, nil, reps
	case "mulc":
		a, c := w.ct[o.A], constant(o.C, o.Ty)
		return func() *mkckks.Ciphertext {
			out := mkckks.NewCiphertext(w.params, a.IDSet(), a.Level(), 1)
			k.eval.MultByConst(a, c, out)
			return out
		}, nil, reps
	case "rescale":
		a := w.ct[o.A]
		min := w.target(a, o.Tg)
		return func() *mkckks.Ciphertext {
			out, err := k.eval.RescaleNew(a, min)
			if err != nil {
				panic(err)
			}
			return out
		}, nil, reps
	case "drop":
		a := w.ct[o.A]
		return func() *mkckks.Ciphertext { return k.eval.DropLevelNew(a, o.K) }, nil, reps
	case "enc":
		m, pk := w.msg(o.Msg), w.part[o.P].pk
		ids := w.idset(o.Ids)
		return func() *mkckks.Ciphertext {
			if o.How == "new" {
				return k.encr.EncryptMsgNew(m, pk)
			}
			return k.encr.EncryptMsgNewExpand(m, pk, ids)
		}, nil, 1
	case "pdec":
		a, sk, ntt := w.ct[o.A], w.part[o.P].sk, o.R.NTT
		return func() *mkckks.Ciphertext {
			c := a.CopyNew()
			if ntt {
				k.decr.Decryptor.PartialDecrypt(c.Ciphertext, sk)
			} else {
				k.decr.PartialDecrypt(c, sk)
			}
			return c
		}, nil, reps
	case "hoist":
		a := w.ct[o.A]
		var h *mkrlwe.HoistedCiphertext
		return func() *mkckks.Ciphertext { h = k.eval.HoistedForm(a); return nil }, func() error {
			if hoDigest(h) != hoDigest(w.eval.HoistedForm(a)) {
				return fmt.Errorf("the hoisted form is not the one obtained alone")
			}
			return nil
		}, reps
	case "encode":
		m := w.msg(o.Msg)
		var pl *ckks.Plaintext
		return func() *mkckks.Ciphertext { pl = k.encr.EncodeMsgNew(m); return nil }, func() error {
			e := SpecCt{V: o.Msg.V, Eb: 12, Rb: -1000, Sc: SymScale{T: w.cfg.ScaleB}, Den: o.Msg.Den}
			return w.compare(w.decode(pl.Value.CopyNew(), pl.Scale), e, "the encoded plaintext")
		}, reps
	case "dec":
		a, set := w.ct[o.A], w.skset(o.Ks)
		var m *mkckks.Message
		return func() *mkckks.Ciphertext { m = k.decr.Decrypt(a, set); return nil }, func() error { return w.compare(m.Value, o.R, "the decrypted message") }, reps
	case "regen":
		x := w.part[o.P]
		var rlk *mkrlwe.RelinearizationKey
		var cjk *mkrlwe.ConjugationKey
		var rk *mkrlwe.RotationKey
		return func() *mkckks.Ciphertext {
				switch o.Kind {
				case "rlk":
					r := k.kgen.GenSecretKey(x.id)
					rlk = k.kgen.GenRelinearizationKey(x.sk, r)
				case "cjk":
					cjk = k.kgen.GenConjugationKey(x.sk)
				case "rk":
					rk = k.kgen.GenRotationKey(o.K*w.cfg.Stride, x.sk)
				}
				return nil
			}, func() error {
				switch o.Kind {
				case "rlk":
					x.rlk = rlk
					w.rlks.AddRelinearizationKey(rlk)
				case "cjk":
					x.cjk = cjk
					w.cjks.AddConjugationKey(cjk)
				case "rk":
					w.addRk(x, rk)
				}
				w.keyD = w.keyDigest()
				return nil
			}, 1
	}
	fatal("operation %q cannot be done beside others", o.Nm)
	return nil, nil, 1
}

// stepPar performs the jobs at the same time, each by a worker with objects of its own
func (w *world) stepPar(o *Op) error {
	n := len(o.Jobs)
	runs := make([]func() *mkckks.Ciphertext, n)
	posts := make([]func() error, n)
	res := make([]*mkckks.Ciphertext, n)
	pans := make([]string, n)
	reps := make([]int, n)
	for i := range o.Jobs {
		runs[i], posts[i], reps[i] = w.job(&o.Jobs[i], w.worker(i))
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	q := w.params.RingQ().Modulus
	for i := range runs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-gate
			if p, msg := try(func() {
				for k := 0; k < reps[i]; k++ {
					c := runs[i]()
					if k > 0 && c != nil && ctCanon(c, q) != ctCanon(res[i], q) {
						panic("repeating it gives another result")
					}
					res[i] = c
				}
			}); p {
				pans[i] = "panic: " + msg
			}
		}(i)
	}
	close(gate)
	wg.Wait()
	if err := w.frame(0, 0, 0, false); err != nil {
		return err
	}
	for i := range o.Jobs {
		j := &o.Jobs[i]
		what := fmt.Sprintf("the result of job %d (%s), done beside others,", i+1, j.Nm)
		if pans[i] != "" {
			return fmt.Errorf("job %d (%s), done beside others, fails: %s", i+1, j.Nm, pans[i])
		}
		if posts[i] != nil {
			if err := posts[i](); err != nil {
				return fmt.Errorf("job %d (%s), done beside others: %v", i+1, j.Nm, err)
			}
		}
		if j.D == 0 {
			continue
		}
		if err := w.verify(res[i], j.R, what); err != nil {
			return err
		}
		c := res[i]
		if err := w.unshared(func(f func(uintptr)) { ctRows(c, f) }, 0, 0); err != nil {
			return fmt.Errorf("job %d: %v", i+1, err)
		}
		w.put(j.D, c)
	}
	return nil
}

// step performs one operation of the behaviour on the real code and checks everything the
// specification says about it. A non-nil error is a disagreement.
func (w *world) step(o *Op) error {
	if o.Nm == "par" {
		return w.stepPar(o)
	}
	var res *mkckks.Ciphertext // assigned to register o.D
	var post func() error
	var opErr error
	inPlace := false
	reuse := false // a given ciphertext receives the result, and may hold anything when refused
	exHo, exPt := 0, 0
	keyOp := false
	T := w.cfg.Stride
	var run func()

	switch o.Nm {
	case "join":
		keyOp = true
		run = func() { w.genParty(o.P, o.Dist, o.Keys) }
		post = func() error { w.keyD = w.keyDigest(); return nil }
	case "leave":
		run = func() {
			x := w.part[o.P]
			w.sks.DelSecretKey(x.id)
			w.pks.DelPublicKey(x.id)
			w.rlks.DelRelinearizationKey(x.id)
			w.cjks.DelConjugationKey(x.id)
			for k := range x.rk {
				w.rks.DelRotationKey(x.id, uint(k))
			}
		}
	case "return":
		run = func() {
			x := w.part[o.P]
			w.sks.AddSecretKey(x.sk)
			w.pks.AddPublicKey(x.pk)
			if x.rlk != nil {
				w.rlks.AddRelinearizationKey(x.rlk)
			}
			if x.cjk != nil {
				w.cjks.AddConjugationKey(x.cjk)
			}
			for _, rk := range x.rk {
				w.rks.AddRotationKey(rk)
			}
		}
	case "addcrs":
		keyOp = true
		before := w.keyDigest()
		_, had := w.params.CRS[o.K*T]
		run = func() { p := w.params; p.AddCRS(o.K * T) }
		post = func() error {
			s, in := w.params.CRS[o.K*T]
			if !in {
				return fmt.Errorf("the reference string does not cover amount %d after it was extended to it", o.K*T)
			}
			if !had {
				// everything else must be as it was
				delete(w.params.CRS, o.K*T)
				d := w.keyDigest()
				w.params.CRS[o.K*T] = s
				if d != before {
					return fmt.Errorf("extending the reference string to amount %d changed other key material", o.K*T)
				}
			}
			w.keyD = w.keyDigest()
			return nil
		}
	case "genrlk":
		keyOp = true
		run = func() { w.genRlk(w.part[o.P]) }
		post = func() error { w.keyD = w.keyDigest(); return nil }
	case "gencjk":
		keyOp = true
		run = func() { w.genCjk(w.part[o.P]) }
		post = func() error { w.keyD = w.keyDigest(); return nil }
	case "genrk":
		x := w.part[o.P]
		var rk *mkrlwe.RotationKey
		run = func() { rk = w.kgen.GenRotationKey(o.K*T, x.sk) }
		post = func() error {
			if o.Out == "any" {
				return nil
			}
			nh := w.params.N() / 2
			if want := ((o.K*T)%nh + nh) % nh; int(rk.RotIdx) != want || rk.ID != x.id {
				return fmt.Errorf("rotation key for amount %d of %q carries amount %d and identity %q", o.K*T, x.id, rk.RotIdx, rk.ID)
			}
			w.addRk(x, rk)
			w.keyD = w.keyDigest()
			return nil
		}
	case "delrlk":
		run = func() { w.rlks.DelRelinearizationKey(w.names[o.P]) }
	case "delcjk":
		run = func() { w.cjks.DelConjugationKey(w.names[o.P]) }
	case "delrk":
		run = func() { w.rks.DelRotationKey(w.names[o.P], uint(o.K*T)) }
	case "enc":
		x := w.part[o.P]
		m := w.msg(o.Msg)
		keep := append([]complex128{}, m.Value...)
		switch o.How {
		case "new":
			run = func() { res = w.encr.EncryptMsgNew(m, x.pk) }
		case "expand":
			ids := w.idset(o.Ids)
			run = func() { res = w.encr.EncryptMsgNewExpand(m, x.pk, ids) }
			post = func() error {
				if ids.Size() != len(o.Ids) {
					return fmt.Errorf("encryption changed the participant set it was given")
				}
				return nil
			}
		case "into":
			inPlace = true
			run = func() { w.encr.EncryptMsg(m, x.pk, w.ct[o.D]); res = w.ct[o.D] }
		case "pt":
			ptLvl := w.params.MaxLevel()
			if w.rng.Intn(3) == 0 {
				ptLvl = o.Lv
			}
			pl := w.encode(o.Msg, o.Sc, ptLvl, w.rng.Intn(2) == 0)
			d := ptDigest(pl)
			out := mkckks.NewCiphertext(w.params, w.idset(o.Ids), o.Lv, 1)
			run = func() { w.encr.EncryptPtxt(pl, x.pk, out); res = out }
			post = func() error {
				if ptDigest(pl) != d {
					return fmt.Errorf("encryption changed the plaintext")
				}
				return nil
			}
		}
		p2 := post
		post = func() error {
			for i := range keep {
				if keep[i] != m.Value[i] {
					return fmt.Errorf("encryption changed the message")
				}
			}
			if p2 != nil {
				return p2()
			}
			return nil
		}
	case "gather":
		m := w.msg(o.Msg)
		run = func() {
			for i, p := range o.Ids {
				c := w.encr.EncryptMsgNew(m, w.part[p].pk)
				if i == 0 {
					res = c
				} else {
					res = w.eval.AddNew(res, c)
				}
			}
		}
	case "encntt":
		x := w.part[o.P]
		pl := w.encode(o.Msg, o.Sc, w.params.MaxLevel(), o.How == "ptntt")
		out := &mkckks.Ciphertext{Ciphertext: mkrlwe.NewCiphertextNTT(w.params.Parameters, w.idset(o.Ids), o.Lv), Scale: w.scaleOf(o.Sc)}
		run = func() { w.encr.Encryptor.Encrypt(pl.Plaintext, x.pk, out.Ciphertext); res = out }
	case "encode":
		var pl *ckks.Plaintext
		run = func() {
			if o.Sc.T == w.cfg.ScaleB && o.Sc.Th == 0 {
				pl = w.encr.EncodeMsgNew(w.msg(o.Msg))
			} else {
				pl = w.encode(o.Msg, o.Sc, w.params.MaxLevel(), false)
			}
			if old := w.pt[o.T]; o.How == "over" && old != nil {
				old.Value.Copy(pl.Value)
				old.Scale = pl.Scale
				pl = old
			}
		}
		exPt = o.T
		post = func() error {
			w.pt[o.T] = pl
			w.ptD[o.T] = ptDigest(pl)
			e := SpecCt{V: o.Msg.V, Eb: 12, Rb: -1000, Sc: o.Sc, Den: o.Msg.Den}
			return w.compare(w.decode(pl.Value.CopyNew(), pl.Scale), e, "the encoded plaintext")
		}
	case "add", "sub", "mul", "mulks", "mulh", "mulhks", "roth", "rothks", "rot", "rotks", "conj", "conjks", "mulpt":
		run = func() { res = w.pure(o, w.eval, w.ksw, w.rlks, false) }
		if o.How == "reuse" {
			inPlace, reuse = true, true
		}
		if w.fresh && (o.Out == "ok") {
			post = func() error {
				var other *mkckks.Ciphertext
				pan, msg := try(func() {
					other = w.pure(o, mkckks.NewEvaluator(w.params), mkrlwe.NewKeySwitcher(w.params.Parameters), w.freshRlks(o), true)
				})
				if pan {
					return fmt.Errorf("a new evaluator refuses the operation (%s) that the used one performed", msg)
				}
				if ctCanon(other, w.q) != ctCanon(res, w.q) {
					return fmt.Errorf("a used evaluator and a new one give different results for the same arguments")
				}
				w.checks++
				return nil
			}
		}
	case "hoist":
		var h *mkrlwe.HoistedCiphertext
		run = func() { h = w.eval.HoistedForm(w.ct[o.A]) }
		exHo = o.H
		post = func() error {
			delete(w.ho, o.H)
			if err := w.unshared(func(f func(uintptr)) { hoRows(h, f) }, 0, 0); err != nil {
				return err
			}
			if w.fresh {
				h2 := mkckks.NewEvaluator(w.params).HoistedForm(w.ct[o.A])
				_ = h2
			}
			w.ho[o.H] = h
			w.hoD[o.H] = hoDigest(h)
			return nil
		}
	case "mulc":
		a := w.ct[o.A]
		k := constant(o.C, o.Ty)
		switch o.How {
		case "self":
			inPlace = true
			run = func() { w.eval.MultByConst(a, k, a); res = a }
		case "fresh":
			out := mkckks.NewCiphertext(w.params, a.IDSet(), a.Level(), 1)
			run = func() { w.eval.MultByConst(a, k, out); res = out }
		case "reuse":
			inPlace = true
			run = func() { w.eval.MultByConst(a, k, w.ct[o.D]); res = w.ct[o.D] }
		}
	case "drop":
		if o.How == "self" {
			inPlace = true
			run = func() { w.eval.DropLevel(w.ct[o.A], o.K); res = w.ct[o.A] }
		} else {
			run = func() { res = w.eval.DropLevelNew(w.ct[o.A], o.K) }
		}
	case "rescale":
		a := w.ct[o.A]
		min := w.target(a, o.Tg)
		switch o.How {
		case "self":
			inPlace = true
			run = func() { opErr = w.eval.Rescale(a, min, a); res = a }
		case "new":
			run = func() { res, opErr = w.eval.RescaleNew(a, min) }
		case "fresh":
			out := mkckks.NewCiphertext(w.params, a.IDSet(), a.Level(), 1)
			run = func() { opErr = w.eval.Rescale(a, min, out); res = out }
		case "reuse":
			inPlace = true
			run = func() { opErr = w.eval.Rescale(a, min, w.ct[o.D]); res = w.ct[o.D] }
		}
	case "rescaleerr":
		a := w.ct[o.A]
		run = func() {
			switch o.How {
			case "zero":
				opErr = w.eval.Rescale(a, 0, a)
			case "neg":
				_, opErr = w.eval.RescaleNew(a, -math.Exp2(float64(w.cfg.ScaleB)))
			case "noscale":
				c := a.CopyNew()
				c.SetScalingFactor(0)
				opErr = w.eval.Rescale(c, w.params.Scale(), c)
			}
		}
	case "pdec":
		a := w.ct[o.A]
		inPlace = true
		ntt := o.R.NTT
		run = func() {
			if ntt {
				w.decr.Decryptor.PartialDecrypt(a.Ciphertext, w.part[o.P].sk)
			} else {
				w.decr.PartialDecrypt(a, w.part[o.P].sk)
			}
			res = a
		}
	case "dec", "decreg":
		var m *mkckks.Message
		set := w.sks
		if o.Nm == "dec" {
			set = w.skset(o.Ks)
		}
		size := len(set.Value)
		run = func() { m = w.decr.Decrypt(w.ct[o.A], set) }
		post = func() error {
			if len(set.Value) != size {
				return fmt.Errorf("decryption changed the secret key set")
			}
			if m == nil {
				return fmt.Errorf("decryption returned no message")
			}
			if err := w.compare(m.Value, o.R, "the decrypted message"); err != nil {
				return err
			}
			if w.fresh {
				m2 := mkckks.NewDecryptor(w.params).Decrypt(w.ct[o.A], set)
				if len(m2.Value) != len(m.Value) {
					return fmt.Errorf("a used decryptor and a new one give different results")
				}
				for i := range m2.Value {
					if m2.Value[i] != m.Value[i] {
						return fmt.Errorf("a used decryptor and a new one give different results (slot %d)", i)
					}
				}
			}
			// the returned message belongs to the caller
			for i := range m.Value {
				m.Value[i] = complex(math.NaN(), 1e300)
			}
			return nil
		}
	case "rdec":
		pl := rlwe.NewPlaintext(w.ckp.Parameters, o.Lv)
		w.scribblePoly(pl.Value)
		pl.Value.IsNTT = o.Dom == "ntt"
		set := w.skset(o.Ks)
		run = func() { w.decr.Decryptor.Decrypt(w.ct[o.A].Ciphertext, set, pl) }
		post = func() error {
			if pl.Level() != o.R.Lvl {
				return fmt.Errorf("the decrypted polynomial has level %d, the specification says %d", pl.Level(), o.R.Lvl)
			}
			if pl.Value.IsNTT != (o.Dom == "ntt") {
				return fmt.Errorf("decryption changed the domain that the plaintext declares")
			}
			v := pl.Value.CopyNew()
			w.ringQ.ReduceLvl(pl.Level(), v, v)
			if v.IsNTT {
				w.ringQ.InvNTTLvl(pl.Level(), v, v)
			}
			return w.compare(w.decode(v, w.scaleOf(o.R.Sc)), o.R, "the decrypted polynomial ("+o.Dom+" domain)")
		}
	case "copyto":
		inPlace = true
		run = func() {
			c := w.ct[o.D]
			c.Copy(w.ct[o.A].Ciphertext)
			c.SetScalingFactor(w.ct[o.A].ScalingFactor())
			res = c
		}
	case "copy":
		run = func() { res = w.ct[o.A].CopyNew() }
	case "pad":
		inPlace = true
		ids := w.idset(o.Ids)
		run = func() { w.ct[o.A].PadCiphertext(ids); res = w.ct[o.A] }
	case "setscale":
		inPlace = true
		run = func() { c := w.ct[o.A]; c.SetScalingFactor(c.ScalingFactor() * math.Exp2(float64(o.K))); res = c }
	case "other":
		var v []complex128
		run = func() { v = w.otherGroup(o) }
		post = func() error {
			return w.compare(v, o.R, "the result of another group, which uses the same objects under the same identities,")
		}
	case "scribble":
		c := w.ct[o.A]
		delete(w.ct, o.A)
		run = func() {
			for _, p := range c.Value {
				w.scribblePoly(p)
			}
		}
	case "scribho":
		h := w.ho[o.H]
		delete(w.ho, o.H)
		run = func() {
			for _, s := range h.Value {
				for i := range s.Value {
					w.scribblePoly(s.Value[i].Q)
					w.scribblePoly(s.Value[i].P)
				}
			}
		}
	case "scribpt":
		p := w.pt[o.T]
		delete(w.pt, o.T)
		run = func() { w.scribblePoly(p.Value) }
	default:
		fatal("unknown operation %q", o.Nm)
	}

	panicked, pmsg := try(run)

	switch o.Out {
	case "ok":
		if panicked {
			return fmt.Errorf("refused (%s) where the specification says it succeeds", pmsg)
		}
		if opErr != nil {
			return fmt.Errorf("returned the error %q where the specification says it succeeds", opErr)
		}
	case "refuse":
		if !panicked {
			return fmt.Errorf("succeeded where the specification says it is refused")
		}
	case "err":
		if panicked {
			return fmt.Errorf("panicked (%s) where the specification says it returns an error", pmsg)
		}
		if opErr == nil {
			return fmt.Errorf("returned no error where the specification says it does")
		}
	}

	done := !panicked && opErr == nil
	if done && post != nil {
		if err := post(); err != nil {
			return err
		}
	}
	if done && res != nil {
		if err := w.verify(res, o.R, "the result"); err != nil {
			return err
		}
		if err := w.unshared(func(f func(uintptr)) { ctRows(res, f) }, o.D, 0); err != nil {
			return err
		}
		if !inPlace {
			// an operand that is about to be replaced must also be intact and unshared
			if old, in := w.ct[o.D]; in {
				if ctDigest(old) != w.ctD[o.D] {
					return fmt.Errorf("an operand or another ciphertext was changed")
				}
				mine := map[uintptr]bool{}
				ctRows(res, func(a uintptr) { mine[a] = true })
				shared := false
				ctRows(old, func(a uintptr) { shared = shared || mine[a] })
				if shared && old != res {
					return fmt.Errorf("the new result shares storage with an operand or another ciphertext")
				}
				if old == res {
					return fmt.Errorf("the operation returned an existing ciphertext instead of a new one")
				}
			}
		}
	}
	ex := 0
	if inPlace && done || reuse {
		ex = o.D
	}
	if err := w.frame(ex, exHo, exPt, keyOp); err != nil {
		return err
	}
	if o.D != 0 {
		if o.Out == "ok" {
			w.put(o.D, res)
		} else {
			w.put(o.D, nil)
		}
	}
	return nil
}

// ---- driver -----------------------------------------------------------------------

type ReplayInput struct {
	Rings      []RingCfg         `json:"rings"`
	Fresh      bool              `json:"fresh"`
	Seed       int64             `json:"seed"`
	StepLimit  int               `json:"step_limit_s"`
	Behaviours []json.RawMessage `json:"behaviours"`
	Ring       []int             `json:"ring"` // ring index of each behaviour
	Workers    int               `json:"workers"`
	Only       int               `json:"only"` // 1-based: replay only this behaviour
}

func runReplay(in string, out string) {
	var ri ReplayInput
	readJSON(in, &ri)
	rep := Report{Ops: map[string]int{}, MaxErr: -999}
	var mu sync.Mutex
	var next int64 = -1
	type slot struct {
		beh, step int64
		op        string
		since     int64
	}
	if ri.Workers <= 0 {
		ri.Workers = 8
	}
	state := make([]struct{ beh, step, since int64 }, ri.Workers)
	finish := func(code int) {
		mu.Lock()
		sort.Slice(rep.Failures, func(i, j int) bool { return rep.Failures[i].Behaviour < rep.Failures[j].Behaviour })
		writeJSON(out, rep)
		os.Exit(code)
	}
	go func() {
		for {
			time.Sleep(time.Second)
			now := time.Now().Unix()
			for i := range state {
				s := atomic.LoadInt64(&state[i].since)
				if s != 0 && now-s > int64(ri.StepLimit) {
					mu.Lock()
					rep.Failures = append(rep.Failures, Failure{Behaviour: int(atomic.LoadInt64(&state[i].beh)), Step: int(atomic.LoadInt64(&state[i].step)), Kind: "hang",
						Reason: fmt.Sprintf("the operation did not return within %d s", ri.StepLimit)})
					mu.Unlock()
					finish(0)
				}
			}
		}
	}()
	var wg sync.WaitGroup
	for k := 0; k < ri.Workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(ri.Behaviours) {
					return
				}
				if ri.Only != 0 && i != ri.Only-1 {
					continue
				}
				var ops []Op
				if err := json.Unmarshal(ri.Behaviours[i], &ops); err != nil {
					fatal("behaviour %d: %v", i, err)
				}
				cfg := ri.Rings[ri.Ring[i]]
				w := newWorld(cfg, ri.Seed*1000003+int64(i), ri.Fresh)
				done := 0
				local := map[string]int{}
				var fail *Failure
				for j := range ops {
					atomic.StoreInt64(&state[k].beh, int64(i))
					atomic.StoreInt64(&state[k].step, int64(j))
					atomic.StoreInt64(&state[k].since, time.Now().Unix())
					var err error
					pan, msg := try(func() { err = w.step(&ops[j]) })
					if pan {
						err = fmt.Errorf("checking the result failed: %s", msg)
					}
					done++
					local[ops[j].Nm]++
					if err != nil {
						fail = &Failure{Behaviour: i, Step: j, Op: ops[j].Nm, Kind: "divergence", Reason: err.Error(), Ring: cfg.Name}
						break
					}
				}
				atomic.StoreInt64(&state[k].since, 0)
				mu.Lock()
				rep.Behaviours++
				rep.Steps += done
				rep.Checks += w.checks
				for nm, c := range local {
					rep.Ops[nm] += c
				}
				if w.maxErr > rep.MaxErr {
					rep.MaxErr = w.maxErr
				}
				if fail != nil {
					rep.Failures = append(rep.Failures, *fail)
				}
				mu.Unlock()
			}
		}(k)
	}
	wg.Wait()
	finish(0)
}

func init() { modes["replay"] = runReplay }
