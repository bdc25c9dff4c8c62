// Package mkckks is a stand-in for /repo/mkckks (see the stand-in mkrlwe).
package mkckks

import (
	"errors"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lr/mkrlwe"
)

type Parameters struct {
	mkrlwe.Parameters
	logSlots int
	scale    float64
}

func NewParameters(p ckks.Parameters) Parameters {
	return Parameters{mkrlwe.NewParameters(p.Parameters, 2), p.LogSlots(), p.Scale()}
}
func (p Parameters) Scale() float64 { return p.scale }
func (p Parameters) Slots() int     { return 1 << p.logSlots }
func (p Parameters) LogSlots() int  { return p.logSlots }

func NewKeyGenerator(params Parameters) *mkrlwe.KeyGenerator {
	return mkrlwe.NewKeyGenerator(params.Parameters)
}

type Message struct{ Value []complex128 }

func NewMessage(params Parameters) *Message {
	return &Message{make([]complex128, 1<<params.logSlots)}
}
func (m *Message) Slots() int { return len(m.Value) }

type Ciphertext struct {
	*mkrlwe.Ciphertext
	Scale float64
}

func NewCiphertext(params Parameters, idset *mkrlwe.IDSet, level int, scale float64) *Ciphertext {
	return &Ciphertext{mkrlwe.NewCiphertext(params.Parameters, idset, level), scale}
}
func (ct *Ciphertext) ScalingFactor() float64     { return ct.Scale }
func (ct *Ciphertext) SetScalingFactor(s float64) { ct.Scale = s }
func (ct *Ciphertext) CopyNew() *Ciphertext {
	return &Ciphertext{ct.Ciphertext.CopyNew(), ct.Scale}
}

func StandardDeviation(vec []float64, scale float64) float64 {
	var mean, s float64
	for _, c := range vec {
		mean += c
	}
	mean /= float64(len(vec))
	for _, c := range vec {
		s += (c - mean) * (c - mean)
	}
	return math.Sqrt(s/float64(len(vec))) * scale
}

// ---- recording -------------------------------------------------------------------

var cols = func() int {
	c, _ := strconv.Atoi(os.Getenv("VERIF_LR_COLS"))
	return c
}()

func fix(x float64) int {
	y := math.Round(x * 65536)
	if math.IsNaN(y) || y > 1<<29 {
		return 1 << 29
	}
	if y < -(1 << 29) {
		return -(1 << 29)
	}
	return int(y)
}

// row returns the first row of the slots and whether every row equals it
func row(s []complex128) (v []int, same bool) {
	if cols == 0 {
		return nil, false
	}
	same = true
	for i := cols; i < len(s) && same; i++ {
		d := s[i] - s[i%cols]
		if math.Abs(real(d))+math.Abs(imag(d)) > 1e-7 || math.IsNaN(real(d)) {
			same = false
		}
	}
	for i := 0; i < cols; i++ {
		if x := s[i]; math.Abs(imag(x)) > 0.01 {
			v = append(v, fix(math.Inf(1))) // not a real number at all
		} else {
			v = append(v, fix(real(x)))
		}
	}
	return
}

func maxAbs(s []complex128) (m float64) {
	for _, x := range s {
		if a := math.Abs(real(x)); a > m || math.IsNaN(a) {
			m = a
		}
		if a := math.Abs(imag(x)); a > m {
			m = a
		}
	}
	return
}

func logQ(p Parameters, level int) float64 {
	b := 0.0
	for i := 0; i <= level; i++ {
		b += math.Log2(float64(p.Q()[i]))
	}
	return b
}

func bits(x float64) int {
	if math.IsNaN(x) || math.IsInf(x, 0) {
		return 100000
	}
	if x < 1e-300 {
		return -1000
	}
	return int(math.Ceil(math.Log2(x)))
}

func names(c *mkrlwe.Ciphertext) string {
	var s []string
	for id := range c.Keys {
		s = append(s, id)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// result records a computed ciphertext: op(levels in) -> level, with the bits its content takes of the modulus
func result(p Parameters, op string, in []int, want int, c *Ciphertext) {
	used := bits(maxAbs(c.Slots) * c.Scale)
	mkrlwe.Trace(map[string]interface{}{"k": "op", "op": op, "in": in, "want": want, "out": c.Lvl, "used": used,
		"cap": int(math.Floor(logQ(p, c.Lvl))) - 2, "n": len(c.Keys), "scale": bits(c.Scale), "ids": names(c.Ciphertext)}, true)
	if v, same := row(c.Slots); same {
		mkrlwe.Trace(map[string]interface{}{"k": "vec", "v": v}, false)
	}
}

// ---- encryption --------------------------------------------------------------------

type Encryptor struct {
	params Parameters
	ck     ckks.Parameters
}

var ptSlots = map[*ckks.Plaintext][]complex128{}

func NewEncryptor(params Parameters) *Encryptor {
	ck, err := ckks.NewParameters(params.Parameters.Parameters, params.LogSlots(), params.Scale())
	if err != nil {
		panic(err)
	}
	return &Encryptor{params, ck}
}

func (e *Encryptor) pad(v []complex128) []complex128 {
	n := e.params.N() / 2
	k := e.params.Slots()
	if len(v) > k {
		mkrlwe.Refuse("Encode", "more values than slots")
	}
	s := make([]complex128, n)
	for i := range s {
		if i%k < len(v) {
			s[i] = v[i%k]
		}
	}
	return s
}

func (e *Encryptor) noise(scale float64) float64 { return math.Exp2(17) / scale }

func (e *Encryptor) put(slots []complex128, scale float64, lvl int, pk *mkrlwe.PublicKey, ct *Ciphertext) {
	if _, in := ct.Keys[pk.ID]; !in {
		mkrlwe.Refuse("Encrypt", "the receiver is not prepared for "+pk.ID)
	}
	if lvl < ct.Lvl {
		ct.Lvl = lvl
	}
	ct.Slots = slots
	ct.Scale = scale
	ct.Err = e.noise(scale)
	for id := range ct.Keys {
		ct.Keys[id] = nil
	}
	ct.Keys[pk.ID] = pk.SK
	result(e.params, "encrypt", []int{}, ct.Lvl, ct)
}
func (e *Encryptor) EncryptPtxt(pt *ckks.Plaintext, pk *mkrlwe.PublicKey, ct *Ciphertext) {
	e.put(append([]complex128{}, ptSlots[pt]...), pt.Scale, pt.Level(), pk, ct)
}
func (e *Encryptor) EncryptMsg(msg *Message, pk *mkrlwe.PublicKey, ct *Ciphertext) {
	e.put(e.pad(msg.Value), e.params.Scale(), e.params.MaxLevel(), pk, ct)
}
func (e *Encryptor) EncryptMsgNew(msg *Message, pk *mkrlwe.PublicKey) *Ciphertext {
	ids := mkrlwe.NewIDSet()
	ids.Add(pk.ID)
	return e.EncryptMsgNewExpand(msg, pk, ids)
}
func (e *Encryptor) EncryptMsgNewExpand(msg *Message, pk *mkrlwe.PublicKey, ids *mkrlwe.IDSet) *Ciphertext {
	ct := NewCiphertext(e.params, ids, e.params.MaxLevel(), e.params.Scale())
	e.EncryptMsg(msg, pk, ct)
	return ct
}
func (e *Encryptor) EncodeMsgNew(msg *Message) *ckks.Plaintext {
	pt := ckks.NewPlaintext(e.ck, 0, e.params.Scale())
	ptSlots[pt] = e.pad(msg.Value)
	return pt
}

// ---- decryption ----------------------------------------------------------------------

type Decryptor struct{ params Parameters }

func NewDecryptor(params Parameters) *Decryptor { return &Decryptor{params} }
func (d *Decryptor) PartialDecrypt(ct *Ciphertext, sk *mkrlwe.SecretKey) {
	k, in := ct.Keys[sk.ID]
	if !in {
		mkrlwe.Refuse("PartialDecrypt", "no participant")
	}
	if k != nil && k != sk {
		mkrlwe.Refuse("PartialDecrypt", "another secret key")
	}
	delete(ct.Keys, sk.ID)
}
func (d *Decryptor) Decrypt(ct *Ciphertext, set *mkrlwe.SecretKeySet) *Message {
	for id, k := range ct.Keys {
		sk, in := set.Value[id]
		if !in || (k != nil && k != sk) {
			mkrlwe.Refuse("Decrypt", "no secret key of "+id)
		}
	}
	v, same := row(ct.Slots)
	rep := 0
	if same {
		rep = 1
	}
	ev := map[string]interface{}{"k": "dec", "rep": rep, "v": v, "lvl": ct.Lvl, "err": bits(ct.Err), "used": bits(maxAbs(ct.Slots) * ct.Scale),
		"cap": int(math.Floor(logQ(d.params, ct.Lvl))) - 2}
	if os.Getenv("VERIF_LR_SHORT") != "" && !same {
		ev["v"] = v[:1]
	}
	mkrlwe.Trace(ev, false)
	return &Message{append([]complex128{}, ct.Slots[:d.params.Slots()]...)}
}

// ---- evaluation -------------------------------------------------------------------------

type Evaluator struct{ params Parameters }

func NewEvaluator(params Parameters) *Evaluator { return &Evaluator{params} }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// owner: the key a participant's share is under; two different keys of one identity cannot be mixed
func merge(op string, out *Ciphertext, cs ...*Ciphertext) {
	for _, c := range cs {
		for id, k := range c.Keys {
			old := out.Keys[id]
			if old != nil && k != nil && old != k {
				mkrlwe.Refuse(op, "shares under different keys of "+id)
			}
			if old == nil {
				out.Keys[id] = k
			}
		}
	}
}

func (e *Evaluator) fresh(lvl int, scale float64) *Ciphertext {
	return NewCiphertext(e.params, mkrlwe.NewIDSet(), lvl, scale)
}

func (e *Evaluator) ks(scale float64) float64 { return math.Exp2(17) / scale }

func (e *Evaluator) addsub(op string, a, b *Ciphertext, sign float64) *Ciphertext {
	s := math.Max(a.Scale, b.Scale)
	out := e.fresh(min(a.Level(), b.Level()), s)
	merge(op, out, a, b)
	// the library multiplies the operand of smaller scale by the floored ratio, if that exceeds one
	fa, fb := a.Scale/s, sign*b.Scale/s
	if r := math.Floor(s / a.Scale); r > 1 {
		fa *= r
	}
	if r := math.Floor(s / b.Scale); r > 1 {
		fb *= r
	}
	for i := range out.Slots {
		out.Slots[i] = complex(real(a.Slots[i])*fa+real(b.Slots[i])*fb, imag(a.Slots[i])*fa+imag(b.Slots[i])*fb)
	}
	out.Err = math.Hypot(a.Err, b.Err)
	result(e.params, op, []int{a.Level(), b.Level()}, min(a.Level(), b.Level()), out)
	return out
}
func (e *Evaluator) AddNew(a, b *Ciphertext) *Ciphertext { return e.addsub("add", a, b, 1) }
func (e *Evaluator) SubNew(a, b *Ciphertext) *Ciphertext { return e.addsub("sub", a, b, -1) }

func (e *Evaluator) DropLevelNew(ct *Ciphertext, levels int) *Ciphertext {
	out := ct.CopyNew()
	e.DropLevel(out, levels)
	return out
}
func (e *Evaluator) DropLevel(ct *Ciphertext, levels int) {
	if levels > ct.Lvl || levels < 0 {
		mkrlwe.Refuse("DropLevel", "not that many levels")
	}
	ct.Lvl -= levels
}

func (e *Evaluator) MultByConst(ct *Ciphertext, constant interface{}, out *Ciphertext) {
	var c complex128
	switch k := constant.(type) {
	case complex128:
		c = k
	case float64:
		c = complex(k, 0)
	case int:
		c = complex(float64(k), 0)
	case int64:
		c = complex(float64(k), 0)
	case uint64:
		c = complex(float64(k), 0)
	}
	lvl := min(ct.Level(), out.Level())
	f := 1.0
	if real(c) != math.Trunc(real(c)) || imag(c) != math.Trunc(imag(c)) {
		f = float64(e.params.Q()[lvl])
	}
	sc := ct.Scale * f
	s := make([]complex128, len(ct.Slots))
	for i := range s {
		s[i] = ct.Slots[i] * c
	}
	keys := map[string]*mkrlwe.SecretKey{}
	for id, k := range ct.Keys {
		keys[id] = k
	}
	out.Keys, out.Slots, out.Scale = keys, s, sc
	out.Err = ct.Err * math.Hypot(real(c), imag(c))
	result(e.params, "const", []int{ct.Level(), lvl}, lvl, out)
}

func (e *Evaluator) Rescale(in *Ciphertext, minScale float64, out *Ciphertext) error {
	if minScale <= 0 {
		return errors.New("cannot Rescale: minScale is 0")
	}
	if in.Scale == 0 {
		return errors.New("cannot Rescale: ciphertext scale is 0")
	}
	if in.Level() == 0 {
		return errors.New("cannot Rescale: input Ciphertext already at level 0")
	}
	sc, lvl := in.Scale, in.Level()
	for lvl > 0 && sc/float64(e.params.Q()[lvl]) >= minScale/2 {
		sc /= float64(e.params.Q()[lvl])
		lvl--
	}
	if in != out {
		out.Ciphertext = in.Ciphertext.CopyNew()
	}
	out.Lvl, out.Scale = lvl, sc
	out.Err = math.Hypot(out.Err, e.ks(sc)/16)
	return nil
}
func (e *Evaluator) RescaleNew(ct *Ciphertext, threshold float64) (*Ciphertext, error) {
	out := ct.CopyNew()
	return out, e.Rescale(ct, threshold, out)
}

// needed levels: how many divisions bring the scale back to the default one, had the chain no end
func (e *Evaluator) finish(op string, in []int, out *Ciphertext) *Ciphertext {
	need, sc, l := 0, out.Scale, out.Lvl
	for sc/float64(e.params.Q()[max0(l)]) >= e.params.Scale()/2 {
		sc /= float64(e.params.Q()[max0(l)])
		l--
		need++
		if need > 50 {
			break
		}
	}
	// the content has to fit before the division
	used := bits(maxAbs(out.Slots) * out.Scale)
	mkrlwe.Trace(map[string]interface{}{"k": "op", "op": op + "-raw", "in": in, "want": out.Lvl, "out": out.Lvl, "used": used,
		"cap": int(math.Floor(logQ(e.params, out.Lvl))) - 2, "n": len(out.Keys), "scale": bits(out.Scale), "ids": names(out.Ciphertext)}, true)
	want := out.Lvl - need
	e.Rescale(out, e.params.Scale(), out)
	result(e.params, op, in, want, out)
	return out
}

func max0(l int) int {
	if l < 0 {
		return 0
	}
	return l
}

func (e *Evaluator) MulRelinNew(a, b *Ciphertext, rlk *mkrlwe.RelinearizationKeySet) *Ciphertext {
	out := e.fresh(min(a.Level(), b.Level()), a.Scale*b.Scale)
	merge("mul", out, a, b)
	for id, k := range out.Keys {
		key, in := rlk.Value[id]
		if !in {
			mkrlwe.Refuse("MulRelin", "no relinearization key of "+id)
		}
		if k != nil && key.SK != k {
			mkrlwe.Refuse("MulRelin", "relinearization key of another secret key of "+id)
		}
	}
	for i := range out.Slots {
		out.Slots[i] = a.Slots[i] * b.Slots[i]
	}
	out.Err = math.Hypot(math.Hypot(maxAbs(a.Slots)*b.Err, maxAbs(b.Slots)*a.Err), e.ks(math.Max(a.Scale, e.params.Scale())))
	return e.finish("mul", []int{a.Level(), b.Level()}, out)
}
func (e *Evaluator) MulRelinHoistedNew(a, b *Ciphertext, ah, bh *mkrlwe.HoistedCiphertext, rlk *mkrlwe.RelinearizationKeySet) *Ciphertext {
	return e.MulRelinNew(a, b, rlk)
}
func (e *Evaluator) MulPtxtNew(ct *Ciphertext, pt *ckks.Plaintext) *Ciphertext {
	p, in := ptSlots[pt]
	if !in {
		mkrlwe.Refuse("MulPtxt", "unknown plaintext")
	}
	out := e.fresh(ct.Level(), ct.Scale*pt.Scale)
	merge("mulpt", out, ct)
	for i := range out.Slots {
		out.Slots[i] = ct.Slots[i] * p[i]
	}
	out.Err = math.Hypot(ct.Err*maxAbs(p), maxAbs(ct.Slots)*256/pt.Scale)
	return e.finish("mulpt", []int{ct.Level()}, out)
}

func (e *Evaluator) RotateNew(ct *Ciphertext, rotidx int, rk *mkrlwe.RotationKeySet) *Ciphertext {
	n := e.params.N() / 2
	r := ((rotidx % n) + n) % n
	var steps []int
	if r != 0 {
		if _, in := e.params.CRS[r]; in {
			steps = []int{r}
		} else {
			for k := 1; k < n; k *= 2 {
				if r&k != 0 {
					steps = append(steps, k)
				}
			}
		}
	}
	for _, k := range steps {
		for id, sk := range ct.Keys {
			key, in := rk.Value[id][uint(k)]
			if !in {
				mkrlwe.Refuse("Rotate", "no rotation key of "+id+" for "+strconv.Itoa(k))
			}
			if sk != nil && key.SK != sk {
				mkrlwe.Refuse("Rotate", "rotation key of another secret key of "+id)
			}
		}
	}
	out := e.fresh(ct.Level(), ct.Scale)
	merge("rotate", out, ct)
	for i := range out.Slots {
		out.Slots[i] = ct.Slots[(i+r)%n]
	}
	out.Err = math.Hypot(ct.Err, e.ks(ct.Scale)*math.Sqrt(float64(len(steps))))
	result(e.params, "rotate", []int{ct.Level()}, ct.Level(), out)
	return out
}
func (e *Evaluator) RotateHoistedNew(ct *Ciphertext, rotidx int, h *mkrlwe.HoistedCiphertext, rk *mkrlwe.RotationKeySet) *Ciphertext {
	n := e.params.N() / 2
	r := ((rotidx % n) + n) % n
	if _, in := e.params.CRS[r]; !in && r != 0 {
		mkrlwe.Refuse("RotateHoisted", "no reference string")
	}
	return e.RotateNew(ct, rotidx, rk)
}
func (e *Evaluator) ConjugateNew(ct *Ciphertext, ck *mkrlwe.ConjugationKeySet) *Ciphertext {
	for id := range ct.Keys {
		if _, in := ck.Value[id]; !in {
			mkrlwe.Refuse("Conjugate", "no conjugation key of "+id)
		}
	}
	out := e.fresh(ct.Level(), ct.Scale)
	merge("conjugate", out, ct)
	for i := range out.Slots {
		out.Slots[i] = complex(real(ct.Slots[i]), -imag(ct.Slots[i]))
	}
	out.Err = math.Hypot(ct.Err, e.ks(ct.Scale))
	result(e.params, "conjugate", []int{ct.Level()}, ct.Level(), out)
	return out
}
func (e *Evaluator) HoistedForm(ct *Ciphertext) *mkrlwe.HoistedCiphertext {
	h := mkrlwe.NewHoistedCiphertext()
	h.Of = ct.Ciphertext
	return h
}
