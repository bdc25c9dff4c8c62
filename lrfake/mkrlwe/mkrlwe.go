// Package mkrlwe is a stand-in for /repo/mkrlwe with the same exported names, used to execute the training
// programs of /repo/lr unchanged without the cost of the cryptography: keys are names, ciphertexts carry
// their slots in the clear together with level, scale and participants, and everything that a real
// execution would need (levels, modulus, keys) is recorded in a trace.
package mkrlwe

import (
	"bufio"
	"encoding/json"
	"math"
	"os"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

// ---- trace ---------------------------------------------------------------

var (
	traceF *os.File
	traceW *bufio.Writer
	seen   = map[string]bool{}
)

func init() {
	if fn := os.Getenv("VERIF_LR_TRACE"); fn != "" {
		f, err := os.Create(fn)
		if err != nil {
			panic(err)
		}
		traceF = f
		traceW = bufio.NewWriter(f)
	}
}

// Trace writes an event; with once set, an event equal to an earlier one is dropped.
func Trace(ev map[string]interface{}, once bool) {
	if traceW == nil {
		return
	}
	b, _ := json.Marshal(ev)
	if once {
		if seen[string(b)] {
			return
		}
		seen[string(b)] = true
	}
	traceW.Write(b)
	traceW.WriteByte('\n')
	traceW.Flush()
}

// Refuse records that the real operation would fail, and fails.
func Refuse(op, why string) {
	Trace(map[string]interface{}{"k": "refuse", "op": op, "why": why}, false)
	panic("refused: " + op + ": " + why)
}

// ---- identity sets --------------------------------------------------------

type IDSet struct{ Value map[string]struct{} }

func NewIDSet() *IDSet { return &IDSet{Value: map[string]struct{}{}} }
func (s *IDSet) Has(v string) bool {
	_, ok := s.Value[v]
	return ok
}
func (s *IDSet) Add(v string) {
	if v == "0" {
		panic("Cannot IDSet Add : 0 cannot be used")
	}
	s.Value[v] = struct{}{}
}
func (s *IDSet) Remove(v string) { delete(s.Value, v) }
func (s *IDSet) Size() int       { return len(s.Value) }
func (s *IDSet) CopyNew() *IDSet {
	r := NewIDSet()
	for v := range s.Value {
		r.Add(v)
	}
	return r
}
func (s *IDSet) Intersection(t *IDSet) *IDSet {
	r := NewIDSet()
	for v := range t.Value {
		if s.Has(v) {
			r.Add(v)
		}
	}
	return r
}
func (s *IDSet) Union(t *IDSet) *IDSet {
	r := s.CopyNew()
	for v := range t.Value {
		r.Add(v)
	}
	return r
}

// ---- parameters -------------------------------------------------------------

type Parameters struct {
	rlwe.Parameters
	CRS   map[int]*SwitchingKey
	gamma int
}

func NewParameters(params rlwe.Parameters, gamma int) Parameters {
	p := Parameters{Parameters: params, gamma: gamma, CRS: map[int]*SwitchingKey{}}
	for _, i := range []int{0, -1, -2, -3, -4} {
		p.CRS[i] = &SwitchingKey{}
	}
	for i := 0; i < params.LogN()-1; i++ {
		p.CRS[1<<i] = &SwitchingKey{}
	}
	return p
}
func (p Parameters) Alpha() int { return p.PCount() / p.gamma }
func (p Parameters) Beta(levelQ int) int {
	return int(math.Ceil(float64(levelQ+1) / float64(p.Alpha())))
}
func (p Parameters) Gamma() int { return p.gamma }
func (p *Parameters) AddCRS(idx int) {
	if _, in := p.CRS[idx]; !in {
		p.CRS[idx] = &SwitchingKey{}
	}
}

// ---- keys -------------------------------------------------------------------

type SecretKey struct {
	rlwe.SecretKey
	ID string
}
type PublicKey struct {
	rlwe.PublicKey
	ID string
	SK *SecretKey
}
type SwitchingKey struct{ Value []rlwe.PolyQP }
type RelinearizationKey struct {
	Value [3]*SwitchingKey
	ID    string
	SK    *SecretKey
}
type RotationKey struct {
	Value  *SwitchingKey
	ID     string
	RotIdx uint
	SK     *SecretKey
}
type ConjugationKey struct {
	Value *SwitchingKey
	ID    string
	SK    *SecretKey
}

type SecretKeySet struct{ Value map[string]*SecretKey }
type PublicKeySet struct{ Value map[string]*PublicKey }
type RelinearizationKeySet struct {
	Value     map[string]*RelinearizationKey
	HoistPool [2]*HoistedCiphertext
}
type RotationKeySet struct {
	Value map[string]map[uint]*RotationKey
}
type ConjugationKeySet struct{ Value map[string]*ConjugationKey }

func NewSecretKeySet() *SecretKeySet { return &SecretKeySet{map[string]*SecretKey{}} }
func (s *SecretKeySet) AddSecretKey(k *SecretKey) { s.Value[k.ID] = k }
func (s *SecretKeySet) DelSecretKey(id string)    { delete(s.Value, id) }
func (s *SecretKeySet) GetSecretKey(id string) *SecretKey {
	if k, in := s.Value[id]; in {
		return k
	}
	Refuse("GetSecretKey", "no key of "+id)
	return nil
}
func NewPublicKeyKeySet() *PublicKeySet { return &PublicKeySet{map[string]*PublicKey{}} }
func (s *PublicKeySet) AddPublicKey(k *PublicKey) { s.Value[k.ID] = k }
func (s *PublicKeySet) DelPublicKey(id string)    { delete(s.Value, id) }
func (s *PublicKeySet) GetPublicKey(id string) *PublicKey {
	if k, in := s.Value[id]; in {
		return k
	}
	Refuse("GetPublicKey", "no key of "+id)
	return nil
}
func NewRotationKeySet() *RotationKeySet {
	return &RotationKeySet{map[string]map[uint]*RotationKey{}}
}
func (s *RotationKeySet) AddRotationKey(k *RotationKey) {
	if s.Value[k.ID] == nil {
		s.Value[k.ID] = map[uint]*RotationKey{}
	}
	s.Value[k.ID][k.RotIdx] = k
}
func (s *RotationKeySet) DelRotationKey(id string, r uint) { delete(s.Value[id], r) }
func (s *RotationKeySet) GetRotationKey(id string, r uint) *RotationKey {
	if k, in := s.Value[id][r]; in {
		return k
	}
	Refuse("GetRotationKey", "no rotation key of "+id)
	return nil
}
func NewRelinearizationKeyKeySet(params Parameters) *RelinearizationKeySet {
	return &RelinearizationKeySet{Value: map[string]*RelinearizationKey{}, HoistPool: [2]*HoistedCiphertext{NewHoistedCiphertext(), NewHoistedCiphertext()}}
}
func (s *RelinearizationKeySet) AddRelinearizationKey(k *RelinearizationKey) { s.Value[k.ID] = k }
func (s *RelinearizationKeySet) DelRelinearizationKey(id string)             { delete(s.Value, id) }
func (s *RelinearizationKeySet) GetRelinearizationKey(id string) *RelinearizationKey {
	if k, in := s.Value[id]; in {
		return k
	}
	Refuse("GetRelinearizationKey", "no key of "+id)
	return nil
}
func NewConjugationKeySet() *ConjugationKeySet {
	return &ConjugationKeySet{map[string]*ConjugationKey{}}
}
func (s *ConjugationKeySet) AddConjugationKey(k *ConjugationKey) { s.Value[k.ID] = k }
func (s *ConjugationKeySet) DelConjugationKey(id string)         { delete(s.Value, id) }
func (s *ConjugationKeySet) GetConjugationKey(id string) *ConjugationKey {
	if k, in := s.Value[id]; in {
		return k
	}
	Refuse("GetConjugationKey", "no key of "+id)
	return nil
}

func NewSecretKey(params Parameters, id string) *SecretKey { return &SecretKey{ID: id} }
func NewPublicKey(params Parameters, id string) *PublicKey { return &PublicKey{ID: id} }
func NewSwitchingKey(params Parameters) *SwitchingKey      { return &SwitchingKey{} }
func NewRelinearizationKey(params Parameters, id string) *RelinearizationKey {
	return &RelinearizationKey{ID: id}
}
func NewRotationKey(params Parameters, rotidx uint, id string) *RotationKey {
	return &RotationKey{ID: id, RotIdx: rotidx}
}
func NewConjugationKey(params Parameters, id string) *ConjugationKey { return &ConjugationKey{ID: id} }
func (sk *SecretKey) CopyNew() *SecretKey {
	if sk == nil {
		return nil
	}
	return sk
}
func (pk *PublicKey) CopyNew() *PublicKey {
	if pk == nil {
		return nil
	}
	c := *pk
	return &c
}

// ---- key generator ------------------------------------------------------------

type KeyGenerator struct{ params Parameters }

func NewKeyGenerator(params Parameters) *KeyGenerator { return &KeyGenerator{params} }
func (g *KeyGenerator) GenSecretKey(id string) *SecretKey { return &SecretKey{ID: id} }
func (g *KeyGenerator) GenSecretKeyGaussian(id string) *SecretKey {
	return &SecretKey{ID: id}
}
func (g *KeyGenerator) GenSecretKeyWithDistrib(p float64, id string) *SecretKey {
	return &SecretKey{ID: id}
}
func (g *KeyGenerator) GenSecretKeySparse(hw int, id string) *SecretKey { return &SecretKey{ID: id} }
func (g *KeyGenerator) GenPublicKey(sk *SecretKey) *PublicKey {
	return &PublicKey{ID: sk.ID, SK: sk}
}
func (g *KeyGenerator) GenKeyPair(id string) (*SecretKey, *PublicKey) {
	sk := g.GenSecretKey(id)
	return sk, g.GenPublicKey(sk)
}
func (g *KeyGenerator) GenKeyPairSparse(hw int, id string) (*SecretKey, *PublicKey) {
	return g.GenKeyPair(id)
}
func (g *KeyGenerator) GenGaussianError(e rlwe.PolyQP) {}
func (g *KeyGenerator) GenRelinearizationKey(sk, r *SecretKey) *RelinearizationKey {
	return &RelinearizationKey{ID: sk.ID, SK: sk}
}
func (g *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) *RotationKey {
	n := g.params.N() / 2
	for rotidx < 0 {
		rotidx += n
	}
	if rotidx%n == 0 {
		Refuse("GenRotationKey", "amount zero")
	}
	if _, in := g.params.CRS[rotidx]; !in {
		Refuse("GenRotationKey", "no reference string")
	}
	return &RotationKey{ID: sk.ID, RotIdx: uint(rotidx), SK: sk}
}
func (g *KeyGenerator) GenDefaultRotationKeys(sk *SecretKey, set *RotationKeySet) {
	for r := 1; r < g.params.N()/2; r *= 2 {
		set.AddRotationKey(g.GenRotationKey(r, sk))
	}
}
func (g *KeyGenerator) GenConjugationKey(sk *SecretKey) *ConjugationKey {
	return &ConjugationKey{ID: sk.ID, SK: sk}
}
func (g *KeyGenerator) GenSwitchingKey(sk *SecretKey, swk *SwitchingKey) {}

// ---- ciphertexts ----------------------------------------------------------------

type HoistedCiphertext struct {
	Value map[string]*SwitchingKey
	Of    *Ciphertext
}

func NewHoistedCiphertext() *HoistedCiphertext {
	return &HoistedCiphertext{Value: map[string]*SwitchingKey{}}
}

// Ciphertext: Keys names the secret key each participant's share is under (nil: no data yet).
type Ciphertext struct {
	Value map[string]*ring.Poly
	Keys  map[string]*SecretKey
	Lvl   int
	Slots []complex128
	Err   float64
}

func NewCiphertext(params Parameters, idset *IDSet, level int) *Ciphertext {
	c := &Ciphertext{Keys: map[string]*SecretKey{}, Lvl: level, Slots: make([]complex128, params.N()/2)}
	for id := range idset.Value {
		c.Keys[id] = nil
	}
	return c
}
func NewCiphertextNTT(params Parameters, idset *IDSet, level int) *Ciphertext {
	return NewCiphertext(params, idset, level)
}
func (c *Ciphertext) IDSet() *IDSet {
	s := NewIDSet()
	for id := range c.Keys {
		s.Add(id)
	}
	return s
}
func (c *Ciphertext) Level() int      { return c.Lvl }
func (c *Ciphertext) El() *Ciphertext { return c }
func (c *Ciphertext) CopyNew() *Ciphertext {
	r := &Ciphertext{Keys: map[string]*SecretKey{}, Lvl: c.Lvl, Slots: append([]complex128{}, c.Slots...), Err: c.Err}
	for id, k := range c.Keys {
		r.Keys[id] = k
	}
	return r
}
func (c *Ciphertext) Copy(d *Ciphertext) {
	r := d.CopyNew()
	c.Slots, c.Keys, c.Err = r.Slots, r.Keys, r.Err
}
func (c *Ciphertext) PadCiphertext(idset *IDSet) {
	for id := range idset.Value {
		if _, in := c.Keys[id]; !in {
			c.Keys[id] = nil
		}
	}
}
