package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

// RingCfg describes a concrete parameter set a behaviour is replayed on.
type RingCfg struct {
	Name     string   `json:"name"`
	LogN     int      `json:"logN"`
	LogSlots int      `json:"logSlots"`
	LogQ     []int    `json:"logQ"`
	LogP     []int    `json:"logP"`
	Q        []uint64 `json:"q"`
	P        []uint64 `json:"p"`
	ScaleB   int      `json:"scaleB"`
	Stride   int      `json:"stride"` // real slots per model slot
	Heavy    bool     `json:"heavy"`  // large ring: cheaper frame checks, only the keys that are needed
	NB       int      `json:"nb"`
	Sigma10  int      `json:"sigma10"` // width of the errors in tenths; 0: the default width
}

func (c RingCfg) params() (ckks.Parameters, mkckks.Parameters) {
	lit := ckks.ParametersLiteral{LogN: c.LogN, LogSlots: c.LogSlots, Scale: math.Exp2(float64(c.ScaleB)), Sigma: rlwe.DefaultSigma}
	if c.Sigma10 > 0 {
		lit.Sigma = float64(c.Sigma10) / 10
	}
	if len(c.Q) > 0 {
		lit.Q = c.Q
		lit.P = c.P
	} else {
		lit.LogQ = c.LogQ
		lit.LogP = c.LogP
	}
	p, err := ckks.NewParametersFromLiteral(lit)
	if err != nil {
		fatal("parameters: %v", err)
	}
	return p, mkckks.NewParameters(p)
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR "+f+"\n", a...)
	os.Exit(4)
}

// identities with awkward shapes: none of them is the reserved "0"
var idNames = [][]string{
	{"", "alice", "bob", "carol", "dave", "erin", "frank", "grace", "heidi", "ivan", "judy"},
	{"", "00", "0 ", "01", "-0", "zero", "0x0", "000", " 0", "0.0", "O"},
	{"", "user1", "user11", "user", "USER1", "user1 ", "user10", "user2", "resu1", "user1user1", "u"},
	{"", "", "\x00", "ключ", "a\nb", "鍵", "é", "e\u0301", "\xff", "\t", "\"q\""},
	{"", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10"},
}

// ---- digests --------------------------------------------------------------

type hasher uint64

func newHasher() hasher { return 1469598103934665603 }
func (h *hasher) word(w uint64) {
	x := uint64(*h)
	x ^= w
	x *= 0x9E3779B97F4A7C15
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	*h = hasher(x)
}
func (h *hasher) str(s string) {
	h.word(uint64(len(s)))
	for i := 0; i < len(s); i++ {
		h.word(uint64(s[i]))
	}
}
func (h *hasher) poly(p *ring.Poly) {
	if p == nil {
		h.word(7)
		return
	}
	h.word(uint64(len(p.Coeffs)))
	if p.IsNTT {
		h.word(3)
	}
	if p.IsMForm {
		h.word(5)
	}
	for _, c := range p.Coeffs {
		h.word(uint64(len(c)))
		for _, w := range c {
			h.word(w)
		}
	}
}

func (h *hasher) swk(s *mkrlwe.SwitchingKey) {
	if s == nil {
		h.word(11)
		return
	}
	h.word(uint64(len(s.Value)))
	for i := range s.Value {
		h.poly(s.Value[i].Q)
		h.poly(s.Value[i].P)
	}
}

func ctDigest(ct *mkckks.Ciphertext) uint64 {
	h := newHasher()
	h.word(math.Float64bits(ct.Scale))
	ids := make([]string, 0, len(ct.Value))
	for id := range ct.Value {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		h.str(id)
		h.poly(ct.Value[id])
	}
	return uint64(h)
}

func hoDigest(ho *mkrlwe.HoistedCiphertext) uint64 {
	h := newHasher()
	ids := make([]string, 0, len(ho.Value))
	for id := range ho.Value {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		h.str(id)
		h.swk(ho.Value[id])
	}
	return uint64(h)
}

func ptDigest(p *ckks.Plaintext) uint64 {
	h := newHasher()
	h.word(math.Float64bits(p.Scale))
	h.poly(p.Value)
	return uint64(h)
}

// canonical digest: coefficients modulo their modulus, for comparing two results
func ctCanon(ct *mkckks.Ciphertext, q []uint64) uint64 {
	h := newHasher()
	h.word(math.Float64bits(ct.Scale))
	ids := make([]string, 0, len(ct.Value))
	for id := range ct.Value {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		h.str(id)
		p := ct.Value[id]
		h.word(uint64(len(p.Coeffs)))
		for i, c := range p.Coeffs {
			for _, w := range c {
				h.word(w % q[i])
			}
		}
	}
	return uint64(h)
}

// ---- storage --------------------------------------------------------------

func rowAddr(c []uint64) uintptr {
	if len(c) == 0 {
		return 0
	}
	return uintptr(unsafe.Pointer(&c[0]))
}

func polyRows(p *ring.Poly, f func(uintptr)) {
	if p == nil {
		return
	}
	for _, c := range p.Coeffs {
		if a := rowAddr(c); a != 0 {
			f(a)
		}
	}
}
func swkRows(s *mkrlwe.SwitchingKey, f func(uintptr)) {
	if s == nil {
		return
	}
	for i := range s.Value {
		polyRows(s.Value[i].Q, f)
		polyRows(s.Value[i].P, f)
	}
}
func ctRows(ct *mkckks.Ciphertext, f func(uintptr)) {
	for _, p := range ct.Value {
		polyRows(p, f)
	}
}
func hoRows(ho *mkrlwe.HoistedCiphertext, f func(uintptr)) {
	for _, s := range ho.Value {
		swkRows(s, f)
	}
}

// ---- misc -------------------------------------------------------------------

func idsOf(set *mkrlwe.IDSet) []string {
	r := make([]string, 0, len(set.Value))
	for id := range set.Value {
		r = append(r, id)
	}
	sort.Strings(r)
	return r
}

func eqStrings(a, b []string) bool { return (len(a) == 0 && len(b) == 0) || reflect.DeepEqual(a, b) }

func bigQ(q []uint64, lvl int) *big.Int {
	r := big.NewInt(1)
	for i := 0; i <= lvl; i++ {
		r.Mul(r, new(big.Int).SetUint64(q[i]))
	}
	return r
}

// try runs f and reports whether it panicked.
func try(f func()) (panicked bool, msg string) {
	defer func() {
		if e := recover(); e != nil {
			panicked = true
			msg = fmt.Sprint(e)
			if len(msg) > 200 {
				msg = msg[:200]
			}
			msg = strings.Replace(msg, "\n", " ", -1)
		}
	}()
	f()
	return
}

func readJSON(path string, v interface{}) {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(b, v); err != nil {
		fatal("%s: %v", path, err)
	}
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, b, 0644); err != nil {
		fatal("%v", err)
	}
}

// Failure is one disagreement between the specification and the code.
type Failure struct {
	Behaviour int    `json:"behaviour"`
	Step      int    `json:"step"`
	Op        string `json:"op"`
	Kind      string `json:"kind"`
	Reason    string `json:"reason"`
	Ring      string `json:"ring"`
}

// Report is what a driver writes for the runner.
type Report struct {
	Behaviours int            `json:"behaviours"`
	Steps      int            `json:"steps"`
	Checks     int            `json:"checks"`
	Ops        map[string]int `json:"ops"`
	Failures   []Failure      `json:"failures"`
	Samples    []string       `json:"samples"`
	MaxErr     float64        `json:"max_err_ratio_log2"`
}

// hoistPools visits the scratch memory of a relinearization key set, if it has any.
func hoistPools(s *mkrlwe.RelinearizationKeySet, f func(*mkrlwe.HoistedCiphertext)) {
	v := reflect.ValueOf(s).Elem().FieldByName("HoistPool")
	if !v.IsValid() || (v.Kind() != reflect.Array && v.Kind() != reflect.Slice) {
		return
	}
	for i := 0; i < v.Len(); i++ {
		if h, ok := v.Index(i).Interface().(*mkrlwe.HoistedCiphertext); ok && h != nil {
			f(h)
		}
	}
}

func writeFile(path string, b []byte) {
	if err := os.WriteFile(path, b, 0644); err != nil {
		fatal("%v", err)
	}
}

func prodOf(ms []uint64) *big.Int {
	r := big.NewInt(1)
	for _, m := range ms {
		r.Mul(r, new(big.Int).SetUint64(m))
	}
	return r
}

func mulmod(a, b, m uint64) uint64 {
	x := new(big.Int).Mul(new(big.Int).SetUint64(a), new(big.Int).SetUint64(b))
	return x.Mod(x, new(big.Int).SetUint64(m)).Uint64()
}
