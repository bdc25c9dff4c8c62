package main

import (
	"encoding/json"
	"fmt"
	"sort"

	"mk-lr/mkrlwe"
)

// Registries and participant sets (spec/KeyReg.tla).

type regOp struct {
	Nm  string            `json:"nm"`
	Out string            `json:"out"`
	A   []json.RawMessage `json:"a"`
	B   int               `json:"b"`
	C   int               `json:"c"`
	D   int               `json:"d"`
}

type regObs struct {
	Reg [][]json.RawMessage `json:"reg"`
	Set [][]int             `json:"set"`
}

type regTest struct {
	Ops []regOp `json:"ops"`
	Obs regObs  `json:"obs"`
}

type regInput struct {
	Ring  RingCfg   `json:"ring"`
	Kinds []string  `json:"kinds"`
	NReg  int       `json:"nreg"`
	NId   int       `json:"nid"`
	NAmt  int       `json:"namt"`
	NVer  int       `json:"nver"`
	NSet  int       `json:"nset"`
	Names int       `json:"names"`
	Tests []regTest `json:"tests"`
}

type entry struct {
	kind          string
	reg, id, amt_ int
}

var regAmts = []uint{0, 1, 2, 3, 1 << 20, 0xFFFFFFFF, 1<<32 + 1}

type regWorld struct {
	in    *regInput
	par   mkrlwe.Parameters
	names []string
	sk    []*mkrlwe.SecretKeySet
	pk    []*mkrlwe.PublicKeySet
	rlk   []*mkrlwe.RelinearizationKeySet
	cjk   []*mkrlwe.ConjugationKeySet
	rk    []*mkrlwe.RotationKeySet
	set   []*mkrlwe.IDSet
}

func newRegWorld(in *regInput, par mkrlwe.Parameters) *regWorld {
	w := &regWorld{in: in, par: par, names: idNames[in.Names%len(idNames)]}
	for i := 0; i <= in.NReg; i++ {
		w.sk = append(w.sk, mkrlwe.NewSecretKeySet())
		w.pk = append(w.pk, mkrlwe.NewPublicKeyKeySet())
		w.rlk = append(w.rlk, mkrlwe.NewRelinearizationKeyKeySet(par))
		w.cjk = append(w.cjk, mkrlwe.NewConjugationKeySet())
		w.rk = append(w.rk, mkrlwe.NewRotationKeySet())
	}
	for i := 0; i <= in.NSet; i++ {
		w.set = append(w.set, mkrlwe.NewIDSet())
	}
	return w
}

func (w *regWorld) ent(a []json.RawMessage) entry {
	var e entry
	json.Unmarshal(a[0], &e.kind)
	json.Unmarshal(a[1], &e.reg)
	json.Unmarshal(a[2], &e.id)
	json.Unmarshal(a[3], &e.amt_)
	return e
}

// a key whose content tells which one it is
func mark(e entry, ver int) uint64 { return uint64(1000*e.reg + 100*e.id + 10*e.amt_ + ver) }

func (w *regWorld) add(e entry, ver int) {
	id := w.names[e.id]
	m := mark(e, ver)
	switch e.kind {
	case "sk":
		k := mkrlwe.NewSecretKey(w.par, id)
		k.Value.Q.Coeffs[0][1] = m
		w.sk[e.reg].AddSecretKey(k)
	case "pk":
		k := mkrlwe.NewPublicKey(w.par, id)
		k.Value[0].Q.Coeffs[0][1] = m
		k.Value[1].Q.Coeffs[0][2] = m + 1
		w.pk[e.reg].AddPublicKey(k)
	case "rlk":
		k := mkrlwe.NewRelinearizationKey(w.par, id)
		for i := 0; i < 3; i++ {
			k.Value[i].Value[0].Q.Coeffs[0][1] = m + uint64(i)
		}
		w.rlk[e.reg].AddRelinearizationKey(k)
	case "cjk":
		k := mkrlwe.NewConjugationKey(w.par, id)
		k.Value.Value[0].Q.Coeffs[0][1] = m
		w.cjk[e.reg].AddConjugationKey(k)
	case "rk":
		k := mkrlwe.NewRotationKey(w.par, regAmts[e.amt_], id)
		k.Value.Value[0].Q.Coeffs[0][1] = m
		w.rk[e.reg].AddRotationKey(k)
	}
}

func (w *regWorld) del(e entry) {
	id := w.names[e.id]
	switch e.kind {
	case "sk":
		w.sk[e.reg].DelSecretKey(id)
	case "pk":
		w.pk[e.reg].DelPublicKey(id)
	case "rlk":
		w.rlk[e.reg].DelRelinearizationKey(id)
	case "cjk":
		w.cjk[e.reg].DelConjugationKey(id)
	case "rk":
		w.rk[e.reg].DelRotationKey(id, regAmts[e.amt_])
	}
}

// get looks an entry up: version, or 0 when refused; an error when the key is not the one asked for
func (w *regWorld) get(e entry) (int, error) {
	id := w.names[e.id]
	var m uint64
	var gotID string
	var amt uint
	null := false
	pan, _ := try(func() {
		switch e.kind {
		case "sk":
			k := w.sk[e.reg].GetSecretKey(id)
			if null = k == nil; !null {
				m, gotID = k.Value.Q.Coeffs[0][1], k.ID
			}
		case "pk":
			k := w.pk[e.reg].GetPublicKey(id)
			if null = k == nil; !null {
				m, gotID = k.Value[0].Q.Coeffs[0][1], k.ID
				if k.Value[1].Q.Coeffs[0][2] != m+1 {
					m = 0
				}
			}
		case "rlk":
			k := w.rlk[e.reg].GetRelinearizationKey(id)
			if null = k == nil; !null {
				m, gotID = k.Value[0].Value[0].Q.Coeffs[0][1], k.ID
				for i := 1; i < 3; i++ {
					if k.Value[i].Value[0].Q.Coeffs[0][1] != m+uint64(i) {
						m = 0
					}
				}
			}
		case "cjk":
			k := w.cjk[e.reg].GetConjugationKey(id)
			if null = k == nil; !null {
				m, gotID = k.Value.Value[0].Q.Coeffs[0][1], k.ID
			}
		case "rk":
			k := w.rk[e.reg].GetRotationKey(id, regAmts[e.amt_])
			if null = k == nil; !null {
				m, gotID, amt = k.Value.Value[0].Q.Coeffs[0][1], k.ID, k.RotIdx
			}
		}
	})
	if pan {
		return 0, nil
	}
	if null {
		return 0, fmt.Errorf("the lookup of %s key of %q in registry %d returned nothing instead of being refused", e.kind, id, e.reg)
	}
	if gotID != id || (e.kind == "rk" && amt != regAmts[e.amt_]) {
		return 0, fmt.Errorf("the lookup of the %s key of %q (amount %d) returned the key of %q (amount %d)", e.kind, id, regAmts[e.amt_], gotID, amt)
	}
	for v := 1; v <= w.in.NVer; v++ {
		if m == mark(e, v) {
			return v, nil
		}
	}
	return 0, fmt.Errorf("the lookup of the %s key of %q in registry %d returned a key that was never added there (%d)", e.kind, id, e.reg, m)
}

func (w *regWorld) step(o *regOp) error {
	var f func()
	var perr error
	switch o.Nm {
	case "add":
		e := w.ent(o.A)
		f = func() { w.add(e, o.B) }
	case "del":
		e := w.ent(o.A)
		f = func() { w.del(e) }
	case "get":
		e := w.ent(o.A)
		v, err := w.get(e)
		if err != nil {
			return err
		}
		if v != o.B {
			return fmt.Errorf("the lookup of the %s key of %q gave version %d, the specification says %d", e.kind, w.names[e.id], v, o.B)
		}
		return nil
	case "keycopy":
		e := w.ent(o.A)
		id := w.names[e.id]
		f = func() {
			if e.kind == "sk" {
				k := w.sk[e.reg].GetSecretKey(id)
				c := k.CopyNew()
				if c.ID != id || !k.Value.Equals(c.Value) {
					perr = fmt.Errorf("the copy of a secret key differs from it")
				}
				c.ID = "scribble"
				c.Value.Q.Coeffs[0][1] = 77
				c.Value.P.Coeffs[0][0] = 77
				if k.Value.P.Coeffs[0][0] == 77 {
					perr = fmt.Errorf("the copy of a secret key shares storage with it")
				}
			} else {
				k := w.pk[e.reg].GetPublicKey(id)
				c := k.CopyNew()
				if c.ID != id || !k.Value[0].Equals(c.Value[0]) || !k.Value[1].Equals(c.Value[1]) {
					perr = fmt.Errorf("the copy of a public key differs from it")
				}
				c.ID = "scribble"
				c.Value[0].Q.Coeffs[0][1] = 77
				c.Value[1].Q.Coeffs[0][2] = 77
				c.Value[0].P.Coeffs[0][0] = 77
				if k.Value[0].P.Coeffs[0][0] == 77 {
					perr = fmt.Errorf("the copy of a public key shares storage with it")
				}
			}
		}
	case "sadd":
		f = func() { w.set[o.B].Add(w.id(o.C)) }
	case "srem":
		f = func() { w.set[o.B].Remove(w.id(o.C)) }
	case "union":
		f = func() { w.set[o.D] = w.set[o.B].Union(w.set[o.C]) }
	case "inter":
		f = func() { w.set[o.D] = w.set[o.B].Intersection(w.set[o.C]) }
	case "scopy":
		f = func() { w.set[o.C] = w.set[o.B].CopyNew() }
	case "snew":
		f = func() { w.set[o.C] = mkrlwe.NewIDSet() }
	case "ctset":
		f = func() { w.set[o.C] = mkrlwe.NewCiphertext(w.par, w.set[o.B], 0).IDSet() }
	case "pad":
		f = func() {
			ct := mkrlwe.NewCiphertext(w.par, w.set[o.B], 0)
			ct.PadCiphertext(w.set[o.C])
			w.set[o.D] = ct.IDSet()
		}
	default:
		fatal("unknown registry operation %q", o.Nm)
	}
	pan, msg := try(f)
	if perr != nil {
		return perr
	}
	if pan && o.Out == "ok" {
		return fmt.Errorf("%s was refused (%s) where the specification says it succeeds", o.Nm, msg)
	}
	if !pan && o.Out == "refuse" {
		return fmt.Errorf("%s succeeded where the specification says it is refused", o.Nm)
	}
	return nil
}

func (w *regWorld) id(i int) string {
	if i == 0 {
		return "0"
	}
	return w.names[i]
}

func (w *regWorld) observe(o *regObs) error {
	want := map[entry]int{}
	for _, r := range o.Reg {
		e := w.ent(r)
		v := 0
		json.Unmarshal(r[4], &v)
		want[e] = v
	}
	for _, k := range w.in.Kinds {
		for r := 1; r <= w.in.NReg; r++ {
			for i := 1; i <= w.in.NId; i++ {
				as := []int{0}
				if k == "rk" {
					as = nil
					for a := 1; a <= w.in.NAmt; a++ {
						as = append(as, a)
					}
				}
				for _, a := range as {
					e := entry{k, r, i, a}
					v, err := w.get(e)
					if err != nil {
						return err
					}
					if v != want[e] {
						return fmt.Errorf("registry %d holds version %d of the %s key of %q (amount %d), the specification says %d", r, v, k, w.names[i], regAmts[a], want[e])
					}
				}
			}
		}
	}
	for s := 1; s <= w.in.NSet; s++ {
		m := map[int]bool{}
		for _, i := range o.Set[s-1] {
			m[i] = true
		}
		n := 0
		for i := 0; i <= w.in.NId; i++ {
			has := w.set[s].Has(w.id(i))
			if has != m[i] {
				return fmt.Errorf("participant set %d: membership of %q is %v, the specification says %v", s, w.id(i), has, m[i])
			}
			if has {
				n++
			}
		}
		if w.set[s].Size() != n {
			return fmt.Errorf("participant set %d reports size %d, it has %d members", s, w.set[s].Size(), n)
		}
	}
	return nil
}

func runKeyReg(inp, out string) {
	var in regInput
	readJSON(inp, &in)
	_, par := in.Ring.params()
	rep := Report{Ops: map[string]int{}, MaxErr: -999}
	for i := range in.Tests {
		t := &in.Tests[i]
		w := newRegWorld(&in, par.Parameters)
		var err error
		j := 0
		pan, msg := try(func() {
			for ; j < len(t.Ops) && err == nil; j++ {
				rep.Ops[t.Ops[j].Nm]++
				rep.Steps++
				err = w.step(&t.Ops[j])
			}
			if err == nil {
				err = w.observe(&t.Obs)
			}
		})
		if pan {
			err = fmt.Errorf("observing the registries failed: %s", msg)
		}
		rep.Behaviours++
		rep.Checks++
		if err != nil {
			rep.Failures = append(rep.Failures, Failure{Behaviour: i, Step: j - 1, Op: t.Ops[len(t.Ops)-1].Nm, Kind: "divergence", Reason: err.Error()})
			if len(rep.Failures) > 20 {
				break
			}
		}
	}
	sort.Slice(rep.Failures, func(i, j int) bool {
		return len(in.Tests[rep.Failures[i].Behaviour].Ops) < len(in.Tests[rep.Failures[j].Behaviour].Ops)
	})
	writeJSON(out, rep)
}

func init() { modes["keyreg"] = runKeyReg }
