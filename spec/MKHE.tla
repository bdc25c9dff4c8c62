-------------------------------- MODULE MKHE --------------------------------
(***************************************************************************)
(* Abstract machine of the multi-key CKKS library (mkckks on mkrlwe).       *)
(*                                                                          *)
(* The state is what a user of the library can talk about: the parties and  *)
(* the keys they registered, the common reference string, ciphertexts held  *)
(* in registers, encoded plaintexts, precomputed (hoisted) forms.  A        *)
(* ciphertext is its meaning: participants, level, scale, the slot vector   *)
(* it decrypts to, and bounds on the error of that vector.  One action per  *)
(* public operation; the outcome of an operation is "ok", "refuse" (the     *)
(* operation must fail visibly), "any" (it may be refused, but if it        *)
(* returns, the result must be the right one) or "err" (an error value).    *)
(*                                                                          *)
(* With Gen = TRUE the choices are drawn at random and every behaviour is   *)
(* written out as JSON, to be replayed into the real code step by step.     *)
(* With Gen = FALSE TLC enumerates all choices within small constants, and  *)
(* with Rec = TRUE writes out every behaviour of that enumeration.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  NP,         \* number of parties
  NR,         \* number of ciphertext registers
  NHo,        \* number of registers for hoisted forms
  NPt,        \* number of registers for encoded plaintexts
  Slots,      \* slots of a message
  NH,         \* half the ring degree: rotation amounts live modulo NH
  MaxLvl,     \* top level
  Q0B, QB,    \* bits of the modulus of level 0 / of every other level
  SB,         \* bits of the default scale
  NB, PB,     \* log2 bounds of encryption/switching noise and of plaintext rounding
  Mix,        \* sequence of operation classes (repetition = weight)
  Prefix,     \* sequence of sets of classes the behaviour starts with
  KMode,      \* keys made at a join: "all", "bare", "mixed"
  Depth,      \* length of a generated behaviour
  Gen,        \* draw the choices at random (otherwise: enumerate them)?
  Rec         \* write the behaviours out?

Parties == 1..NP
Regs    == 1..NR
HoRegs  == 1..NHo
PtRegs  == 1..NPt

VARIABLES
  key,    \* party -> keys: see NoKeys
  crs,    \* rotation amounts covered by the reference string
  ct,     \* register -> ciphertext
  pt,     \* register -> encoded plaintext
  ho,     \* register -> hoisted form
  uid,    \* supply of content identities
  n,      \* steps taken
  hist    \* behaviour so far (Rec only)

vars == <<key, crs, ct, pt, ho, uid, n, hist>>

------------------------------------------------------------------------------
(* helpers *)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Max3(a, b, c) == Max(a, Max(b, c))
Abs(a) == IF a < 0 THEN -a ELSE a
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Mod(a, m) == a % m                        \* TLC: non-negative for m > 0
Pow2(k) == 2^k

\* one random element when generating, every element when enumerating
Pick(S) == IF Gen THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
\* a random element of a constant set; the argument keeps TLC from caching it
RE(S, x) == RandomElement(S)

RECURSIVE Log2c(_)
\* number of bits of a: smallest k with a < 2^k
Log2c(a) == IF a = 0 THEN 0 ELSE 1 + Log2c(a \div 2)

SlotIx == 1..Slots

------------------------------------------------------------------------------
(* slot vectors over the Gaussian integers; the value is v * 2^-den *)
VMap2(f(_, _), a, b) == [i \in SlotIx |-> f(a[i], b[i])]
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
CMul(x, y) == <<x[1]*y[1] - x[2]*y[2], x[1]*y[2] + x[2]*y[1]>>
VAdd(a, b) == TLCEval([i \in SlotIx |-> CAdd(a[i], b[i])])
VSub(a, b) == TLCEval([i \in SlotIx |-> CSub(a[i], b[i])])
VMul(a, b) == TLCEval([i \in SlotIx |-> CMul(a[i], b[i])])
VScale(a, c) == TLCEval([i \in SlotIx |-> CMul(a[i], c)])
VConj(a) == TLCEval([i \in SlotIx |-> <<a[i][1], -a[i][2]>>])
VRot(a, k) == TLCEval([i \in SlotIx |-> a[1 + Mod(i - 1 + k, Slots)]])
VZero == [i \in SlotIx |-> <<0, 0>>]
\* bits of the largest slot (complex modulus), rounded up
MagV(v) == 1 + Log2c(MaxOf({Max(Abs(v[i][1]), Abs(v[i][2])) : i \in SlotIx}))
Mag(c) == MagV(c.v) - c.den

------------------------------------------------------------------------------
(* scales are symbolic: 2^t * 3^th * prod q_i^q[i] *)
Lvls == 0..MaxLvl
NoQ == [i \in Lvls |-> 0]
QBitsAt(l) == IF l = 0 THEN Q0B ELSE QB
QBits(l) == Q0B + l*QB
RECURSIVE SumQ(_, _)
SumQ(q, l) == IF l < 0 THEN 0 ELSE q[l]*QBitsAt(l) + SumQ(q, l - 1)
\* log2 of a scale in sixteenths of a bit (3 counts 25/16)
Sc16(s) == 16*s.t + 25*s.th + 16*SumQ(s.q, MaxLvl)
ScB(s) == (Sc16(s) + 15) \div 16
ScFloor(s) == Sc16(s) \div 16
S2(t) == [t |-> t, th |-> 0, q |-> NoQ, ap |-> FALSE]
S3(t) == [t |-> t, th |-> 1, q |-> NoQ, ap |-> FALSE]
Default == S2(SB)
ScMul(a, b) == [t |-> a.t + b.t, th |-> a.th + b.th, q |-> [i \in Lvls |-> a.q[i] + b.q[i]], ap |-> a.ap \/ b.ap]
ScDivQ(a, l) == [a EXCEPT !.q[l] = @ - 1]
ScMulQ(a, l) == [a EXCEPT !.q[l] = @ + 1]

Drift == 18         \* relative error 2^-Drift bounds what unequal moduli do to a sum
NoErr == -1000

------------------------------------------------------------------------------
(* ciphertexts *)
NoCt == [on |-> FALSE]
Ct(ids, lvl, sc, v, den, eb, rb, ntt) ==
  [on |-> TRUE, ids |-> ids, lvl |-> lvl, sc |-> sc, v |-> v, den |-> den, eb |-> eb, rb |-> rb, ntt |-> ntt, uid |-> uid + 1]

\* the content fits under the modulus, with room, before and after
Fits(lvl, sc, mag, eb) == /\ ScB(sc) + Max(mag, 0) + 3 <= QBits(lvl)
                          /\ eb + 3 <= QBits(lvl)
\* the error is small enough to tell neighbouring values apart
Useful(c) == /\ c.eb - ScFloor(c.sc) <= -c.den - 4
             /\ c.rb <= -c.den - 4
             /\ MagV(c.v) <= 25
             /\ c.den <= 14 /\ c.den >= -80
             /\ \A i \in Lvls : Abs(c.sc.q[i]) <= 6
Good(c) == Fits(c.lvl, c.sc, Mag(c), c.eb) /\ Useful(c)

On(r) == ct[r].on
Live == {r \in Regs : ct[r].on}
CLive == {r \in Live : ~ct[r].ntt}      \* coefficient domain: the ones the evaluator takes

------------------------------------------------------------------------------
(* keys *)
Pow2s == {k \in 1..(NH-1) : \E j \in 0..20 : k = Pow2(j)}
NoKeys == [st |-> "none", sk |-> FALSE, rlk |-> FALSE, cjk |-> FALSE, rk |-> {},
           grlk |-> FALSE, gcjk |-> FALSE, grk |-> {}]
Joined == {p \in Parties : key[p].st # "none"}
Active == {p \in Parties : key[p].st = "in"}
\* someone with whose public key data can be encrypted
HasRlk(ids) == \A p \in ids : key[p].rlk
HasCjk(ids) == \A p \in ids : key[p].cjk
HasRk(ids, k) == \A p \in ids : k \in key[p].rk
RECURSIVE BitsOf(_)
BitsOf(k) == IF k = 0 THEN {} ELSE LET h == Pow2(Log2c(k) - 1) IN {h} \cup BitsOf(k - h)

\* outcome of rotating participants ids by k
RotOut(ids, k) ==
  LET r == Mod(k, NH) IN
  IF r = 0 THEN "ok"
  ELSE IF r \in crs THEN (IF HasRk(ids, r) THEN "ok" ELSE IF ids = {} THEN "ok" ELSE "any")
  ELSE IF \A b \in BitsOf(r) : HasRk(ids, b) THEN "ok" ELSE "any"
RotSwitches(k) == LET r == Mod(k, NH) IN IF r = 0 THEN 0 ELSE IF r \in crs THEN 1 ELSE Cardinality(BitsOf(r))
RotHOut(ids, k) ==
  LET r == Mod(k, NH) IN
  IF r = 0 THEN "ok" ELSE IF r \in crs /\ HasRk(ids, r) THEN "ok" ELSE "refuse"

------------------------------------------------------------------------------
(* meaning of the operations on ciphertexts *)

\* rescaling: min16 is log2 of the target in sixteenths of a bit
RECURSIVE RescaleTo(_, _, _, _)
RescaleTo(lvl, sc, eb, min16) ==
  IF lvl > 0 /\ Sc16(sc) - 16*QBitsAt(lvl) >= min16 - 16
  THEN RescaleTo(lvl - 1, ScDivQ(sc, lvl), Max(eb - QBitsAt(lvl), NB) + 1, min16)
  ELSE [lvl |-> lvl, sc |-> sc, eb |-> eb]
RECURSIVE RescaleClear(_, _, _)
\* no division is so close to the boundary that the exact moduli decide it
RescaleClear(lvl, sc, min16) ==
  IF lvl = 0 THEN TRUE
  ELSE LET d == Sc16(sc) - 16*QBitsAt(lvl) - (min16 - 16) IN
       /\ Abs(d) >= 4
       /\ (d >= 0 => RescaleClear(lvl - 1, ScDivQ(sc, lvl), min16))
Rescaled(c, min16) == LET x == RescaleTo(c.lvl, c.sc, c.eb, min16)
                      IN [c EXCEPT !.lvl = x.lvl, !.sc = x.sc, !.eb = x.eb]
\* one division: the error of the lost modulus, and rounding
OneDown(c) == [c EXCEPT !.lvl = @ - 1, !.sc = ScDivQ(@, c.lvl), !.eb = Max(@ - QBitsAt(c.lvl), NB) + 1]
RescaledT(c, t) == IF t.edge = "" THEN Rescaled(c, t.k16) ELSE IF t.edge = "above" THEN c ELSE OneDown(c)
\* scale / modulus is a power of two, whichever way it is computed
EdgeExact(c) == ~c.sc.ap /\ c.sc.th = 0 /\ \A i \in Lvls : c.sc.q[i] = IF i = c.lvl THEN 1 ELSE 0
\* sums: scales equal, one an integer multiple, or far enough apart
\* (floating-point scales are exact multiples only while no modulus is involved)
SumExact(a, b) == /\ ~a.ap /\ ~b.ap /\ a.q = b.q
                  /\ \/ a.t = b.t /\ a.th = b.th
                     \/ a.q = NoQ /\ ((a.t >= b.t /\ a.th >= b.th) \/ (b.t >= a.t /\ b.th >= a.th))
SumOK(a, b) ==
  \/ SumExact(a, b)
  \/ a.t = b.t /\ a.th = b.th /\ Sc16(a) = Sc16(b)
  \/ Abs(Sc16(a) - Sc16(b)) >= 16*20
ScMax(a, b) == IF Sc16(a) >= Sc16(b) THEN a ELSE b
SumCt(a, b, neg) ==
  LET big == ScMax(a.sc, b.sc)
      sc  == IF SumExact(a.sc, b.sc) \/ Sc16(a.sc) # Sc16(b.sc) THEN big ELSE [big EXCEPT !.ap = TRUE]
      da  == ScB(big) - ScFloor(a.sc)
      db  == ScB(big) - ScFloor(b.sc)
      d   == Max(a.den, b.den)
      va  == VScale(a.v, <<Pow2(d - a.den), 0>>)
      vb  == VScale(b.v, <<Pow2(d - b.den), 0>>)
      eb  == Max(a.eb + (IF Sc16(a.sc) = Sc16(big) THEN 0 ELSE da), b.eb + (IF Sc16(b.sc) = Sc16(big) THEN 0 ELSE db)) + 1
      rb  == Max(a.rb, b.rb) + 1
      rb2 == IF SumExact(a.sc, b.sc) THEN rb ELSE Max(rb, Max(Mag(a), Mag(b)) - Drift + 1)
  IN Ct(a.ids \cup b.ids, Min(a.lvl, b.lvl), sc, IF neg THEN VSub(va, vb) ELSE VAdd(va, vb), d, eb, rb2, FALSE)
SumCan(a, b) == /\ SumOK(a.sc, b.sc)
                /\ Abs(a.den - b.den) <= 8
                /\ MagV(a.v) + Abs(a.den - b.den) <= 20 /\ MagV(b.v) + Abs(a.den - b.den) <= 20

ProdCt(a, b) ==
  LET ba == ScB(a.sc) + Mag(a)
      bb == ScB(b.sc) + Mag(b)
      eb == Max3(ba + b.eb, bb + a.eb, Max(a.eb + b.eb, NB)) + 2
      rb == Max3(Mag(a) + b.rb, Mag(b) + a.rb, NoErr) + 2
  IN Ct(a.ids \cup b.ids, Min(a.lvl, b.lvl), ScMul(a.sc, b.sc), VMul(a.v, b.v), a.den + b.den, eb, Max(rb, NoErr), FALSE)
ProdCan(a, b) ==
  /\ MagV(a.v) + MagV(b.v) <= 26
  /\ LET x == ProdCt(a, b) IN /\ Fits(x.lvl, x.sc, Mag(x), x.eb)
                              /\ RescaleClear(x.lvl, x.sc, 16*SB)
                              /\ Good(Rescaled(x, 16*SB))
Product(a, b) == Rescaled(ProdCt(a, b), 16*SB)

\* product with an encoded plaintext p = [v, den, sc]
PtProdCt(a, p) ==
  LET ba == ScB(a.sc) + Mag(a)
      bp == ScB(p.sc) + (MagV(p.v) - p.den)
      pe == Max(PB, bp - 44)
      eb == Max3(ba + pe, bp + a.eb, NB) + 2
      rb == Max(MagV(p.v) - p.den + a.rb, NoErr)
  IN Ct(a.ids, a.lvl, ScMul(a.sc, p.sc), VMul(a.v, p.v), a.den + p.den, eb, rb, FALSE)
PtProdCan(a, p) ==
  /\ MagV(a.v) + MagV(p.v) <= 26
  /\ LET x == PtProdCt(a, p) IN /\ Fits(x.lvl, x.sc, Mag(x), x.eb)
                                /\ RescaleClear(x.lvl, x.sc, 16*SB)
                                /\ Good(Rescaled(x, 16*SB))
PtProduct(a, p) == Rescaled(PtProdCt(a, p), 16*SB)

\* product with the constant k = (k.re + k.im*i) * 2^-k.den ; a fractional part costs a modulus of scale
Frac(k) == k.den > 0 /\ (Mod(k.re, Pow2(Min(k.den, 20))) # 0 \/ Mod(k.im, Pow2(Min(k.den, 20))) # 0)
KMag(k) == 1 + Log2c(Max(Abs(k.re), Abs(k.im))) - k.den
ConstCt(a, k) ==
  LET f  == Frac(k)
      sc == IF f THEN ScMulQ(a.sc, a.lvl) ELSE a.sc
      eb == Max(a.eb + Max(KMag(k), 0) + (IF f THEN QBitsAt(a.lvl) ELSE 0), IF f THEN ScB(a.sc) + Mag(a) ELSE 0) + 1
      \* the scaled constant is a float64: 53 significant bits
      fl == IF f THEN Max(eb, ScB(sc) + Mag(a) + KMag(k) - 50) ELSE eb
  IN Ct(a.ids, a.lvl, sc, VScale(a.v, <<k.re, k.im>>), a.den + k.den, fl, Max(a.rb + Max(KMag(k), 0) + 1, NoErr), FALSE)
ConstCan(a, k) == /\ MagV(a.v) + 1 + Log2c(Max(Abs(k.re), Abs(k.im))) <= 27
                  /\ Good(ConstCt(a, k))

SwitchNoise(c, s) == IF s = 0 THEN c.eb ELSE Max(c.eb, NB) + 1 + (IF s > 2 THEN 2 ELSE 1)
RotCt(c, k) == Ct(c.ids, c.lvl, c.sc, VRot(c.v, k), c.den, SwitchNoise(c, RotSwitches(k)), c.rb, FALSE)
ConjCt(c)   == Ct(c.ids, c.lvl, c.sc, VConj(c.v), c.den, SwitchNoise(c, 1), c.rb, FALSE)
CopyCt(c)   == [c EXCEPT !.uid = uid + 1]
EncCt(ids, lvl, sc, m, ntt) == Ct(ids, lvl, sc, m.v, m.den, Max(NB, ScB(sc) + MagV(m.v) - m.den - 44), NoErr, ntt)

------------------------------------------------------------------------------
(* random or enumerated arguments *)
MsgEl == -3..3
\* short: the message lists its values only up to the last one that is not zero
Msg(v, d) == [v |-> TLCEval(v), den |-> d, short |-> FALSE]
RMsg(x) == Msg([i \in SlotIx |-> <<RE(MsgEl, x), RE(MsgEl, x)>>], 0)
RMsgReal(x) == Msg([i \in SlotIx |-> <<RE(-4..4, x), 0>>], 0)
RMsgOne(x) == LET j == RE(SlotIx, x) w == <<RE(MsgEl, x), RE(1..3, x)>> IN Msg([i \in SlotIx |-> IF i = j THEN w ELSE <<0, 0>>], 0)
RMsgBig(x) == Msg([i \in SlotIx |-> <<RE(-1000..1000, x), RE(-1000..1000, x)>>], 0)
RMsgFine(x) == Msg([i \in SlotIx |-> <<RE(-40..40, x), RE(-40..40, x)>>], RE({2, 4, 7}, x))
RMsgTail(x) == LET j == RE(0..(Slots - 1), x) IN [Msg([i \in SlotIx |-> IF i < j THEN <<RE(MsgEl, x), RE(MsgEl, x)>> ELSE <<0, 0>>], 0) EXCEPT !.short = TRUE]
RMsgConst(x) == LET w == <<RE(MsgEl, x), RE(MsgEl, x)>> IN Msg([i \in SlotIx |-> w], 0)
MsgSet(x) ==
  IF Gen THEN LET k == RE(1..11, x) IN {CASE k = 1 -> RMsgReal(x) [] k = 2 -> RMsgOne(x) [] k = 3 -> RMsgBig(x) [] k = 4 -> RMsgFine(x)
                                         [] k = 5 -> RMsgConst(x) [] k = 6 -> RMsgTail(x) [] OTHER -> RMsg(x)}
  ELSE {Msg([i \in SlotIx |-> <<i, 1 - i>>], 0)}

IntConsts == {[re |-> a, im |-> 0, den |-> 0] : a \in {0, 1, -1, 2, -3, 7, -128}}
BigConsts == {[re |-> a, im |-> 0, den |-> -d] : a \in {1, -1, 3}, d \in {31, 40, 52, 53, 62, 63, 64, 70}}
FracConsts == {[re |-> a, im |-> 0, den |-> d] : a \in {1, -1, 3, -5}, d \in {1, 2}}
\* fractional constants with many digits, and so large that constant * modulus exceeds 64 bits
WideConsts == {[re |-> x[1], im |-> 0, den |-> x[2]] : x \in {<<2097153, 1>>, <<-2097151, 1>>, <<1048577, 2>>, <<-349525, 20>>, <<734003, 20>>, <<1048577, 20>>, <<3, 18>>, <<5, 28>>, <<-3, 33>>}}
CplxConsts == {[re |-> a, im |-> b, den |-> 0] : a \in {0, 1, -2}, b \in {1, -1, 3}}
CplxFrac == {[re |-> a, im |-> b, den |-> 1] : a \in {0, 1, -2, 3}, b \in {1, -3, 2, -4}}
Consts == IF Gen THEN UNION {IntConsts, BigConsts, FracConsts, WideConsts, CplxConsts, CplxFrac}
          ELSE {[re |-> -1, im |-> 0, den |-> 0], [re |-> 0, im |-> 1, den |-> 0], [re |-> 1, im |-> 0, den |-> 1]}
\* one or two constants when generating
ConstPick == IF Gen THEN {RE(UNION {IntConsts, FracConsts}, n), RE(BigConsts, n), RE(WideConsts, n), RE(UNION {CplxConsts, CplxFrac}, n)} ELSE Consts
ConstTypes(k) ==
  LET f == Frac(k) IN
  IF k.im # 0 THEN {"complex128"}
  ELSE IF f THEN {"float64", "complex128"}
  ELSE IF k.den <= -62 THEN
    {"float64", "complex128"} \cup
    (IF k.den = -62 /\ k.re = 1 THEN {"int", "int64", "uint64"}
     ELSE IF k.den \in {-62, -63} /\ k.re = -1 THEN {"int", "int64"}
     ELSE IF (k.den = -62 /\ k.re = 3) \/ (k.den = -63 /\ k.re = 1) THEN {"uint64"} ELSE {})
  ELSE IF k.re >= 0 THEN {"int", "int64", "uint64", "float64", "complex128"}
  ELSE {"int", "int64", "float64", "complex128"}

\* the library reduces an amount by repeated subtraction: far ones take a while, too long with the race detector on
Far == IF \E i \in DOMAIN Mix : Mix[i] = "par" THEN {-20000, 60000} ELSE {-20000000, 60000000}
Amounts == IF Gen THEN ((-(NH + 3))..(2*NH + 3)) \cup {j*NH + RE(0..NH, n) : j \in {-7, -4, 5, 12} \cup Far} ELSE {0, 1, -1, 3, NH + 1}
PtScales == IF Gen THEN {S2(SB), S2(20), S2(SB - 15), S2(SB + 5), S3(SB - 2), S2(2*SB), S3(SB + 17)} ELSE {S2(SB)}
\* rescaling targets: 2^k or 3*2^k (below 1: only level 0 ends it) ; k16 is the log2 in sixteenths
Target(e, th) == [e |-> e, th |-> th, k16 |-> 16*e + 25*th, edge |-> ""]
\* targets at the boundary itself: with "eq" and "below" the scale after one division is exactly, or just above, half the
\* target, with "above" it is just below it
Edges == {[e |-> 0, th |-> 0, k16 |-> 0, edge |-> x] : x \in {"eq", "below", "above"}}
Targets == {Target(SB, 0), Target(SB - 1, 1), Target(SB, 1), Target(SB - 20, 0), Target(2, 0), Target(-40, 0), Target(SB + 20, 0)}
\* the boundary is tried when the result can be used (half of the time when generating)
TargetsFor(c) ==
  LET e == IF c.lvl = 0 THEN {} ELSE {t \in Edges : Good(RescaledT(c, t)) /\ (t.edge = "eq" => EdgeExact(c))}
      x == {t \in e : t.edge = "eq"}
  IN IF ~Gen THEN Targets \cup e
     ELSE IF x # {} /\ RE(1..2, n) = 1 THEN x
     ELSE IF e # {} /\ RE(1..3, n) = 1 THEN e ELSE Targets
\* a random subset: all of S, or each element with probability 1/4, 1/2, 3/4 (SUBSET S itself is never built when generating: S may be large)
RandSub(S) == LET d == RandomElement({1, 2, 3, 4}) IN {x \in S : RandomElement(1..4) <= d}
PickSub(S) == IF Gen THEN {RandSub(S)} ELSE SUBSET S

Sk == {p \in Parties : key[p].sk}

------------------------------------------------------------------------------
(* Candidate operations of each class.  Every operation is a record that    *)
(* names the arguments, the outcome, the register that is assigned (0: none) *)
(* and the ciphertext it is assigned.                                        *)
Dst == IF Gen THEN Pick(Regs)
       ELSE IF Live = Regs THEN {NR} ELSE {CHOOSE r \in Regs : r \notin Live /\ \A q \in Regs \ Live : r <= q}
OpsJoin ==
  {[nm |-> "join", out |-> "ok", d |-> 0, p |-> p, keys |-> k, dist |-> s] :
     p \in IF Gen THEN Pick(Parties \ Joined) ELSE {x \in Parties \ Joined : \A y \in Parties \ Joined : x <= y},
     k \in Pick(IF KMode = "all" THEN {"all"} ELSE IF KMode = "bare" THEN {"bare"} ELSE {"all", "bare"}),
     s \in Pick(IF Gen THEN {"def", "def", "sparse", "gauss", "dist"} ELSE {"def"})}
OpsLeave == {[nm |-> "leave", out |-> "ok", d |-> 0, p |-> p] : p \in Pick(Active)}
OpsReturn == {[nm |-> "return", out |-> "ok", d |-> 0, p |-> p] : p \in Pick(Joined \ Active)}
OpsAddCRS == {[nm |-> "addcrs", out |-> "ok", d |-> 0, k |-> k] : k \in Pick({x \in 0..(NH-1) : n >= 0})}   \* (not a constant expression: TLC would draw it once)
\* generate and register one evaluation key, sometimes in place of one that is there
Again == Gen /\ RE(1..4, n) = 1
OpsGenRlk == {[nm |-> "genrlk", out |-> "ok", d |-> 0, p |-> p] : p \in Pick({x \in Active : ~key[x].rlk \/ Again})}
OpsGenCjk == {[nm |-> "gencjk", out |-> "ok", d |-> 0, p |-> p] : p \in Pick({x \in Active : ~key[x].cjk \/ Again})}
OpsGenRk ==
  {LET r == Mod(k, NH) IN
   [nm |-> "genrk", d |-> 0, p |-> p, k |-> k,
    out |-> IF r = 0 THEN "refuse" ELSE IF r \in crs THEN (IF k < NH THEN "ok" ELSE "any") ELSE "refuse"] :
     p \in Pick(Active), k \in Pick(IF Gen /\ RE(1..3, n) # 1 THEN crs \cup {c - NH : c \in crs} ELSE (-NH)..NH)}
OpsDelRlk == {[nm |-> "delrlk", out |-> "ok", d |-> 0, p |-> p] : p \in Pick({x \in Parties : key[x].rlk})}
OpsDelCjk == {[nm |-> "delcjk", out |-> "ok", d |-> 0, p |-> p] : p \in Pick({x \in Parties : key[x].cjk})}
OpsDelRk  == {[nm |-> "delrk", out |-> "ok", d |-> 0, p |-> p, k |-> k] :
                 p \in Pick({x \in Parties : key[x].rk # {}}), k \in 1..(NH - 1)}
DelRkOK(o) == o.k \in key[o.p].rk

\* encryptions
OpsEncNew == {[nm |-> "enc", how |-> "new", out |-> "ok", d |-> d, p |-> p, msg |-> m, r |-> EncCt({p}, MaxLvl, Default, m, FALSE)] :
                p \in Pick(Joined), m \in MsgSet(n), d \in Dst}
OpsEncExp == {[nm |-> "enc", how |-> "expand", out |-> "ok", d |-> d, p |-> p, msg |-> m, ids |-> ids \cup {p},
               r |-> EncCt(ids \cup {p}, MaxLvl, Default, m, FALSE)] :
                p \in Pick(Joined), ids \in PickSub(Joined), m \in MsgSet(n), d \in Dst}
\* every party of a set encrypts the same message, and the encryptions are added up
GatherCt(S, m) == LET e == EncCt(S, MaxLvl, Default, m, FALSE) IN [e EXCEPT !.v = VScale(m.v, <<Cardinality(S), 0>>), !.eb = @ + 7]
OpsGather == {[nm |-> "gather", out |-> "ok", d |-> d, msg |-> m, ids |-> S, r |-> GatherCt(S, m)] : S \in PickSub(Joined) \ {{}}, m \in MsgSet(n), d \in Dst}
\* into an existing ciphertext that has p among its participants
OpsEncInto == {[nm |-> "enc", how |-> "into", out |-> "ok", d |-> d, p |-> p, msg |-> m,
                r |-> EncCt(ct[d].ids, ct[d].lvl, Default, m, FALSE)] :
                d \in Pick({x \in CLive : ct[x].ids \cap Joined # {}}), p \in Pick(Joined), m \in MsgSet(n)}
EncIntoOK(o) == o.p \in ct[o.d].ids /\ Good(o.r)
\* an encoded plaintext of scale s, into a new ciphertext of level l
OpsEncPt == {[nm |-> "enc", how |-> "pt", out |-> "ok", d |-> d, p |-> p, msg |-> m, lv |-> l, ids |-> ids \cup {p}, sc |-> s,
              r |-> EncCt(ids \cup {p}, l, s, m, FALSE)] :
                p \in Pick(Joined), ids \in PickSub(Joined), m \in MsgSet(n), d \in Dst, l \in Pick(Lvls), s \in Pick(PtScales)}
EncPtOK(o) == Good(o.r)
\* generic layer: ciphertext in the transformed domain
OpsEncNTT == {[nm |-> "encntt", how |-> h, out |-> "ok", d |-> d, p |-> p, msg |-> m, lv |-> l, ids |-> ids \cup {p}, sc |-> s,
               r |-> EncCt(ids \cup {p}, l, s, m, TRUE)] :
                p \in Pick(Joined), ids \in PickSub(Joined), m \in MsgSet(n), d \in Dst, l \in Pick(Lvls), s \in Pick(PtScales),
                h \in Pick({"ptntt", "ptcoef"})}

OpsAdd(nm, neg) ==
  {[nm |-> nm, out |-> "ok", d |-> d, a |-> x[1], b |-> x[2], r |-> SumCt(ct[x[1]], ct[x[2]], neg)] :
     d \in Dst, x \in Pick({y \in CLive \X CLive : SumCan(ct[y[1]], ct[y[2]]) /\ Good(SumCt(ct[y[1]], ct[y[2]], neg))})}

\* products: out is "ok" when every participant's relinearization key is there
MulOut(a, b) == IF HasRlk(ct[a].ids \cup ct[b].ids) THEN "ok" ELSE "any"
MulPairs == {y \in CLive \X CLive : ProdCan(ct[y[1]], ct[y[2]])}
OpsMul == {[nm |-> "mul", out |-> MulOut(x[1], x[2]), d |-> d, a |-> x[1], b |-> x[2], r |-> Product(ct[x[1]], ct[x[2]])] :
             d \in Dst, x \in Pick(MulPairs)}
(* The generic layer writes into a ciphertext the caller provides, a new one ("fresh") or one that *)
(* was used before ("reuse"), of the right participants and of any level the operands reach: its    *)
(* level is the level the operation is performed at.                                                *)
At(c, l) == [c EXCEPT !.lvl = l]
Into(ids, top, not) ==
  Pick({<<"fresh", d, l>> : d \in Dst, l \in (IF Gen /\ RE(1..2, n) = 1 THEN {top} ELSE 0..top)}
       \cup {<<"reuse", d, ct[d].lvl>> : d \in {y \in CLive \ not : ct[y].ids = ids /\ ct[y].lvl <= top}})
OpsMulKs == UNION {
             {[nm |-> "mulks", how |-> h[1], lv |-> h[3], out |-> MulOut(x[1], x[2]), d |-> h[2], a |-> x[1], b |-> x[2],
               r |-> Product(At(ct[x[1]], h[3]), At(ct[x[2]], h[3]))] :
                h \in {y \in Into(ct[x[1]].ids \cup ct[x[2]].ids, Min(ct[x[1]].lvl, ct[x[2]].lvl), {x[1], x[2]}) :
                         ProdCan(At(ct[x[1]], y[3]), At(ct[x[2]], y[3]))}} :
             x \in Pick(MulPairs)}
\* hoisted forms that belong to the content of register a (0: none given)
HoOf(a) == {h \in HoRegs : ho[h].on /\ ho[h].uid = ct[a].uid /\ ho[h].lvl >= ct[a].lvl}
OpsMulH == UNION {
            {[nm |-> "mulh", out |-> MulOut(x[1], x[2]), d |-> d, a |-> x[1], b |-> x[2], ha |-> ha, hb |-> hb,
              r |-> Product(ct[x[1]], ct[x[2]])] :
                ha \in Pick(HoOf(x[1]) \cup {0}), hb \in Pick(HoOf(x[2]) \cup {0}), d \in Dst} :
            x \in Pick(LET h == {y \in MulPairs : HoOf(y[1]) # {} \/ HoOf(y[2]) # {}} IN IF h # {} THEN h ELSE MulPairs)}
OpsMulHKs == UNION {
             {[nm |-> "mulhks", how |-> h[1], lv |-> h[3], out |-> MulOut(x[1], x[2]), d |-> h[2], a |-> x[1], b |-> x[2], ha |-> ha, hb |-> hb,
               r |-> Product(At(ct[x[1]], h[3]), At(ct[x[2]], h[3]))] :
                ha \in Pick(HoOf(x[1]) \cup {0}), hb \in Pick(HoOf(x[2]) \cup {0}),
                h \in {y \in Into(ct[x[1]].ids \cup ct[x[2]].ids, Min(ct[x[1]].lvl, ct[x[2]].lvl), {x[1], x[2]}) :
                         ProdCan(At(ct[x[1]], y[3]), At(ct[x[2]], y[3]))}} :
             x \in Pick(LET h == {y \in MulPairs : HoOf(y[1]) # {} \/ HoOf(y[2]) # {}} IN IF h # {} THEN h ELSE MulPairs)}
OpsHoist == {[nm |-> "hoist", out |-> "ok", d |-> 0, a |-> a, h |-> h] : a \in Pick({x \in CLive : ct[x].ids # {}}), h \in Pick(HoRegs)}
OpsRotH == UNION {
            {[nm |-> "roth", out |-> RotHOut(ct[h[1]].ids, k), d |-> d, a |-> h[1], h |-> h[2], k |-> k, r |-> RotCt(ct[h[1]], k)] :
               k \in Pick(IF Gen /\ RE(1..3, n) # 1 THEN crs \cup {c - NH : c \in crs} ELSE Amounts), d \in Dst} :
            h \in Pick({y \in CLive \X HoRegs : y[2] \in HoOf(y[1])})}
RotHOK(o) == Good(o.r)
OpsRotHKs == UNION {
            {[nm |-> "rothks", how |-> w[1], lv |-> w[3], out |-> RotHOut(ct[h[1]].ids, k), d |-> w[2], a |-> h[1], h |-> h[2], k |-> k,
              r |-> At(RotCt(ct[h[1]], k), w[3])] :
               k \in Pick({c \in crs \cup {e - NH : e \in crs} : RotHOut(ct[h[1]].ids, c) = "ok"}), w \in Into(ct[h[1]].ids, ct[h[1]].lvl, {h[1]})} :
            h \in Pick({y \in CLive \X HoRegs : y[2] \in HoOf(y[1])})}

\* "over": the plaintext that is already there is overwritten in place
OpsEncode == {[nm |-> "encode", how |-> w, out |-> "ok", d |-> 0, t |-> t, msg |-> m, sc |-> s] : t \in Pick(PtRegs), w \in Pick({"new", "over"}), m \in MsgSet(n), s \in Pick(PtScales)}
EncodeOK(o) == (o.how = "over" => pt[o.t].on) /\ ScB(o.sc) + MagV(o.msg.v) - o.msg.den + 2 <= QBits(MaxLvl)
OpsMulPt == {[nm |-> "mulpt", out |-> "ok", d |-> d, a |-> x[1], t |-> x[2], r |-> PtProduct(ct[x[1]], pt[x[2]])] :
              d \in Dst, x \in Pick({y \in CLive \X PtRegs : pt[y[2]].on /\ PtProdCan(ct[y[1]], pt[y[2]])})}

\* constants: in place (how = "self"), or into another ciphertext of the same shape
SameShape(a, b) == ct[a].ids = ct[b].ids /\ ct[a].lvl = ct[b].lvl
OpsMulC == UNION {
            {[nm |-> "mulc", how |-> h[1], out |-> "ok", d |-> h[2], a |-> x[1], c |-> x[2], ty |-> ty, r |-> ConstCt(ct[x[1]], x[2])] :
               h \in Pick(IF Gen /\ RE(1..3, n) = 1 THEN {<<"self", x[1]>>} ELSE {<<"self", x[1]>>} \cup {<<"fresh", d>> : d \in Regs} \cup {<<"reuse", d>> : d \in {y \in CLive : SameShape(x[1], y)}}),
               ty \in Pick(ConstTypes(x[2]))} :
            x \in Pick({y \in CLive \X ConstPick : ConstCan(ct[y[1]], y[2])})}

OpsRot(nm) == UNION {{[nm |-> nm, out |-> RotOut(ct[a].ids, k), d |-> d, a |-> a, k |-> k, r |-> RotCt(ct[a], k)] :
                k \in Pick(Amounts), d \in Dst} : a \in Pick(CLive)}
RotOK(o) == Good(o.r)
\* the generic layer's rotation needs the amount's own key
OpsRotKs == UNION {{[nm |-> "rotks", how |-> w[1], lv |-> w[3],
                out |-> IF Mod(k, NH) \in crs /\ HasRk(ct[a].ids, Mod(k, NH)) THEN "ok" ELSE "any",
                d |-> w[2], a |-> a, k |-> k, r |-> At(RotCt(ct[a], k), w[3])] :
                k \in Pick(crs \cup {c - NH : c \in crs}), w \in Into(ct[a].ids, ct[a].lvl, {a})} : a \in Pick({x \in CLive : ct[x].ids # {}})}
OpsConjKs == UNION {{[nm |-> "conjks", how |-> w[1], lv |-> w[3], out |-> IF HasCjk(ct[a].ids) THEN "ok" ELSE "any", d |-> w[2], a |-> a,
                r |-> At(ConjCt(ct[a]), w[3])] : w \in Into(ct[a].ids, ct[a].lvl, {a})} : a \in Pick({x \in CLive : ct[x].ids # {}})}
\* copying into a ciphertext that holds at least the participants and exactly the level
OpsCopyTo == UNION {{[nm |-> "copyto", out |-> "ok", d |-> d, a |-> a, r |-> CopyCt(ct[a])] :
                d \in Pick({y \in CLive \ {a} : ct[y].ids = ct[a].ids /\ ct[y].lvl = ct[a].lvl})} : a \in Pick(CLive)}
OpsConj == {[nm |-> "conj", out |-> IF HasCjk(ct[a].ids) THEN "ok" ELSE "any", d |-> d, a |-> a, r |-> ConjCt(ct[a])] :
              a \in Pick(CLive), d \in Dst}
ConjOK(o) == Good(o.r)

OpsDrop == UNION {{[nm |-> "drop", how |-> h, out |-> "ok", d |-> IF h = "self" THEN a ELSE d, a |-> a, k |-> k,
               r |-> IF h = "self" THEN [ct[a] EXCEPT !.lvl = @ - k] ELSE [CopyCt(ct[a]) EXCEPT !.lvl = @ - k]] :
               k \in Pick(0..ct[a].lvl), h \in Pick({"self", "new"}), d \in Dst} : a \in Pick(CLive)}
DropOK(o) == Good(o.r)

\* rescaling to 2^e (3*2^e): "self" in place, "new" RescaleNew, "into" a ciphertext of the same shape
OpsRescale == UNION {
   {[nm |-> "rescale", how |-> h[1], out |-> IF ct[a].lvl = 0 THEN "err" ELSE "ok", d |-> IF ct[a].lvl = 0 THEN 0 ELSE h[2], a |-> a, tg |-> t,
     r |-> [RescaledT(ct[a], t) EXCEPT !.uid = uid + 1]] :
      h \in Pick(IF Gen /\ RE(1..3, n) = 1 THEN {<<"self", a>>} ELSE {<<"self", a>>} \cup {<<"new", d>> : d \in Regs} \cup {<<"fresh", d>> : d \in Regs} \cup {<<"reuse", d>> : d \in {y \in CLive \ {a} : SameShape(a, y)}}),
      t \in Pick(TargetsFor(ct[a]))} : a \in Pick(CLive)}
RescaleOK(o) == Good(o.r) /\ (o.tg.edge = "" => RescaleClear(ct[o.a].lvl, ct[o.a].sc, o.tg.k16))
\* rescaling that must report an error: a target that is not positive, a zero scale
OpsRescaleErr == {[nm |-> "rescaleerr", how |-> h, out |-> "err", d |-> 0, a |-> a] : a \in Pick(CLive), h \in Pick({"zero", "neg", "noscale"})}

\* decryption
OpsPDec == {[nm |-> "pdec", out |-> IF p \in ct[a].ids THEN "ok" ELSE "refuse", d |-> IF p \in ct[a].ids THEN a ELSE 0, a |-> a, p |-> p,
             r |-> [ct[a] EXCEPT !.ids = @ \ {p}, !.uid = uid + 1]] :
              a \in Pick(Live), p \in Pick(Joined)}
OpsDec == UNION {{[nm |-> "dec", out |-> IF ct[a].ids \subseteq ks THEN "ok" ELSE "refuse", d |-> 0, a |-> a, ks |-> ks, r |-> ct[a]] :
              ks \in IF Gen /\ RE(1..2, n) = 1 THEN {x \cup ct[a].ids : x \in PickSub(Joined)} ELSE PickSub(Joined)} :
            a \in Pick({x \in CLive : ct[x].ids \subseteq Joined})}
\* decryption with the key set of the parties that are currently present
OpsDecReg == {[nm |-> "decreg", out |-> IF ct[a].ids \subseteq Sk THEN "ok" ELSE "refuse", d |-> 0, a |-> a, r |-> ct[a]] : a \in Pick(CLive)}
\* generic layer: into a plaintext of level l that declares a domain
OpsRDec == UNION {{[nm |-> "rdec", out |-> IF ct[a].ids \subseteq ks THEN "ok" ELSE "refuse", d |-> 0, a |-> a, ks |-> ks, lv |-> l, dom |-> dm,
              r |-> [ct[a] EXCEPT !.lvl = Min(@, l)]] :
               ks \in IF Gen /\ RE(1..4, n) # 1 THEN {x \cup ct[a].ids : x \in PickSub(Joined)} ELSE PickSub(Joined), l \in Pick(Lvls),
               dm \in Pick({"ntt", "coef"})} :
             a \in Pick({x \in Live : ct[x].ids \subseteq Joined})}
RDecOK(o) == o.out = "ok" => Good(o.r)

\* data movement
OpsCopy == {[nm |-> "copy", out |-> "ok", d |-> d, a |-> a, r |-> CopyCt(ct[a])] : a \in Pick(Live), d \in Dst}
OpsPad == {[nm |-> "pad", out |-> "ok", d |-> a, a |-> a, ids |-> ids, r |-> [ct[a] EXCEPT !.ids = @ \cup ids, !.uid = uid + 1]] :
             a \in Pick(Live), ids \in PickSub(Joined)}
OpsSetScale == {[nm |-> "setscale", out |-> "ok", d |-> a, a |-> a, k |-> k,
                 r |-> [ct[a] EXCEPT !.sc.t = @ + k, !.den = @ + k, !.rb = Max(@ - k, NoErr)]] : a \in Pick(CLive), k \in Pick({1, 2, -1})}
SetScaleOK(o) == Good(o.r)
OpsScribble == {[nm |-> "scribble", out |-> "ok", d |-> 0, a |-> a] : a \in Pick(Live)}
OpsScribHo == {[nm |-> "scribho", out |-> "ok", d |-> 0, h |-> h] : h \in Pick({x \in HoRegs : ho[x].on})}
OpsScribPt == {[nm |-> "scribpt", out |-> "ok", d |-> 0, t |-> t] : t \in Pick({x \in PtRegs : pt[x].on})}

(* Another group, whose members carry the same identities but have keys of their own, uses the same    *)
(* evaluator, encryptor, decryptor and key generator: it gets its own results, and nothing here changes. *)
OtherRes(p, q, m, m2, k) == ConjCt(RotCt(Product(EncCt({p}, MaxLvl, Default, m, FALSE), EncCt({q}, MaxLvl, Default, m2, FALSE)), k))
OpsOther == {[nm |-> "other", out |-> "ok", d |-> 0, p |-> p, q |-> q, msg |-> m, m2 |-> m2, k |-> k, r |-> OtherRes(p, q, m, m2, k)] :
               p \in Pick(Joined), q \in Pick(Joined), m \in MsgSet(n), m2 \in MsgSet(n + 1), k \in Pick({0} \cup {x \in Pow2s : n >= 0})}
OtherOK(o) == ProdCan(EncCt({o.p}, MaxLvl, Default, o.msg, FALSE), EncCt({o.q}, MaxLvl, Default, o.m2, FALSE)) /\ Good(o.r)

(* Work done at the same time by separate workers, each with objects of its own.  No job writes what *)
(* another reads or writes, so whatever the interleaving every job has the result it has alone       *)
(* (spec/Workers.tla); "regen" is a party making one of its keys anew.                                *)
OpsRegen == {[nm |-> "regen", out |-> "ok", d |-> 0, p |-> x[1], kind |-> x[2], k |-> x[3]] :
               x \in Pick({y \in Active \X {"rlk", "cjk", "rk"} \X (0..(NH-1)) :
                             \/ y[2] = "rlk" /\ y[3] = 0 /\ key[y[1]].rlk
                             \/ y[2] = "cjk" /\ y[3] = 0 /\ key[y[1]].cjk
                             \/ y[2] = "rk" /\ y[3] \in key[y[1]].rk})}
Reads(o) == (IF "a" \in DOMAIN o THEN {o.a} ELSE {}) \cup (IF "b" \in DOMAIN o THEN {o.b} ELSE {})
JobOf(c) ==
  CASE c = "add" -> OpsAdd("add", FALSE)
    [] c = "sub" -> OpsAdd("sub", TRUE)
    [] c = "mul" -> OpsMul
    [] c = "mulh" -> OpsMulH
    [] c = "roth" -> {o \in OpsRotH : RotHOK(o)}
    [] c = "rot" -> {o \in OpsRot("rot") : RotOK(o)}
    [] c = "conj" -> {o \in OpsConj : ConjOK(o)}
    [] c = "mulpt" -> OpsMulPt
    [] c = "mulc" -> OpsMulC
    [] c = "rescale" -> {o \in OpsRescale : RescaleOK(o)}
    [] c = "drop" -> {o \in OpsDrop : DropOK(o)}
    [] c = "copy" -> OpsCopy
    [] c = "encnew" -> OpsEncNew
    [] c = "encexp" -> OpsEncExp
    [] c = "dec" -> OpsDec
    [] c = "pdec" -> OpsPDec
    [] c = "hoist" -> OpsHoist
    [] c = "encode" -> {o \in {[y EXCEPT !.sc = S2(SB), !.how = "new"] : y \in OpsEncode} : EncodeOK(o)}
    [] c = "regen" -> OpsRegen
ParMix == <<"add", "sub", "mul", "mul", "mulh", "roth", "rot", "rot", "conj", "mulpt", "mulc", "rescale", "drop", "encnew", "encexp", "dec", "dec", "pdec", "hoist", "encode", "regen">>
JobOK(o, D) == /\ o.out = "ok" /\ Reads(o) \cap D = {}
               /\ "how" \in DOMAIN o => o.how \in {"new", "fresh", "expand"}
Job(o, d, i) == IF o.d = 0 THEN o ELSE [o EXCEPT !.d = d, !.r.uid = uid + i]
ParWidth == IF Gen THEN 3 ELSE 2
RECURSIVE ParJob(_, _, _, _)
ParJob(i, D, d, k) ==
  LET c == ParMix[RE(1..Len(ParMix), <<n, i, k>>)]
      s == TLCEval({o \in JobOf(c) : JobOK(o, D)})
  IN IF s # {} THEN <<Job(RandomElement(s), d, i)>> ELSE IF k = 0 THEN <<>> ELSE ParJob(i, D, d, k - 1)
OpsPar ==
  IF Gen
  THEN {[nm |-> "par", out |-> "ok", d |-> 0, jobs |-> js] :
          js \in UNION {{TLCEval(ParJob(1, {x[1], x[2], x[3]}, x[1], 4) \o ParJob(2, {x[1], x[2], x[3]}, x[2], 4) \o ParJob(3, {x[1], x[2], x[3]}, x[3], 4))} :
                         x \in Pick({y \in Regs \X Regs \X Regs : y[1] # y[2] /\ y[1] # y[3] /\ y[2] # y[3] /\ n >= 0})}}
  ELSE LET D == {NR - 1, NR}
           S == UNION {{o \in JobOf(c) : JobOK(o, D) /\ o.d # 0} : c \in {"add", "mul", "rot", "conj"}}
       IN {[nm |-> "par", out |-> "ok", d |-> 0, jobs |-> <<Job(a, NR - 1, 1), Job(b, NR, 2)>>] : a \in S, b \in S}

Classes == {"join", "leave", "return", "addcrs", "genrlk", "gencjk", "genrk", "delrlk", "delcjk", "delrk",
            "encnew", "encexp", "gather", "encinto", "encpt", "encntt", "add", "sub", "mul", "mulks", "mulh", "mulhks", "hoist", "roth", "rothks", "encode", "mulpt",
            "mulc", "rot", "rotks", "conj", "conjks", "copyto", "drop", "rescale", "rescaleerr", "pdec", "dec", "decreg", "rdec", "copy", "pad", "setscale",
            "scribble", "scribho", "scribpt", "par", "other"}

OpsOf(c) ==
  CASE c = "join" -> OpsJoin
    [] c = "leave" -> OpsLeave
    [] c = "return" -> OpsReturn
    [] c = "addcrs" -> OpsAddCRS
    [] c = "genrlk" -> OpsGenRlk
    [] c = "gencjk" -> OpsGenCjk
    [] c = "genrk" -> OpsGenRk
    [] c = "delrlk" -> OpsDelRlk
    [] c = "delcjk" -> OpsDelCjk
    [] c = "delrk" -> Pick({o \in OpsDelRk : DelRkOK(o)})
    [] c = "encnew" -> OpsEncNew
    [] c = "encexp" -> OpsEncExp
    [] c = "gather" -> {o \in OpsGather : Good(o.r)}
    [] c = "encinto" -> {o \in OpsEncInto : EncIntoOK(o)}
    [] c = "encpt" -> {o \in OpsEncPt : EncPtOK(o)}
    [] c = "encntt" -> {o \in OpsEncNTT : EncPtOK(o)}
    [] c = "add" -> OpsAdd("add", FALSE)
    [] c = "sub" -> OpsAdd("sub", TRUE)
    [] c = "mul" -> OpsMul
    [] c = "mulks" -> OpsMulKs
    [] c = "mulh" -> OpsMulH
    [] c = "mulhks" -> OpsMulHKs
    [] c = "rothks" -> {o \in OpsRotHKs : RotHOK(o)}
    [] c = "conjks" -> {o \in OpsConjKs : ConjOK(o)}
    [] c = "copyto" -> OpsCopyTo
    [] c = "hoist" -> OpsHoist
    [] c = "roth" -> {o \in OpsRotH : RotHOK(o)}
    [] c = "encode" -> {o \in OpsEncode : EncodeOK(o)}
    [] c = "mulpt" -> OpsMulPt
    [] c = "mulc" -> OpsMulC
    [] c = "rot" -> {o \in OpsRot("rot") : RotOK(o)}
    [] c = "rotks" -> {o \in OpsRotKs : RotOK(o)}
    [] c = "conj" -> {o \in OpsConj : ConjOK(o)}
    [] c = "drop" -> {o \in OpsDrop : DropOK(o)}
    [] c = "rescale" -> {o \in OpsRescale : RescaleOK(o)}
    [] c = "rescaleerr" -> OpsRescaleErr
    [] c = "pdec" -> OpsPDec
    [] c = "dec" -> OpsDec
    [] c = "decreg" -> OpsDecReg
    [] c = "rdec" -> {o \in OpsRDec : RDecOK(o)}
    [] c = "copy" -> OpsCopy
    [] c = "pad" -> OpsPad
    [] c = "setscale" -> {o \in OpsSetScale : SetScaleOK(o)}
    [] c = "par" -> {o \in OpsPar : o.jobs # <<>>}
    [] c = "other" -> {o \in OpsOther : OtherOK(o)}
    [] c = "scribble" -> OpsScribble
    [] c = "scribho" -> OpsScribHo
    [] c = "scribpt" -> OpsScribPt

------------------------------------------------------------------------------
(* effect of an operation *)
KeyAfter(o) ==
  CASE o.nm = "join" ->
         [key EXCEPT ![o.p] = IF o.keys = "all"
            THEN [st |-> "in", sk |-> TRUE, rlk |-> TRUE, cjk |-> TRUE, rk |-> Pow2s, grlk |-> TRUE, gcjk |-> TRUE, grk |-> Pow2s]
            ELSE [NoKeys EXCEPT !.st = "in", !.sk = TRUE]]
    [] o.nm = "leave" -> [key EXCEPT ![o.p].st = "out", ![o.p].sk = FALSE, ![o.p].rlk = FALSE, ![o.p].cjk = FALSE, ![o.p].rk = {}]
    [] o.nm = "return" -> [key EXCEPT ![o.p].st = "in", ![o.p].sk = TRUE, ![o.p].rlk = key[o.p].grlk, ![o.p].cjk = key[o.p].gcjk, ![o.p].rk = key[o.p].grk]
    [] o.nm = "genrlk" -> [key EXCEPT ![o.p].rlk = TRUE, ![o.p].grlk = TRUE]
    [] o.nm = "gencjk" -> [key EXCEPT ![o.p].cjk = TRUE, ![o.p].gcjk = TRUE]
    [] o.nm = "genrk" /\ o.out = "ok" -> [key EXCEPT ![o.p].rk = @ \cup {Mod(o.k, NH)}, ![o.p].grk = @ \cup {Mod(o.k, NH)}]
    [] o.nm = "delrlk" -> [key EXCEPT ![o.p].rlk = FALSE]
    [] o.nm = "delcjk" -> [key EXCEPT ![o.p].cjk = FALSE]
    [] o.nm = "delrk" -> [key EXCEPT ![o.p].rk = @ \ {o.k}]
    [] OTHER -> key

\* a result that may or may not come back is not used further
CtAfter(o) ==
  IF o.nm = "par" THEN [r \in Regs |-> LET w == {i \in DOMAIN o.jobs : o.jobs[i].d = r} IN IF w = {} THEN ct[r] ELSE o.jobs[CHOOSE i \in w : TRUE].r]
  ELSE IF o.nm = "scribble" THEN [ct EXCEPT ![o.a] = NoCt]
  ELSE IF o.d = 0 THEN ct
  ELSE IF o.out = "ok" THEN [ct EXCEPT ![o.d] = o.r]
  ELSE [ct EXCEPT ![o.d] = NoCt]

Apply(o) ==
  /\ key' = KeyAfter(o)
  /\ crs' = IF o.nm = "addcrs" /\ o.k # 0 THEN crs \cup {o.k} ELSE crs
  /\ ct' = CtAfter(o)
  /\ pt' = IF o.nm = "encode" THEN [pt EXCEPT ![o.t] = [on |-> TRUE, v |-> o.msg.v, den |-> o.msg.den, sc |-> o.sc]]
           ELSE IF o.nm = "scribpt" THEN [pt EXCEPT ![o.t] = [on |-> FALSE]] ELSE pt
  /\ ho' = IF o.nm = "hoist" THEN [ho EXCEPT ![o.h] = [on |-> TRUE, uid |-> ct[o.a].uid, lvl |-> ct[o.a].lvl]]
           ELSE IF o.nm = "scribho" THEN [ho EXCEPT ![o.h] = [on |-> FALSE]] ELSE ho
  /\ uid' = uid + (IF o.nm = "par" THEN ParWidth ELSE 1)
  /\ n' = n + 1
  /\ hist' = IF Rec THEN Append(hist, o) ELSE hist

Init ==
  /\ key = [p \in Parties |-> NoKeys]
  /\ crs = Pow2s
  /\ ct = [r \in Regs |-> NoCt]
  /\ pt = [t \in PtRegs |-> [on |-> FALSE]]
  /\ ho = [h \in HoRegs |-> [on |-> FALSE]]
  /\ uid = 0 /\ n = 0 /\ hist = <<>>

\* the class of the next step: the prefix first, then the mix
ClassNow ==
  IF n < Len(Prefix) THEN Pick(Prefix[n + 1])
  ELSE IF Gen THEN {Mix[RE(1..Len(Mix), n)]} ELSE {Mix[i] : i \in 1..Len(Mix)}

\* a class without a possible operation falls back to a fresh encryption or a join
RECURSIVE OpsTry(_, _)
OpsTry(c, k) ==
  LET s == TLCEval(OpsOf(c)) IN
  IF s # {} \/ ~Gen THEN s
  ELSE IF Joined = {} THEN OpsJoin
  ELSE IF c \in {"roth", "mulh", "rothks", "mulhks"} /\ OpsHoist # {} THEN OpsHoist
  ELSE IF k = 0 THEN OpsEncNew
  ELSE IF c = "mulpt" THEN OpsTry("encode", k - 1)
  ELSE OpsTry(Mix[RE(1..Len(Mix), <<n, k>>)], k - 1)
Ops(c) == OpsTry(c, 4)

Next == /\ n < Depth
        /\ \E c \in ClassNow : \E o \in Pick(Ops(c)) : Apply(o)

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* What the machine guarantees; checked exhaustively within small constants. *)

TypeOK ==
  /\ crs \subseteq 1..(NH - 1)
  /\ \A p \in Parties : /\ key[p].st \in {"none", "in", "out"}
                         /\ key[p].rk \subseteq crs
                         /\ (key[p].st # "in" => ~key[p].sk /\ ~key[p].rlk /\ ~key[p].cjk /\ key[p].rk = {})
                         /\ key[p].rk \subseteq key[p].grk
  /\ \A r \in Live : /\ ct[r].ids \subseteq Joined
                     /\ ct[r].lvl \in Lvls
                     /\ Len(ct[r].v) = Slots

\* C01, C08: whatever is held can be decrypted to what it means: it fits under its modulus and its error is small
InvGood == \A r \in Live : Good(ct[r])

\* C02: sums commute, differences are antisymmetric, and neither loses a participant
InvSum == \A a, b \in CLive : SumCan(ct[a], ct[b]) =>
  LET s == SumCt(ct[a], ct[b], FALSE)
      t == SumCt(ct[b], ct[a], FALSE)
      d == SumCt(ct[a], ct[b], TRUE)
      e == SumCt(ct[b], ct[a], TRUE)
  IN /\ s.v = t.v /\ s.den = t.den /\ s.lvl = t.lvl /\ s.ids = t.ids /\ Sc16(s.sc) = Sc16(t.sc)
     /\ d.v = VScale(e.v, <<-1, 0>>)
     /\ s.ids = ct[a].ids \cup ct[b].ids /\ s.lvl = Min(ct[a].lvl, ct[b].lvl)
     /\ Sc16(s.sc) = Max(Sc16(ct[a].sc), Sc16(ct[b].sc))

\* C03, C08: products commute; rescaling takes exactly the levels the default scale asks for
InvProd == \A a, b \in CLive : ProdCan(ct[a], ct[b]) =>
  LET x == Product(ct[a], ct[b])
      y == Product(ct[b], ct[a])
  IN /\ x.v = y.v /\ x.lvl = y.lvl /\ x.sc = y.sc /\ x.ids = y.ids
     /\ x.lvl <= Min(ct[a].lvl, ct[b].lvl) /\ x.lvl >= 0
     /\ (x.lvl < Min(ct[a].lvl, ct[b].lvl) => Sc16(x.sc) >= 16*SB - 16)
     /\ (x.lvl > 0 => Sc16(x.sc) - 16*QBitsAt(x.lvl) < 16*SB - 16)

\* C05, C06: rotations add up, amounts count modulo the slots; conjugation is an involution; both are ring maps
InvRot == \A r \in CLive : \A j, k \in {0, 1, 3, -1, Slots - 1, Slots + 2} :
            /\ VRot(VRot(ct[r].v, j), k) = VRot(ct[r].v, j + k)
            /\ VRot(ct[r].v, j + Slots) = VRot(ct[r].v, j)
            /\ VRot(VMul(ct[r].v, ct[r].v), k) = VMul(VRot(ct[r].v, k), VRot(ct[r].v, k))
            /\ VConj(VConj(ct[r].v)) = ct[r].v
            /\ VConj(VRot(ct[r].v, k)) = VRot(VConj(ct[r].v), k)
\* a composed rotation uses keys for powers of two that add up to the amount
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x + SumSet(S \ {x})
InvBits == \A k \in 0..(NH - 1) : BitsOf(k) \subseteq Pow2s /\ SumSet(BitsOf(k)) = k

\* C07: a hoisted form that can be used belongs to the present content
InvHo == \A r \in CLive : \A h \in HoOf(r) : ho[h].uid = ct[r].uid /\ ho[h].lvl >= ct[r].lvl

\* C09, C10: removing participants one by one in any order ends at the same place
InvPDec == \A r \in Live : \A p, q \in ct[r].ids : (ct[r].ids \ {p}) \ {q} = (ct[r].ids \ {q}) \ {p}

\* C11: one step changes at most the result register
Frame == [][\E r \in Regs : \A x \in Regs \ {r} : ct'[x] = ct[x]]_vars
\* C22: every job done at the same time as others has the result it has alone, in whichever order they are done
ParSerial ==
  \A o \in OpsPar : LET a == o.jobs[1] b == o.jobs[2] IN
    /\ a.d # b.d /\ (Reads(a) \cup Reads(b)) \cap {a.d, b.d} = {}
    /\ [[ct EXCEPT ![a.d] = a.r] EXCEPT ![b.d] = b.r] = [[ct EXCEPT ![b.d] = b.r] EXCEPT ![a.d] = a.r]
    /\ CtAfter(o) = [[ct EXCEPT ![a.d] = a.r] EXCEPT ![b.d] = b.r]
\* C13: the reference string only grows, keys once generated stay available to their owner
CrsGrows == [][crs \subseteq crs']_vars
KeysStay == [][\A p \in Parties : key[p].grk \subseteq key'[p].grk /\ (key[p].grlk => key'[p].grlk) /\ (key[p].st # "none" => key'[p].st # "none")]_vars
\* C13: leaving touches no ciphertext
LeaveFrame == [][(\E p \in Parties : key[p].st = "in" /\ key'[p].st = "out") => ct' = ct /\ ho' = ho /\ pt' = pt]_vars

Emit == (Rec /\ n = Depth) => PrintT("BEH " \o ToJson(hist))
==============================================================================
