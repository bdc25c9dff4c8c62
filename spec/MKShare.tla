------------------------------ MODULE MKShare ------------------------------
(***************************************************************************)
(* The scheme below the interface: what mkrlwe really computes, on a ring  *)
(* small enough to enumerate.                                              *)
(*                                                                         *)
(* Ring: vectors of S numbers modulo Q = q_1 * ... * q_n with slot-wise    *)
(* arithmetic; the automorphisms are the cyclic slot rotations and one     *)
(* involution.  Gadget: digit i of a number is its residue modulo q_i, the *)
(* gadget element g_i is 1 modulo q_i and 0 modulo the others (the special *)
(* primes, which only hide rounding, are left out, and so is the error).   *)
(*                                                                         *)
(* A ciphertext is a share c_0 and a share c_i per participant; it stands  *)
(* for c_0 + sum_i c_i s_i.  Keys are vectors over the digits:             *)
(*   b_i = -s_i a          d_i = -r_i a + s_i g      v_i = -s_i u - r_i g  *)
(*   rotation by k: rk_i = -perm_{-k}(s_i) a_k + s_i g                     *)
(* The operations are written as the code writes them (MulAndRelin,        *)
(* Rotate, Conjugate, sums, partial decryption), and TLC checks that every *)
(* reachable ciphertext stands for the message of the abstract machine     *)
(* (ghost variable msg; MKHE.tla's semantics in exact arithmetic), has     *)
(* exactly its participants, and that hoisted products agree with direct   *)
(* ones.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Randomization, SequencesExt, Functions

CONSTANTS Mods,       \* the moduli, pairwise coprime
          S,          \* slots
          Parties,    \* 1 .. n
          NCt,        \* ciphertexts in play
          NKeys,      \* 0: all keys; otherwise how many random key systems
          NEnc,       \* how many encryptions per message (random masks); 0: all
          Msgs,       \* messages of fresh ciphertexts
          MaxOps

n == Len(Mods)
Q == FoldLeft(LAMBDA x, y : x * y, 1, Mods)
Slots == 0 .. S - 1
Digits == 1 .. n
Num == 0 .. Q - 1
Ring == [Slots -> Num]

\* (functions rather than operators: TLC evaluates their arguments once)
AddF == [x \in Ring, y \in Ring |-> TLCEval([k \in Slots |-> (x[k] + y[k]) % Q])]
SubF == [x \in Ring, y \in Ring |-> TLCEval([k \in Slots |-> (x[k] - y[k]) % Q])]
MulF == [x \in Ring, y \in Ring |-> TLCEval([k \in Slots |-> (x[k] * y[k]) % Q])]
Add(x, y) == AddF[x, y]
Sub(x, y) == SubF[x, y]
Mul(x, y) == MulF[x, y]
Neg(x) == TLCEval([k \in Slots |-> (-x[k]) % Q])
Zero == [k \in Slots |-> 0]
Perm(x, r) == [k \in Slots |-> x[(k + r) % S]]                \* rotation to the left by r
Conj(x) == [k \in Slots |-> x[(S - k) % S]]                   \* the involution
\* sum of f over a finite set of indices (order does not matter)
Total(f, I) == FoldFunctionOnSet(LAMBDA x, y : Add(x, y), Zero, f, I)

(*************************** gadget ****************************************)
Idem == [i \in Digits |-> CHOOSE e \in Num : \A j \in Digits : e % Mods[j] = (IF j = i THEN 1 % Mods[j] ELSE 0)]
Digit(x, i) == [k \in Slots |-> x[k] % Mods[i]]
Dec(x) == [i \in Digits |-> Digit(x, i)]
Times(c, x) == [k \in Slots |-> (c * x[k]) % Q]
InterF == [x \in Ring, k \in [Digits -> Ring] |-> Total([i \in Digits |-> Mul(Digit(x, i), k[i])], Digits)]
Inter(x, k) == InterF[x, k]                                                           \* external product

Recombine == \A x \in Num : (CHOOSE y \in Num : \A i \in Digits : y % Mods[i] = x % Mods[i]) = x
ASSUME Recombine

(*************************** state *****************************************)
VARIABLES sk, rr, key,      \* per party: secret, relinearization secret; evaluation keys
          a, u, ak, ac,     \* reference string: relinearization (two), rotations, conjugation
          ct,               \* ciphertexts: [on |-> BOOLEAN, c0, c (function on participants)]
          msg, who,         \* ghosts: what they stand for, their participants
          ops
vars == <<sk, rr, key, a, u, ak, ac, ct, msg, who, ops>>

Rots == 1 .. S - 1
Vecs == [Digits -> Ring]
\* the public evaluation keys of a key system
Keys(ks) ==
  [b |-> [i \in Parties |-> [d \in Digits |-> Neg(Mul(ks.sk[i], ks.a[d]))]],
   d |-> [i \in Parties |-> [d \in Digits |-> Add(Neg(Mul(ks.rr[i], ks.a[d])), Times(Idem[d], ks.sk[i]))]],
   v |-> [i \in Parties |-> [d \in Digits |-> Sub(Neg(Mul(ks.sk[i], ks.u[d])), Times(Idem[d], ks.rr[i]))]],
   rk |-> [i \in Parties |-> [r \in Rots |-> [d \in Digits |-> Add(Neg(Mul(Perm(ks.sk[i], -r), ks.ak[r][d])), Times(Idem[d], ks.sk[i]))]]],
   ck |-> [i \in Parties |-> [d \in Digits |-> Add(Neg(Mul(Conj(ks.sk[i]), ks.ac[d])), Times(Idem[d], ks.sk[i]))]]]
B(i) == key.b[i]
D(i) == key.d[i]
V(i) == key.v[i]
RK(i, r) == key.rk[i][r]
CK(i) == key.ck[i]

KeySys == [sk : [Parties -> Ring], rr : [Parties -> Ring], a : Vecs, u : Vecs, ak : [Rots -> Vecs], ac : Vecs]
\* one random key system (every draw an independent uniform ring element)
RandRing(z) == [k \in Slots |-> RandomElement(Num)]
RandVec(z) == [d \in Digits |-> RandRing(d)]
RandKeys(z) == [sk |-> [p \in Parties |-> RandRing(p)], rr |-> [p \in Parties |-> RandRing(p)], a |-> RandVec(1), u |-> RandVec(2),
                ak |-> [r \in Rots |-> RandVec(r)], ac |-> RandVec(3)]

Nothing == [on |-> FALSE, c0 |-> Zero, c |-> <<>>]
Init ==
  /\ \E z \in 1 .. (IF NKeys = 0 THEN 1 ELSE NKeys) :
       \E ks \in (IF NKeys = 0 THEN KeySys ELSE {TLCEval(RandKeys(z))}) :
         sk = ks.sk /\ rr = ks.rr /\ a = ks.a /\ u = ks.u /\ ak = ks.ak /\ ac = ks.ac /\ key = TLCEval(Keys(ks))
  /\ ct = [k \in 1 .. NCt |-> Nothing] /\ msg = [k \in 1 .. NCt |-> Zero] /\ who = [k \in 1 .. NCt |-> {}] /\ ops = 0

Put(k, c, m, w) == /\ ct' = [ct EXCEPT ![k] = c] /\ msg' = [msg EXCEPT ![k] = m] /\ who' = [who EXCEPT ![k] = w]
                   /\ UNCHANGED <<sk, rr, key, a, u, ak, ac>> /\ ops' = ops + 1

On(x) == ct[x].on
IDs(x) == DOMAIN ct[x].c
Share(x, i) == IF i \in IDs(x) THEN ct[x].c[i] ELSE Zero

\* encryption: any share for the party, the rest is fixed by the message; further participants with empty shares
Encrypt(k, p, more) ==
  \E m \in Msgs : \E x \in (IF NEnc = 0 THEN Ring ELSE {TLCEval(RandRing(i)) : i \in 1 .. NEnc}) :
    Put(k, [on |-> TRUE, c0 |-> Sub(m, Mul(x, sk[p])), c |-> [i \in more \cup {p} |-> IF i = p THEN x ELSE Zero]], m, more \cup {p})

AddSub(k, x, y, sg) ==
  /\ On(x) /\ On(y)
  /\ LET F(p, q) == IF sg = 1 THEN Add(p, q) ELSE Sub(p, q) IN
     Put(k, [on |-> TRUE, c0 |-> F(ct[x].c0, ct[y].c0), c |-> [i \in IDs(x) \cup IDs(y) |-> F(Share(x, i), Share(y, i))]],
         F(msg[x], msg[y]), who[x] \cup who[y])

\* MulAndRelin, line by line
Product(x, y) ==
  LET I0 == IDs(x)  I1 == IDs(y)
      X == [d \in Digits |-> Total([i \in I0 |-> Mul(D(i)[d], Digit(ct[x].c[i], d))], I0)]
      Y == [d \in Digits |-> Total([j \in I1 |-> Mul(B(j)[d], Digit(ct[y].c[j], d))], I1)]
      out0 == Mul(ct[x].c0, ct[y].c0)
      outj == [i \in I0 \cup I1 |-> Add(Mul(ct[y].c0, Share(x, i)), Mul(ct[x].c0, Share(y, i)))]
      cross == [j \in I0 \cup I1 |-> IF j \in I1 THEN Inter(ct[y].c[j], X) ELSE Zero]
      w == [i \in I0 |-> Inter(ct[x].c[i], Y)]
  IN [on |-> TRUE,
      c0 |-> Add(out0, Total([i \in I0 |-> Inter(w[i], V(i))], I0)),
      c |-> [i \in I0 \cup I1 |-> Add(Add(outj[i], cross[i]), IF i \in I0 THEN Inter(w[i], u) ELSE Zero)]]
MulCt(k, x, y) == On(x) /\ On(y) /\ Put(k, Product(x, y), Mul(msg[x], msg[y]), who[x] \cup who[y])

\* precomputed digits of the operands, used in place of decomposing again
HoistedProduct(x, y) ==
  LET hx == [i \in IDs(x) |-> Dec(ct[x].c[i])]
      hy == [i \in IDs(y) |-> Dec(ct[y].c[i])]
      IP(h, k) == Total([d \in Digits |-> Mul(h[d], k[d])], Digits)
      X == [d \in Digits |-> Total([i \in IDs(x) |-> Mul(D(i)[d], hx[i][d])], IDs(x))]
      Y == [d \in Digits |-> Total([j \in IDs(y) |-> Mul(B(j)[d], hy[j][d])], IDs(y))]
      w == [i \in IDs(x) |-> IP(hx[i], Y)]
  IN [on |-> TRUE,
      c0 |-> Add(Mul(ct[x].c0, ct[y].c0), Total([i \in IDs(x) |-> Inter(w[i], V(i))], IDs(x))),
      c |-> [i \in IDs(x) \cup IDs(y) |->
               Add(Add(Add(Mul(ct[y].c0, Share(x, i)), Mul(ct[x].c0, Share(y, i))), IF i \in IDs(y) THEN IP(hy[i], X) ELSE Zero),
                   IF i \in IDs(x) THEN Inter(w[i], u) ELSE Zero)]]

Rotated(x, r) ==
  [on |-> TRUE,
   c0 |-> Perm(Add(ct[x].c0, Total([i \in IDs(x) |-> Inter(ct[x].c[i], RK(i, r))], IDs(x))), r),
   c |-> [i \in IDs(x) |-> Perm(Inter(ct[x].c[i], ak[r]), r)]]
RotateCt(k, x) == \E r \in Rots : On(x) /\ Put(k, Rotated(x, r), Perm(msg[x], r), who[x])

Conjugated(x) ==
  [on |-> TRUE,
   c0 |-> Conj(Add(ct[x].c0, Total([i \in IDs(x) |-> Inter(ct[x].c[i], CK(i))], IDs(x)))),
   c |-> [i \in IDs(x) |-> Conj(Inter(ct[x].c[i], ac))]]
ConjCt(k, x) == On(x) /\ Put(k, Conjugated(x), Conj(msg[x]), who[x])

Partial(x) == \E p \in IDs(x) : On(x) /\
  Put(x, [on |-> TRUE, c0 |-> Add(ct[x].c0, Mul(ct[x].c[p], sk[p])), c |-> [i \in IDs(x) \ {p} |-> ct[x].c[i]]], msg[x], who[x] \ {p})

Next == ops < MaxOps /\ \E k \in 1 .. NCt :
          \/ \E p \in Parties : \E more \in SUBSET Parties : Encrypt(k, p, more)
          \/ \E x, y \in 1 .. NCt : AddSub(k, x, y, 1) \/ AddSub(k, x, y, -1) \/ MulCt(k, x, y)
          \/ \E x \in 1 .. NCt : RotateCt(k, x) \/ ConjCt(k, x)
          \/ Partial(k)
Spec == Init /\ [][Next]_vars

(*************************** laws ******************************************)
Open(c) == Add(c.c0, Total([i \in DOMAIN c.c |-> Mul(c.c[i], sk[i])], DOMAIN c.c))
StandsFor == \A k \in 1 .. NCt : On(k) => Open(ct[k]) = msg[k]
Participants == \A k \in 1 .. NCt : On(k) => IDs(k) = who[k]
HoistedAgrees == \A x, y \in 1 .. NCt : On(x) /\ On(y) => HoistedProduct(x, y) = Product(x, y)
\* an added participant without data changes nothing
PadLaw == \A x \in 1 .. NCt : \A p \in Parties : On(x) /\ p \notin IDs(x) =>
            Open([ct[x] EXCEPT !.c = [i \in IDs(x) \cup {p} |-> Share(x, i)]]) = msg[x]
\* the last partial decryption leaves the message in the clear
Opened == \A x \in 1 .. NCt : On(x) /\ IDs(x) = {} => ct[x].c0 = msg[x]
=============================================================================
