------------------------------- MODULE LRPack -------------------------------
(***************************************************************************)
(* The packed training iteration of lr/*.go as a straight-line program     *)
(* over slot vectors: products, sums, rotations, plaintext masks, with the *)
(* level of every register.  TLC checks, for every data set over the small *)
(* ring Z_P, that after each iteration the registers beta and v hold the   *)
(* clear Nesterov iteration (the machine of LRTrain) in every row, that    *)
(* the padding columns hold zero, and that an iteration costs exactly four *)
(* levels and an inference three.                                          *)
(* Polynomial identities over Z: checking them modulo P for all values is  *)
(* what makes the abstraction of LRTrain (row vectors) sound for the       *)
(* packing, whatever the numbers.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt

CONSTANTS P,            \* modulus of the toy arithmetic
          R, C, NF,     \* rows, columns (powers of two), features <= C
          Iters, L,     \* iterations, levels of a fresh ciphertext
          EtaSeq,       \* eta per iteration
          G, C3, C15, C0,   \* learning rate over n, cubic coefficient, c1/c3, constant coefficient
          Vals          \* feature values

S == R * C
M(x) == x % P
RowOf(s) == (s - 1) \div C + 1
ColOf(s) == ((s - 1) % C) + 1

VARIABLES z, y,         \* data: rows of features, labels
          reg,          \* registers: name -> [x |-> slots, l |-> level]
          t, pc,        \* iteration, next instruction
          cb, cv        \* clear beta, v after iteration t - 1
vars == <<z, y, reg, t, pc, cb, cv>>

Ct(f) == [x |-> f, l |-> L]
ZeroSlots == [s \in 1 .. S |-> 0]
ZSlots == [s \in 1 .. S |-> IF ColOf(s) <= NF THEN M(z[RowOf(s)][ColOf(s)]) ELSE 0]
YSlots == [s \in 1 .. S |-> y[RowOf(s)]]
Const(c) == [s \in 1 .. S |-> M(c)]
Mask == [s \in 1 .. S |-> IF ColOf(s) = 1 THEN 1 ELSE 0]
Lab(c) == [s \in 1 .. S |-> M(-c * G * (C0 - YSlots[s]))]

Lower(a, b) == IF a < b THEN a ELSE b
MulCt(a, b) == [x |-> [s \in 1 .. S |-> M(a.x[s] * b.x[s])], l |-> Lower(a.l, b.l) - 1]
MulPt(a, p) == [x |-> [s \in 1 .. S |-> M(a.x[s] * p[s])], l |-> a.l - 1]
AddCt(a, b) == [x |-> [s \in 1 .. S |-> M(a.x[s] + b.x[s])], l |-> Lower(a.l, b.l)]
Rot(a, k) == [x |-> [s \in 1 .. S |-> a.x[((s - 1 + k) % S) + 1]], l |-> a.l]

\* instructions: <<target, op, arg, arg>>
Pows(n) == [i \in 1 .. 12 |-> 2 ^ (i - 1)]
Upto(n) == SelectSeq(Pows(n), LAMBDA k : k < n)
Map(s, F(_)) == [i \in 1 .. Len(s) |-> F(s[i])]
ColSum(r) == Map(Upto(C), LAMBDA k : <<r, "rotadd", r, k>>) \o <<<<r, "mulpt", r, Mask>>>> \o Map(Upto(C), LAMBDA k : <<r, "rotadd", r, -k>>)
RowSum(r) == Map(Upto(R), LAMBDA k : <<r, "rotadd", r, C * k>>)
Prog(i) ==
  LET e == EtaSeq[i] IN
  << <<"m", "mul", "z", "v">>, <<"z1", "mulpt", "z", Lab(1)>>, <<"z2", "mulpt", "z", Lab(1 - e)>>,
     <<"z3", "mulpt", "z", Const(-G * C3)>>, <<"z4", "mulpt", "z", Const(-(1 - e) * G * C3)>> >>
  \o ColSum("m")
  \o << <<"m2", "mul", "m", "m">>, <<"m2", "add", "m2", "k5">>, <<"m1", "mul", "m", "z3">>, <<"s", "mul", "z4", "m">>,
        <<"g", "mul", "m1", "m2">>, <<"g", "add", "g", "z1">>, <<"u", "mul", "s", "m2">>, <<"u", "add", "u", "z2">> >>
  \o RowSum("g") \o << <<"b1", "add", "v", "g">>, <<"v1", "mulpt", "v", Const(1 - e)>>, <<"b0", "mulpt", "beta", Const(e)>>, <<"v1", "add", "v1", "b0">> >>
  \o RowSum("u") \o << <<"v", "add", "v1", "u">>, <<"beta", "copy", "b1", "b1">> >>

Exec(i) ==
  IF i[2] = "mul" THEN MulCt(reg[i[3]], reg[i[4]])
  ELSE IF i[2] = "mulpt" THEN MulPt(reg[i[3]], i[4])
  ELSE IF i[2] = "add" THEN AddCt(reg[i[3]], reg[i[4]])
  ELSE IF i[2] = "rotadd" THEN AddCt(reg[i[3]], Rot(reg[i[3]], i[4]))
  ELSE reg[i[3]]

Init ==
  /\ z \in [1 .. R -> [1 .. NF -> Vals]] /\ y \in [1 .. R -> {0, 1}]
  /\ reg = [n \in {"z", "v", "beta", "k5", "m", "m1", "m2", "s", "g", "u", "z1", "z2", "z3", "z4", "b0", "b1", "v1"} |->
              IF n = "z" THEN Ct(ZSlots) ELSE IF n = "k5" THEN Ct(Const(C15)) ELSE Ct(ZeroSlots)]
  /\ t = 1 /\ pc = 1
  /\ cb = [k \in 1 .. NF |-> 0] /\ cv = [k \in 1 .. NF |-> 0]

\* the clear iteration (as in LRTrain, in Z_P)
Sum(s) == FoldLeft(LAMBDA a, b : M(a + b), 0, s)
Sigm(x) == M(C3 * M(M(x * x) * x) + C3 * C15 * x + C0)
Clear(i) ==
  LET X == [j \in 1 .. R |-> Sum([k \in 1 .. NF |-> z[j][k] * cv[k]])]
      w == [k \in 1 .. NF |-> M(cv[k] - G * Sum([j \in 1 .. R |-> M(Sigm(X[j]) - y[j]) * z[j][k]]))]
  IN [b |-> w, v |-> [k \in 1 .. NF |-> M(EtaSeq[i] * cb[k] + (1 - EtaSeq[i]) * w[k])]]

Step ==
  /\ t <= Iters
  /\ LET prog == Prog(t) i == prog[pc] IN
     /\ reg' = [reg EXCEPT ![i[1]] = Exec(i)]
     /\ IF pc = Len(prog)
        THEN /\ t' = t + 1 /\ pc' = 1
             /\ LET c == Clear(t) IN cb' = c.b /\ cv' = c.v
        ELSE UNCHANGED <<t, cb, cv>> /\ pc' = pc + 1
  /\ UNCHANGED <<z, y>>

Next == Step
Spec == Init /\ [][Next]_vars

(*************************** laws ******************************************)
Holds(r, w) == \A s \in 1 .. S : r.x[s] = (IF ColOf(s) <= NF THEN w[ColOf(s)] ELSE 0)
Refines == pc = 1 => Holds(reg["beta"], cb) /\ Holds(reg["v"], cv)
Depth == pc = 1 => (t > 1 => reg["beta"].l = L - 4 * (t - 1) /\ reg["v"].l = L - 4 * (t - 1))
Enough == \A n \in DOMAIN reg : reg[n].l >= 0
\* after training, an inference (one product, the powers, the closing product) still has its three levels
Inference == t > Iters => reg["beta"].l >= 3
=============================================================================
