------------------------------- MODULE Gadget -------------------------------
(***************************************************************************)
(* Gadget decomposition and external product of mkrlwe (KeySwitcher).        *)
(*                                                                          *)
(* The moduli QM are grouped into digits of Alpha consecutive moduli; at     *)
(* level l the first l+1 moduli are active and the last digit may be         *)
(* incomplete.  The digits of a polynomial are, coefficient by coefficient,  *)
(* its residues modulo the product of the digit's active moduli, written in  *)
(* every active modulus and every special modulus of PM.                     *)
(*                                                                          *)
(* A polynomial is given here by its digits (that is what determines its     *)
(* residues: modulo q_j it is its digit number j \div Alpha), so that the    *)
(* decomposition is its own oracle.  An error-free gadget encoding of b is   *)
(* P * b in the moduli of the digit and 0 in all others; the external        *)
(* product with it is a * b (negacyclic), divided by P without remainder.    *)
(* Digits computed at a higher level serve at every lower one.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS QM, PM, Gamma, Symbolic, Mode, NBlocks, Depth

VARIABLES slot,     \* slot[s]: level at which the precomputed digits held there were made (-1: none)
          hist, n
vars == <<slot, hist, n>>

NC == 16
CI == 1..NC
NSlot == 3
Alpha == Len(PM) \div Gamma
Levels == 0..Len(QM)-1
Beta(l) == (l + Alpha) \div Alpha               \* ceil((l+1)/Alpha)
DigitOf(j) == (j - 1) \div Alpha + 1            \* of modulus j (1-based)
First(i) == (i-1) * Alpha + 1
Last(i, l) == IF i * Alpha < l + 1 THEN i * Alpha ELSE l + 1

RECURSIVE ProdFT(_, _)
ProdFT(a, b) == IF a > b THEN 1 ELSE QM[a] * ProdFT(a+1, b)
D(i, l) == ProdFT(First(i), Last(i, l))
PAll(m) == LET RECURSIVE f(_)
               f(k) == IF k = 0 THEN 1 % m ELSE (f(k-1) * (PM[k] % m)) % m
           IN f(Len(PM))

Edge(c, M) == CASE c = 1 -> 0 [] c = 2 -> M-1 [] c = 3 -> 1 % M [] c = 4 -> M \div 2 [] c = 5 -> (M-2+M) % M [] OTHER -> RandomElement(0..M-1)
\* digits of a polynomial at level l: number i, coefficient c
PickDigits(b, l) == [i \in 1..Beta(l) |-> [c \in CI |->
    IF b = 0 THEN Edge((c + 2 * i) % 7, D(i, l))
    ELSE IF D(i, l) <= NC * (NBlocks - 1) THEN ((b-1) * NC + c - 1) % D(i, l)
    ELSE RandomElement(0..D(i, l)-1)]]
Classes == {"zero", "one", "two", "max", "max1", "half", "half1", "mult", "multm1", "rand", "small", "big"}
SymDigits(l) == [i \in 1..Beta(l) |-> [c \in CI |-> IF c < 4 THEN "rand" ELSE RandomElement(Classes)]]

Residues(dg, l) == [j \in 1..l+1 |-> [c \in CI |-> dg[DigitOf(j)][c] % QM[j]]]
\* what Decompose must return
Digits(dg, l) == [i \in 1..Beta(l) |-> [q |-> [j \in 1..l+1 |-> [c \in CI |-> dg[i][c] % QM[j]]],
                                       p |-> [j \in 1..Len(PM) |-> [c \in CI |-> dg[i][c] % PM[j]]]]]

\* negacyclic product modulo m
RECURSIVE NegSum(_, _, _, _, _)
NegSum(a, b, k, i, m) == IF i = 0 THEN 0
   ELSE LET j == k - i + 1                       \* exponents: (i-1) + j = k  with wrap-around
            t == IF j >= 1 THEN (a[i] * b[j]) % m ELSE (m - ((a[i] * b[j + NC]) % m)) % m
        IN (NegSum(a, b, k, i-1, m) + t) % m
Neg(a, b, m) == [k \in CI |-> NegSum(a, b, k, NC, m)]

Kinds == {"dec", "ext", "exth"}
\* a: digits of the polynomial, at level l; s: slot for precomputed digits; ntt: in which domain the polynomial is handed over
Decompose(s, l, dg, ntt) == [kind |-> "dec", l |-> l, s |-> s, ntt |-> ntt, a |-> Residues(dg, l), digits |-> Digits(dg, l)]

SmallPoly(k) == [c \in CI |-> CASE k = 0 -> (IF c = 1 THEN 1 ELSE 0) [] k = 1 -> (IF c = NC THEN 1 ELSE 0) [] OTHER -> RandomElement(0..48)]
External(l, dg, b, ntt) ==
   LET a == Residues(dg, l) IN
   [kind |-> "ext", l |-> l, ntt |-> ntt, a |-> a, b |-> b, out |-> [j \in 1..l+1 |-> Neg(a[j], [c \in CI |-> b[c] % QM[j]], QM[j])]]

Init == slot = [s \in 1..NSlot |-> -1] /\ hist = <<>> /\ n = 0

DoDec(s, l, b, ntt) ==
  /\ slot' = [slot EXCEPT ![s] = l]
  /\ \E dg \in {TLCEval(IF Symbolic THEN SymDigits(l) ELSE PickDigits(b, l))} :
       hist' = Append(hist, IF Symbolic THEN [kind |-> "dec", l |-> l, s |-> s, ntt |-> ntt, dg |-> dg] ELSE Decompose(s, l, dg, ntt))
  /\ n' = n + 1
DoExt(l, b, k, ntt) ==
  /\ \E dg \in {TLCEval(IF Symbolic THEN SymDigits(l) ELSE PickDigits(b, l))}, f \in {TLCEval(SmallPoly(k))} :
       hist' = Append(hist, IF Symbolic THEN [kind |-> "ext", l |-> l, ntt |-> ntt, dg |-> dg, b |-> f] ELSE External(l, dg, f, ntt))
  /\ n' = n + 1 /\ UNCHANGED slot
\* external product with precomputed digits, at their level or below
LastDec(s) == CHOOSE i \in 1..n : hist[i].kind = "dec" /\ hist[i].s = s /\ \A j \in i+1..n : ~(hist[j].kind = "dec" /\ hist[j].s = s)
DoExtH(s, l, k) ==
  /\ slot[s] >= l
  /\ \E b \in {TLCEval(SmallPoly(k))} :
     hist' = Append(hist, IF Symbolic THEN [kind |-> "exth", l |-> l, s |-> s, b |-> b]
                          ELSE LET a == hist[LastDec(s)].a IN
                               [kind |-> "exth", l |-> l, s |-> s, b |-> b, out |-> [j \in 1..l+1 |-> Neg(a[j], [c \in CI |-> b[c] % QM[j]], QM[j])]])
  /\ n' = n + 1 /\ UNCHANGED slot

Next ==
  IF Mode = "blocks"
  THEN /\ n < 1
       /\ \E l \in Levels, b \in 0..NBlocks-1, ntt \in BOOLEAN : DoDec(1, l, b, ntt) \/ (b < 3 /\ \E k \in 0..2 : DoExt(l, b, k, ntt))
  ELSE /\ n < Depth
       /\ \E r \in {RandomElement(1..6)}, s \in {RandomElement(1..NSlot)}, l \in {RandomElement(Levels)}, b \in {RandomElement(0..4)}, k \in {RandomElement(0..5)}, ntt \in {RandomElement(BOOLEAN)} :
            IF r <= 2 \/ (r <= 4 /\ slot[s] < 0) THEN DoDec(s, l, b, ntt)
            ELSE IF r <= 4 THEN (\E l2 \in {IF l > slot[s] THEN RandomElement(0..slot[s]) ELSE l} : DoExtH(s, l2, k))
            ELSE DoExt(l, b, k, ntt)

Spec == Init /\ [][Next]_vars
Out == ((Mode = "blocks" /\ n = 1) \/ (Mode = "walks" /\ n = Depth)) => PrintT("TST " \o ToJson(hist))

------------------------------------------------------------------------------
(* laws, confirmed by TLC on every decomposition written out                  *)
\* the digits recombine: with the gadget g_i = P in the digit's moduli and 0 elsewhere, sum_i digit_i * g_i = P * a everywhere, in the special moduli 0 = P * a
Recombine ==
  (~Symbolic /\ n > 0 /\ hist[n].kind = "dec") =>
    LET h == hist[n] IN
    \A j \in 1..h.l+1 : \A c \in CI :
      LET g(i) == IF DigitOf(j) = i THEN PAll(QM[j]) ELSE 0
          RECURSIVE S(_)
          S(i) == IF i = 0 THEN 0 ELSE (S(i-1) + h.digits[i].q[j][c] * g(i)) % QM[j]
      IN S(Beta(h.l)) = (h.a[j][c] * PAll(QM[j])) % QM[j]
\* a digit is below the product of its moduli, and every modulus belongs to one digit
Shape == \A l \in Levels : /\ \A j \in 1..l+1 : DigitOf(j) \in 1..Beta(l) /\ First(DigitOf(j)) <= j /\ j <= Last(DigitOf(j), l)
                           /\ Beta(l) <= Beta(Len(QM)-1)
TypeOK == Len(hist) = n /\ \A s \in 1..NSlot : slot[s] \in -1..Len(QM)-1
=============================================================================
