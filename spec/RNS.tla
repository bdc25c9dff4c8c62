-------------------------------- MODULE RNS --------------------------------
(***************************************************************************)
(* Residue basis conversions of mkrlwe (FastBasisExtender).                 *)
(*                                                                          *)
(* A converter works on two bases, QM and PM (sequences of pairwise coprime  *)
(* moduli), of which prefixes are active.  An integer is given to it as its *)
(* residues.  Extending a basis yields the residues of the SAME integer in  *)
(* the other basis; reducing a basis divides by the removed modulus and      *)
(* rounds down.  Writing the integer as hi * R + lo, with R the removed      *)
(* modulus and lo < R, the quotient is hi and needs no arithmetic at all.    *)
(*                                                                          *)
(* Converters may be copied at any time; copies (and copies of copies)       *)
(* answer every question alike, whatever was asked of the others before.     *)
(*                                                                          *)
(* The second half of the module is the algorithm the code uses (the         *)
(* Halevi-Polyakov-Shoup conversion and the division by R through an         *)
(* inverse); TLC confirms on every question asked that it computes what the  *)
(* first half says.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS QM, PM,      \* the two bases (Symbolic: only their lengths count)
          Symbolic,    \* TRUE: integers are named by class; the driver picks the numbers for its (large) moduli
          Mode,        \* "blocks": one question per test, all blocks; "walks": sequences of questions to several converters
          NBlocks,     \* blocks of 16 integers per kind and level pair
          Depth, MaxConv

VARIABLES conv,        \* conv[i]: the converter i was copied from (0: made from scratch)
          hist, n
vars == <<conv, hist, n>>

NC == 16
CI == 1..NC
Kinds == {"upQP", "upPQ", "downQ", "downQntt", "downP"}

RECURSIVE ProdTo(_, _)
ProdTo(s, k) == IF k = 0 THEN 1 ELSE s[k] * ProdTo(s, k-1)

LQ == 1..Len(QM)
LP == 1..Len(PM)
\* all products that are written down must fit TLC's integers; two's complement limit is 2^31
Fits(s, k) == k <= 3

Kept(kd, lq, lp) == CASE kd \in {"downQ", "downQntt"} -> ProdTo(QM, lq) [] kd = "downP" -> ProdTo(PM, lp) [] OTHER -> 1
Gone(kd, lq, lp) == CASE kd \in {"upPQ", "downQ", "downQntt"} -> ProdTo(PM, lp) [] OTHER -> ProdTo(QM, lq)

\* ---- which integers are asked about ----
Edge(i, M) == CASE i = 1 -> 0 [] i = 2 -> M-1 [] i = 3 -> 1 % M [] i = 4 -> M \div 2 [] i = 5 -> (M \div 2) + (M % 2) - 1 [] i = 6 -> (M-2+M) % M [] OTHER -> RandomElement(0..M-1)
\* block b of the integers hi * R + lo: counted through completely when there are few enough
Pairs(b, H, R) ==
  IF b = 0 THEN [c \in CI |-> <<Edge(c, H), Edge(((c * 5) % 7) + 1, R)>>]
  ELSE IF H <= 2000000000 \div R /\ H * R <= NC * (NBlocks - 1)
       THEN [c \in CI |-> LET x == ((b-1) * NC + (c - 1)) % (H * R) IN <<x \div R, x % R>>]
       ELSE [c \in CI |-> <<RandomElement(0..H-1), RandomElement(0..R-1)>>]

Classes == {"zero", "one", "two", "max", "max1", "half", "half1", "mult", "multm1", "rand", "small", "big", "few", "many"}
SymPairs(z) == [c \in CI |-> <<IF c < 3 THEN "rand" ELSE RandomElement(Classes), IF c < 3 THEN "rand" ELSE RandomElement(Classes)>>]

\* ---- the answer ----
ResidueHL(hi, lo, R, m) == ((hi % m) * (R % m) + (lo % m)) % m
Row(prs, R, m) == [c \in CI |-> ResidueHL(prs[c][1], prs[c][2], R, m)]

Question(v, kd, lq, lp, prs) ==
  LET R == Gone(kd, lq, lp)
      up == kd \in {"upQP", "upPQ"}
      p0 == IF up THEN [c \in CI |-> <<0, prs[c][2]>>] ELSE prs
  IN [conv |-> v, kind |-> kd, lq |-> lq - 1, lp |-> lp - 1,
      inq |-> IF kd = "upPQ" THEN <<>> ELSE [i \in 1..lq |-> Row(p0, R, QM[i])],
      inp |-> IF kd = "upQP" THEN <<>> ELSE [i \in 1..lp |-> Row(p0, R, PM[i])],
      out |-> CASE kd = "upQP" -> [i \in 1..lp |-> [c \in CI |-> p0[c][2] % PM[i]]]
                [] kd = "upPQ" -> [i \in 1..lq |-> [c \in CI |-> p0[c][2] % QM[i]]]
                [] kd = "downP" -> [i \in 1..lp |-> [c \in CI |-> p0[c][1] % PM[i]]]
                [] OTHER -> [i \in 1..lq |-> [c \in CI |-> p0[c][1] % QM[i]]]]
SymQuestion(v, kd, lq, lp, prs) ==
  [conv |-> v, kind |-> kd, lq |-> lq - 1, lp |-> lp - 1, hi |-> [c \in CI |-> prs[c][1]], lo |-> [c \in CI |-> prs[c][2]]]
CopyOf(v) == [conv |-> v, kind |-> "copy", lq |-> 0, lp |-> 0]

Init == conv = <<0>> /\ hist = <<>> /\ n = 0

Ask(v, kd, lq, lp, b) ==
  /\ \E prs \in {TLCEval(IF Symbolic THEN SymPairs(n) ELSE Pairs(b, Kept(kd, lq, lp), Gone(kd, lq, lp)))} :
       hist' = Append(hist, IF Symbolic THEN SymQuestion(v, kd, lq, lp, prs) ELSE Question(v, kd, lq, lp, prs))
  /\ n' = n + 1
  /\ UNCHANGED conv

Copy(v) == /\ Len(conv) < MaxConv
           /\ conv' = Append(conv, v)
           /\ hist' = Append(hist, CopyOf(v))
           /\ n' = n + 1

Next ==
  IF Mode = "blocks"
  THEN /\ n = 0
       /\ \E kd \in Kinds, lq \in LQ, lp \in LP, b \in 0..NBlocks-1 : Ask(1, kd, lq, lp, b)
  ELSE /\ n < Depth
       /\ \E v \in {RandomElement(1..Len(conv))}, r \in {RandomElement(1..8)} :
            \/ r = 1 /\ Copy(v)
            \/ (r > 1 \/ Len(conv) = MaxConv)
               /\ \E kd \in {RandomElement(Kinds)}, lq \in {RandomElement(LQ)}, lp \in {RandomElement(LP)}, b \in {RandomElement(0..5)} : Ask(v, kd, lq, lp, b)

Spec == Init /\ [][Next]_vars
Out == ((Mode = "blocks" /\ n = 1) \/ (Mode = "walks" /\ n = Depth)) => PrintT("TST " \o ToJson(hist))

------------------------------------------------------------------------------
(* the algorithm                                                             *)
Inv(a, m) == CHOOSE x \in 1..m-1 : (a * x) % m = 1

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k-1)

\* residues src -> residue modulo t
UpAlg(xs, src, k, t) ==
  LET M == ProdTo(src, k)
      y == [i \in 1..k |-> (xs[i] * Inv((M \div src[i]) % src[i], src[i])) % src[i]]
      s == SumTo([i \in 1..k |-> y[i] * (M \div src[i])], k)
      v == s \div M                                \* the code: floor of a floating-point sum of the y_i / m_i
  IN (SumTo([i \in 1..k |-> (y[i] * ((M \div src[i]) % t)) % t], k) + (t - ((v * (M % t)) % t))) % t

\* (x - (x mod R)) / R modulo m, from residues
DownAlg(xm, xr, gone, k, m) == LET R == ProdTo(gone, k) IN ((xm + m - UpAlg(xr, gone, k, m)) * Inv(R % m, m)) % m

Col(rows, c) == [i \in 1..Len(rows) |-> rows[i][c]]
AlgRefines ==
  (~Symbolic /\ n > 0 /\ hist[n].kind # "copy") =>
    LET q == hist[n] lq == q.lq + 1 lp == q.lp + 1 IN
    \A c \in {1, 2, 3, 4, 7, 11, 16} :
      CASE q.kind = "upQP" -> \A i \in 1..lp : q.out[i][c] = UpAlg(Col(q.inq, c), QM, lq, PM[i])
        [] q.kind = "upPQ" -> \A i \in 1..lq : q.out[i][c] = UpAlg(Col(q.inp, c), PM, lp, QM[i])
        [] q.kind = "downP" -> \A i \in 1..lp : q.out[i][c] = DownAlg(q.inp[i][c], Col(q.inq, c), QM, lq, PM[i])
        [] OTHER -> \A i \in 1..lq : q.out[i][c] = DownAlg(q.inq[i][c], Col(q.inp, c), PM, lp, QM[i])

TypeOK == /\ \A i \in DOMAIN conv : conv[i] \in 0..i-1
          /\ Len(hist) = n
=============================================================================
