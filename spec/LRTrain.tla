------------------------------ MODULE LRTrain ------------------------------
(***************************************************************************)
(* The four logistic-regression programs (lr/*.go), as a machine.          *)
(*                                                                         *)
(* State: which iteration of Nesterov-accelerated gradient descent is due, *)
(* how many rows of its batch are summed, the weights beta and the look-   *)
(* ahead vector v, everything in 16-bit fixed point.  The machine runs in  *)
(* the clear on the very rows of the data file the program reads.          *)
(*                                                                         *)
(* A recording of the unmodified program (its operations on an ideal       *)
(* implementation of the encryption API: levels, scales, keys, values) is  *)
(* read event by event:                                                    *)
(*   op      one homomorphic operation: levels in and out, bits of modulus *)
(*           its content takes                                             *)
(*   vec     a result that is the same vector in every row of the packing  *)
(*   dec     a decryption (rep = 1: the same vector in every row)          *)
(*   refuse  the API refused the call (missing key, no such level ...)     *)
(*   end     exit status and the verdict the program printed (blind: the   *)
(*           inference itself was not observed)                            *)
(* The recording is a behaviour of the machine iff beta_t and v_t occur in *)
(* order among the vectors, everything decrypted during training is a      *)
(* beta_t or v_t, every operation has its levels and room, and the printed *)
(* verdict is the one of the cubic sigmoid of beta_T on the tested rows.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, SequencesExt, FiniteSets

CONSTANTS
  DataFile,       \* JSON: [n |-> normalise?, rows |-> <<[z |-> <<features in 64ths>>, y |-> 0/1], ...>>]
  TraceFile,      \* JSON lines
  NF, Cols,       \* features, slots per row
  Batch, NBatch,  \* rows per batch, batches
  Iters,
  Eta,            \* sequence, 16-bit fixed point
  G10,            \* learning rate in tenths
  Norm,           \* "none" | "n" (divide by n) | "n1" (divide by n-1)
  NormRows,       \* rows the normalisation is computed over (a power of two)
  Decs,           \* TRUE iff the program decrypts beta and v in every iteration
  Tested,         \* sequence of tested rows (from 1), in the order of the program
  Tol, TolInf,    \* tolerance of a vector's coordinate / of an inference, 16-bit fixed point
  Seen            \* how many coordinates of a vector are observed

One == 65536

ASSUME Len(Eta) >= Iters

Data == JsonDeserialize(DataFile)
Rows == Data.rows
ASSUME TLCSet(3, ndJsonDeserialize(TraceFile))
Trace == TLCGet(3)

(*************************** fixed point ***********************************)
\* (functions, not operators: TLC evaluates their arguments once)
AbsF == [x \in Int |-> IF x < 0 THEN -x ELSE x]
Abs(x) == AbsF[x]
PosF == [a \in Int, b \in Int |-> ((a \div 1024) * b) \div 64 + ((a % 1024) * b) \div One]      \* a >= 0
Pos(a, b) == PosF[a, b]
MulF == [a \in Int, b \in Int |-> IF a < 0 THEN -PosF[-a, b] ELSE PosF[a, b]]
Mul(a, b) == MulF[a, b]
RemF == [r \in Int, b \in Int |-> ((r * 256) \div b) * 256 + (((r * 256) % b) * 256) \div b]       \* 0 <= r < b: 2^16 r / b
DivF == [a \in Int, b \in Int |-> IF a < 0 THEN -(((-a) \div b) * One + RemF[(-a) % b, b]) ELSE (a \div b) * One + RemF[a % b, b]]
Div(a, b) == DivF[a, b]
\* largest m with m*m <= x, one bit after the other (no RECURSIVE operator: TLC evaluates what depends on it only once)
Sqrt(x) == FoldLeft(LAMBDA m, b : IF Pos(m + b, m + b) <= x THEN m + b ELSE m, 0, [i \in 1 .. 21 |-> 2 ^ (21 - i)])
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

(*************************** the rows **************************************)
\* the features as the program uses them; evaluated once, kept in a TLC register
Features ==
  LET R == TLCEval(Rows)
      Raw(i, k) == R[i].z[k] * 1024
      Normalised(k) == Norm # "none" /\ k \notin {2, 4, 6} /\ k <= 17
      Mean == TLCEval([k \in 1 .. NF |-> IF Normalised(k) THEN (Sum([i \in 1 .. NormRows |-> R[i].z[k]]) * 1024) \div NormRows ELSE 0])
      Std == TLCEval([k \in 1 .. NF |->
               IF Normalised(k)
               THEN LET S == Sum([i \in 1 .. NormRows |-> LET d == Raw(i, k) - Mean[k] IN Mul(d, d)])
                    IN Sqrt(S \div (IF Norm = "n1" THEN NormRows - 1 ELSE NormRows))
               ELSE One])
  IN [i \in 1 .. Len(R) |-> TLCEval([k \in 1 .. NF |-> IF Normalised(k) THEN Div(Raw(i, k) - Mean[k], Std[k]) ELSE Raw(i, k)])]
ASSUME TLCSet(1, TLCEval(Features)) /\ TLCSet(2, LET R == TLCEval(Rows) IN TLCEval([i \in 1 .. Len(R) |-> R[i].y]))
Z == TLCGet(1)
Y(i) == TLCGet(2)[i]

Dot(w, i) == Sum([k \in 1 .. NF |-> Mul(Z[i][k], w[k])])
\* 0.15 x - 0.0015 x^3 + 0.5
Cube8 == [x \in Int |-> MulF[MulF[x \div 8, x \div 8], x \div 8]]                                \* (x/8)^3
SigF == [x \in Int |->
  IF Abs(x) >= 8 * One THEN (x * 15) \div 100 - ((Cube8[x] \div 10) * 768) \div 100 + One \div 2 ELSE (x * 15) \div 100 - ((MulF[MulF[x, x], x] \div 100) * 15) \div 100 + One \div 2]
Sig(x) == SigF[x]
Far == 128 * One                       \* beyond it the cubic leaves TLC's integers; such weights fit nothing

VARIABLES
  it,      \* iteration being computed
  row,     \* rows of its batch already summed
  acc,     \* sum over those rows of (sigmoid - label) * features
  beta, v, \* after iteration it - 1, or (ready) after iteration it
  ready,
  l,       \* next event
  seenB, seenV,   \* beta_it, v_it met in the recording
  hist,    \* all beta_t, v_t so far
  decB, decV,     \* iterations whose beta_t, v_t was decrypted
  inf,     \* slot 0 of the decryptions that are not row vectors
  cand,    \* the last row vectors
  why      \* first objections, <<class, text>>

vars == <<it, row, acc, beta, v, ready, l, seenB, seenV, hist, decB, decV, inf, cand, why>>

Zero == [k \in 1 .. NF |-> 0]

Init ==
  /\ it = 1 /\ row = 0 /\ acc = Zero /\ beta = Zero /\ v = Zero /\ ready = FALSE /\ l = 1
  /\ seenB = FALSE /\ seenV = FALSE /\ hist = <<>> /\ decB = {} /\ decV = {} /\ inf = <<>> /\ cand = <<>> /\ why = <<>>

(*************************** gradient descent ******************************)
Chunk == 32
SumRows ==
  /\ ~ready /\ it <= Iters /\ row < Batch
  /\ LET first == ((it - 1) % NBatch) * Batch + row
         n == IF Batch - row < Chunk THEN Batch - row ELSE Chunk
     IN \E E \in {TLCEval([j \in 1 .. n |-> Sig(Dot(v, first + j)) - (IF Y(first + j) = 1 THEN One ELSE 0)])} :
        /\ acc' = TLCEval([k \in 1 .. NF |-> acc[k] + Sum([j \in 1 .. n |-> Mul(Z[first + j][k], E[j])])])
        /\ row' = row + n
  /\ UNCHANGED <<it, beta, v, ready, l, seenB, seenV, hist, decB, decV, inf, cand, why>>

Update ==
  /\ ~ready /\ it <= Iters /\ row = Batch
  /\ LET w == TLCEval([k \in 1 .. NF |-> v[k] - (((acc[k] \div Batch) * G10) \div 10 + ((acc[k] % Batch) * G10) \div (10 * Batch))])
         e == Eta[it]
     IN /\ beta' = w
        /\ v' = TLCEval([k \in 1 .. NF |-> Mul(e, beta[k]) + Mul(One - e, w[k])])
        /\ hist' = Append(hist, [b |-> beta', v |-> v'])
  /\ ready' = TRUE
  /\ UNCHANGED <<it, row, acc, l, seenB, seenV, decB, decV, inf, cand, why>>

(*************************** the recording *********************************)
Close(x, w) ==
  /\ \A k \in 1 .. (IF Seen < NF THEN Seen ELSE NF) : Abs(x[k] - w[k]) <= Tol + Abs(w[k]) \div 1024
  /\ \A k \in (NF + 1) .. (IF Seen < Cols THEN Seen ELSE Cols) : Abs(x[k]) <= Tol
IsBeta(x) == Close(x, beta)
IsV(x) == Close(x, v)

Read == ready \/ it > Iters
Blame(c, t) == why' = IF Len(why) < 6 THEN Append(why, <<c, t>>) ELSE why

Advance(b, w) ==       \* both vectors of the iteration met: the next one is due
  IF b /\ w /\ it <= Iters
  THEN /\ it' = it + 1 /\ row' = 0 /\ acc' = Zero /\ ready' = FALSE /\ seenB' = FALSE /\ seenV' = FALSE
  ELSE /\ seenB' = b /\ seenV' = w /\ UNCHANGED <<it, row, acc, ready>>

Op ==
  LET e == Trace[l] IN
  /\ e.k = "op"
  /\ IF e.out # e.want \/ e.out < 0 THEN Blame("budget", "operation without the levels it consumes: " \o ToJson(e))
     ELSE IF e.used > e.cap THEN Blame("budget", "content outgrows the modulus: " \o ToJson(e))
     ELSE UNCHANGED why
  /\ UNCHANGED <<it, row, acc, beta, v, ready, seenB, seenV, hist, decB, decV, inf, cand>>

Vec ==
  LET e == Trace[l] IN
  /\ e.k = "vec"
  /\ cand' = (IF Len(cand) >= 8 THEN Tail(cand) ELSE cand) \o <<e.v>>
  /\ IF it <= Iters THEN Advance(seenB \/ IsBeta(e.v), seenV \/ IsV(e.v)) ELSE UNCHANGED <<it, row, acc, ready, seenB, seenV>>
  /\ UNCHANGED <<beta, v, hist, decB, decV, inf, why>>

Dec ==
  LET e == Trace[l]
      ts == 1 .. Len(hist)
      bs == {t \in ts : Close(e.v, hist[t].b)}
      vs == {t \in ts : Close(e.v, hist[t].v)}
      vector == e.rep = 1 /\ Len(inf) < Len(Tested) /\ ~(it > Iters /\ decB = 1 .. Iters /\ decV = 1 .. Iters)
  IN
  /\ e.k = "dec"
  /\ IF vector
     THEN /\ decB' = decB \cup bs /\ decV' = decV \cup vs /\ UNCHANGED inf
          /\ IF bs \cup vs # {} \/ Close(e.v, Zero) THEN UNCHANGED why
             ELSE Blame("values", "decrypted vector is neither the weights nor the look-ahead vector of an iteration up to " \o ToString(it) \o ": "
                                  \o ToJson(e.v) \o " expected " \o ToJson(hist[Len(hist)]))
     ELSE inf' = Append(inf, e.v[1]) /\ UNCHANGED <<decB, decV, why>>
  /\ UNCHANGED <<it, row, acc, beta, v, ready, seenB, seenV, hist, cand>>

RefuseEv ==
  LET e == Trace[l] IN
  /\ e.k = "refuse" /\ Blame("budget", "refused: " \o ToJson(e))
  /\ UNCHANGED <<it, row, acc, beta, v, ready, seenB, seenV, hist, decB, decV, inf, cand>>

\* the tested rows' sigmoids under weights w
Fits(w, vals) == /\ \A k \in 1 .. NF : Abs(w[k]) < 16 * One
                 /\ \A i \in 1 .. Len(Tested) : LET x == Dot(w, Tested[i]) s == Sig(x) IN Abs(x) < Far /\ Abs(vals[i] - s) <= TolInf + Abs(s) \div 512
Verdicts(vals, slack) ==      \* counts of right answers the decrypted values allow (a value on the threshold allows both)
  LET right == Cardinality({i \in 1 .. Len(Tested) : Abs(2 * vals[i] - One) > 2 * slack /\ (2 * vals[i] >= One) = (Y(Tested[i]) = 1)})
      open == Cardinality({i \in 1 .. Len(Tested) : Abs(2 * vals[i] - One) <= 2 * slack})
  IN right .. (right + open)

End ==
  LET e == Trace[l]
      trained == it > Iters
      n == Len(Tested)
      vals == IF Len(inf) >= n THEN SubSeq(inf, Len(inf) - n + 1, Len(inf)) ELSE <<>>
      W == IF trained THEN {beta} ELSE {cand[i] : i \in 1 .. Len(cand)}
      t1 == IF trained THEN <<>> ELSE <<<<"values", "iteration " \o ToString(it) \o ": "
              \o (IF seenB THEN "" ELSE "weights not met, expected " \o ToJson(beta) \o "; ")
              \o (IF seenV THEN "" ELSE "look-ahead vector not met, expected " \o ToJson(v) \o "; ") \o "last vectors " \o ToJson(cand)>>>>
      t2 == IF ~trained \/ ~Decs \/ (decB = 1 .. Iters /\ decV = 1 .. Iters) THEN <<>>
            ELSE <<<<"values", "weights decrypted after iterations " \o ToString(decB) \o ", look-ahead vector after " \o ToString(decV)>>>>
      t3 == IF e.rc = 0 THEN <<>> ELSE <<<<"budget", "the program ended with status " \o ToString(e.rc) \o ": " \o e.text>>>>
      blind == IF trained THEN [i \in 1 .. n |-> Sig(Dot(beta, Tested[i]))] ELSE <<>>
      t4 == IF e.rc # 0 THEN <<>>
            ELSE IF e.blind = 1 THEN (IF ~trained \/ e.correct \in Verdicts(blind, TolInf) THEN <<>>
                                      ELSE <<<<"verdict", "printed " \o ToString(e.correct) \o ", the trained weights say " \o ToString(Verdicts(blind, TolInf))>>>>)
            ELSE IF vals = <<>> THEN <<<<"verdict", "only " \o ToString(Len(inf)) \o " inferences were decrypted">>>>
            ELSE IF ~\E w \in W : Fits(w, vals) THEN <<<<"verdict", "decrypted inference is not the sigmoid of the trained weights: "
                        \o ToJson([i \in 1 .. (IF n < 5 THEN n ELSE 5) |-> <<vals[i], Sig(Dot(beta, Tested[i]))>>])>>>>
            ELSE IF e.correct \notin Verdicts(vals, 2) THEN <<<<"verdict", "printed " \o ToString(e.correct) \o ", the decrypted sigmoids say " \o ToString(Verdicts(vals, 2))>>>>
            ELSE <<>>
      all == why \o t1 \o t2 \o t3 \o t4
  IN
  /\ e.k = "end"
  /\ why' = all
  /\ PrintT("RES " \o ToJson(all))
  /\ UNCHANGED <<it, row, acc, beta, v, ready, seenB, seenV, hist, decB, decV, inf, cand>>

Event == /\ Read /\ l <= Len(Trace)
         /\ (Op \/ Vec \/ Dec \/ RefuseEv \/ End)
         /\ l' = l + 1

Next == SumRows \/ Update \/ Event
Spec == Init /\ [][Next]_vars

(*************************** properties of the machine *********************)
\* what the machine computes cannot leave the range fixed point represents
InRange == \A k \in 1 .. NF : Abs(beta[k]) < 64 * One /\ Abs(v[k]) < 64 * One
\* beta_{t+1} - v_t is the descent step: v is the declared combination of two successive weights
Nesterov == ready => \A k \in 1 .. NF :
              LET old == IF it = 1 THEN 0 ELSE hist[it - 1].b[k] IN Abs(v[k] - (Mul(Eta[it], old) + Mul(One - Eta[it], beta[k]))) <= 4
\* the machine advances through the recording
Progress == l <= Len(Trace) + 1
=============================================================================
