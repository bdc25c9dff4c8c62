NA = {}
CHECKS["C14"] = ("TLA+ machine (spec/KeyReg.tla), TLC exhaustive + every generated transition replayed into the real registries",
  "TLC enumerates the registry machine completely within small constants (identities, amounts, keys) and random long behaviours; each is executed on the real key sets and identity sets and every lookup, refusal, set operation and storage independence is compared.")
CHECKS["C16"] = ("TLA+ machine (spec/Gadget.tla), TLC-computed digits and products over small NTT primes + class-symbolic walks over 30..61-bit moduli, replayed into KeySwitcher",
  "TLC computes every expected residue for small primes and confirms the recombination law; for real-size moduli the specification fixes the digits by construction and the driver only writes them as residues. Bounded by the listed bases.")
CHECKS["C17"] = ("TLA+ machine (spec/RNS.tla), TLC-computed conversions (complete for small bases) and refinement of the code's algorithm, replayed into FastBasisExtender and its copies, also concurrently",
  "Every integer below 97*193 for every conversion, dense samples with edges for bases of three primes, class-symbolic walks over real-size moduli; copies used side by side and at the same time.")
KT = ("Histories TLC generates are executed on the real code; every random component is solved for with the secret keys and reference string (crafted public keys for encryptions) and "
      "the recording is validated by TLC, event by event. ")
CHECKS["C18"] = ("TLA+ machine (spec/KeyGen.tla): TLC-generated histories executed on the real code, recorded traces validated by TLC", KT +
  "Statistical laws (width, sign, density) are checked with margins of more than six standard deviations; uniformity only by halves per modulus.")
CHECKS["C21"] = ("TLA+ machine (spec/KeyGen.tla): TLC-generated histories executed on the real code, recorded traces validated by TLC", KT +
  "Exact in every coefficient, digit and modulus of the generated keys; bounded by the listed rings.")
LRN = ("The unmodified programs run on an ideal implementation of the encryption API that records levels, scales, keys, room and row vectors, on generated data files; TLC recomputes normalisation, "
       "gradient descent and inference in fixed point from the same file and validates the recording event by event (spec/LRTrain.tla). Scaled-down runs of three programs on the real library are validated the same way. "
       "spec/LRPack.tla, exhaustive, shows that the packed iteration refines the clear one and its depth. ")
CHECKS["C19"] = ("TLA+ machines (spec/LRTrain.tla, spec/LRPack.tla): recordings of the programs validated by TLC, packed iteration checked exhaustively", LRN + "Bounded by the generated data files.")
CHECKS["C20"] = ("TLA+ machines (spec/LRTrain.tla, spec/LRPack.tla): recordings of the programs validated by TLC, packed iteration checked exhaustively", LRN + "Bounded by the generated data files; noise growth is covered only by the scaled runs.")
CHECKS["C22"] = ("TLA+ machines (spec/Workers.tla: every interleaving of the stages of separate workers; spec/MKHE.tla: behaviours with simultaneous jobs), replayed into the real code under the race detector",
  "TLC shows that workers with objects of their own get what they get alone under every interleaving (and that sharing an object breaks it); behaviours TLC generates perform several jobs at once on the real library, "
  "built with the race detector, and every result is compared with the specification. Interleavings of the real code are those the scheduler produced; unsynchronised sharing is reported whatever the schedule.")
