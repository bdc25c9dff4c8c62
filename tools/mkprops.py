#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))
EV="mkckks/evaluator.go"; KS="mkrlwe/keyswitch.go"; KH="mkrlwe/keyswitch_hoisted.go"; KG="mkrlwe/keygen.go"
prop("C01","Encrypting then decrypting returns the message",
 """For every party, message, ring size and slot count, encrypting under the party's public key (into a fresh ciphertext,
 a ciphertext prepared for more participants, or an already used or lower-level ciphertext, from a message or from an encoded
 plaintext of any scale) and then decrypting with the secret keys of the ciphertext's participants returns the message up to the
 scheme's noise. At the generic ring-encryption layer the decrypted polynomial has the smaller of the two levels and is in the
 (transformed or coefficient) domain that the receiving plaintext declares.""",
 ["inputs","configurations","histories"],
 "all messages, parties, target ciphertexts (fresh, expanded, reused, any level), scales, and any earlier use of the same encryptor/decryptor",
 "the tests encrypt one random message per user into a fresh top-level ciphertext, compare only real parts, and never reuse or expand a container or vary the scale",
 ["mkckks/encryptor.go","mkrlwe/encryptor.go","mkckks/decryptor.go","mkrlwe/decryptor.go","mkckks/elements.go"],
 [("public-key encryption u*pk + e + m","mkrlwe/encryptor.go Encrypt"),("phase c0 + sum c_i s_i","mkrlwe/decryptor.go Decrypt")],
 observe=["mkckks.Decryptor.Decrypt","mkrlwe.Decryptor.Decrypt"])
prop("C02","Sums and differences decrypt to slot-wise sums and differences",
 """For any two ciphertexts, whatever their participants (equal, overlapping, nested, disjoint, already partially decrypted), their levels,
 and their scales (equal, or one an integer multiple of the other), the encrypted sum and the encrypted difference decrypt to the slot-wise
 sum and difference of the two messages up to noise. Operand order matters only through the sign of the difference.""",
 ["inputs","programs"],"all pairs of ciphertexts reachable by any program: participant sets x levels x scales",
 "the add and sub tests are never called by the suite; addition is only used with equal scales and top levels inside the multiplication test",
 [EV],[("participant case split and scale alignment","evaluateInPlace"),("negation of shares only present in the subtrahend","sub")],
 observe=["Evaluator.AddNew","Evaluator.SubNew"])
prop("C03","Encrypted products decrypt to slot-wise products",
 """For any two ciphertexts, whatever their participants, levels (equal or not) and however they were produced, multiplication with relinearization
 yields a ciphertext that decrypts, under the union of the participants' keys, to the slot-wise complex product up to noise, including squaring a
 ciphertext and multiplying ciphertexts of different parties.""",
 ["inputs","programs","configurations"],"all operand pairs (participants x levels x messages), all decomposition shapes (number of special primes), all chains of products the modulus allows",
 "the tests square one top-level ciphertext with a constant message in every slot; distinct operands, unequal levels, partial overlap of participants and deeper chains are never run",
 [EV,KS,KH,KG],[("relinearization with per-party (b,d,v) keys","MulAndRelinHoisted / MulAndRelin"),("hoisting scratch in the relinearization key set","MulRelinNew"),("rescaling","Rescale")],
 observe=["Evaluator.MulRelinNew","KeySwitcher.MulAndRelin"])
prop("C04","Multiplying by plaintexts and constants scales every slot exactly",
 """Multiplying a ciphertext by an encoded plaintext decrypts to the slot-wise product with the plaintext's message, and multiplying by a constant
 (integer, fractional or complex, positive or negative, of any size, in place or into another ciphertext of the same shape) decrypts to every slot multiplied by that
 constant, up to noise, at every level and for every participant set.""",
 ["inputs","programs"],"all ciphertexts, plaintexts and constants (all supported types, signs, fractional and imaginary parts)",
 "both operations are called by no running test",
 [EV,"mkckks/utils.go","mkckks/encryptor.go"],[("constant encoding","getConstAndScale, MultByConst, scaleUpExact"),("plaintext product","MulPtxtNew")],
 observe=["Evaluator.MulPtxtNew","Evaluator.MultByConst"])
prop("C05","Rotation by any amount moves every slot by that amount",
 """For every integer amount (positive, negative, zero, or beyond the slot count), rotating a ciphertext decrypts to the message rotated left by that amount
 modulo the slot count, whether the amount has its own rotation key or has to be composed from the power-of-two keys, for any participants and level. A rotation
 key generated for a negative amount serves exactly that amount.""",
 ["inputs","programs","configurations"],"all amounts, all sets of available rotation keys, participants, levels, ring sizes and packings",
 "the rotation tests are commented out of the suite",
 [EV,KS,KG,"mkrlwe/params.go"],[("amount normalisation and binary composition","rotate"),("key switching then automorphism","KeySwitcher.Rotate"),("rotation key generation","GenRotationKey")],
 observe=["Evaluator.RotateNew","KeySwitcher.Rotate"])
prop("C06","Conjugation conjugates every slot",
 """Conjugating a ciphertext decrypts to the complex conjugate of its message in every slot, up to noise, at every level and for every participant set;
 conjugating twice gives back the original message.""",
 ["inputs","programs"],"all ciphertexts at all levels and participant sets",
 "the conjugation test is commented out of the suite (and conjugation below the top level crashed)",
 [EV,KS,KG],[("automorphism then key switching","KeySwitcher.Conjugate"),("conjugation key generation","GenConjugationKey")],
 observe=["Evaluator.ConjugateNew"])
prop("C07","Precomputed (hoisted) evaluation agrees with direct evaluation",
 """A ciphertext's precomputed decomposition can be used any number of times, for products (on either operand, both, or neither) and for rotations, and after the ciphertext has been
 lowered in level, and each result decrypts to the same message, with the same participants, level and scale, as the direct operation. A hoisted rotation by an amount that has no
 key of its own is refused.""",
 ["programs","histories"],"all interleavings of precomputation, reuse and other operations; all operand/level/participant combinations",
 "the hoisted tests are commented out; the running test only reaches the internal both-hoisted square at top level",
 [KH,EV],[("digit decomposition reuse","Decompose / ExternalProductHoisted"),("hoisted forms","HoistedForm, MulRelinHoistedNew, RotateHoistedNew")],
 observe=["Evaluator.HoistedForm","Evaluator.MulRelinHoistedNew","Evaluator.RotateHoistedNew"])
prop("C08","Level and scale metadata always match the encrypted content",
 """Every operation reports the level and scale its content really has: sums and differences take the lower level and the larger scale, products multiply the scales and then give up
 exactly as many levels as rescaling to the default scale needs, rotations, conjugations and copies keep both, dropping levels lowers only the level, and constants change the scale only when they have a fractional part.
 Rescaling divides by top moduli while the scale stays at least half the requested one, never goes below level 0, leaves the message unchanged
 even when there is nothing to divide (into the same or another ciphertext), and reports an error for a non-positive target, a zero scale or a level-0 input.""",
 ["programs","histories"],"all programs over the operations, all levels and scales",
 "no running test looks at level or scale after an operation, calls rescaling directly, or drops levels",
 [EV,"mkckks/elements.go","mkrlwe/elements.go"],[("Rescale loop","Rescale"),("result allocation","newCiphertextBinary"),("DropLevel","DropLevel")],
 observe=["Ciphertext.Level","Ciphertext.Scale","Evaluator.Rescale","Evaluator.RescaleNew"])
prop("C09","A ciphertext depends on exactly its participants' keys",
 """The participants of a result are the union of its operands' participants (an added participant with no data changes nothing but the participant set), and decryption succeeds exactly
 when the key set holds the secret key of every participant: with any of them missing it is refused and no message is returned, and extra keys change nothing.""",
 ["programs","inputs"],"all programs over any number of parties and all key subsets offered at decryption",
 "tests always decrypt with the full key set and never inspect the participant set",
 ["mkrlwe/decryptor.go","mkrlwe/elements.go","mkrlwe/idset.go",EV],[("missing key check","mkrlwe.Decryptor.Decrypt"),("participant union","newCiphertextBinary, PadCiphertext, IDSet.Union")],
 observe=["Ciphertext.IDSet","Decryptor.Decrypt"])
prop("C10","Partial decryptions compose in any order to the joint decryption",
 """Applying each participant's partial decryption in any order, possibly interleaved with other homomorphic operations, leaves after each step a ciphertext whose participants are exactly
 the remaining ones and which still decrypts to the same message under the remaining keys; after the last one no key is needed. A partial decryption by a
 non-participant is refused and changes nothing.""",
 ["schedules","programs"],"all orders and interleavings of the parties' partial decryptions, in both the transformed and coefficient domains",
 "no test calls partial decryption directly",
 ["mkrlwe/decryptor.go","mkckks/decryptor.go"],[("share removal","PartialDecrypt")],
 observe=["Decryptor.PartialDecrypt"])
prop("C11","Operations never disturb anything but their result",
 """An operation changes nothing but its declared result: operands, plaintexts, messages, precomputed forms, keys, the common reference string and every other ciphertext stay bit-for-bit the same, also when the
 operation is refused, and a newly created result shares no storage with anything else, so that later overwriting one never alters the other.""",
 ["programs","histories"],"all programs mixing in-place and result-allocating operations over shared objects",
 "tests use each object once and never compare operands before and after",
 [EV,"mkrlwe/elements.go","mkckks/elements.go","mkrlwe/keys.go","mkrlwe/decryptor.go",KS,KG],[("deep copies","CopyNew"),("separate result allocation","*New operations")],
 observe=["every public operation"])
prop("C12","Results do not depend on what an object was used for before",
 """The result of encrypting, evaluating or decrypting is a function of the arguments alone: an evaluator, encryptor, decryptor, key generator or relinearization key set that has already been
 used any number of times, for other parties, levels, scales or for refused operations, gives the same result as a new one.""",
 ["histories"],"all earlier histories of every long-lived object that keeps scratch memory",
 "tests build one evaluator and run one kind of operation at one level, so stale scratch content is never exposed",
 [EV,KS,KH,"mkckks/decryptor.go","mkckks/encryptor.go",KG],[("scratch pools","Evaluator.ctxtPool/polyQPool, KeySwitcher pools, RelinearizationKeySet.HoistPool, Decryptor.ptxtPool, Encryptor pools")],
 observe=["every public operation"])
prop("C13","Parties can join and leave at any time",
 """Parties may generate and register keys at any moment, including after others have encrypted and computed, and data of early and late joiners can be combined and decrypted together; a party's departure never affects
 ciphertexts or computations that do not involve it, and its return with the same keys restores full function. Extending the common reference string for a new rotation amount, in any order relative to key generation and even for an amount it already covers,
 never invalidates keys issued before.""",
 ["histories","schedules"],"all interleavings of join, leave, return, reference-string extension, encryption and evaluation",
 "tests generate all keys up front for a fixed set of users",
 [KG,"mkrlwe/params.go","mkrlwe/keys.go",EV],[("common reference string","NewParameters, AddCRS"),("key sets","Add*/Del*")],
 observe=["KeyGenerator.*","Parameters.AddCRS","Evaluator.*"])
prop("C14","Key and participant registries behave as maps and sets",
 """Looking up a key returns the key most recently added under that identity (and rotation amount) and is refused when it was never added or has been deleted; deleting affects only that entry and deleting an absent entry is harmless.
 Participant sets obey set algebra, their union, intersection and copy are new and independent of the originals, and the reserved identity "0" can never be a participant.""",
 ["histories"],"all sequences of add, replace, delete, lookup and set operations over all identities and amounts",
 "no test deletes or replaces a key, looks up a missing one, or uses the set operations other than add and one union",
 ["mkrlwe/keys.go","mkrlwe/idset.go","mkrlwe/elements.go"],[("maps keyed by identity","keys.go Add/Del/Get"),("set operations","idset.go")],
 observe=["SecretKeySet","PublicKeySet","RelinearizationKeySet","RotationKeySet","ConjugationKeySet","IDSet"])
prop("C15","Without the needed evaluation key an operation is refused, never wrong",
 """A product, rotation or conjugation for which some participant's evaluation key is missing, and a rotation key requested for an amount without reference string, is refused (it fails visibly) or still gives the correct result; it never
 returns a ciphertext that decrypts to something else. A rotation key for amount zero, which would expose the secret key, is always refused.""",
 ["histories","inputs"],"all subsets of registered keys x all operations x all amounts",
 "tests always register all keys",
 ["mkrlwe/keys.go",KG,EV,KS],[("lookup panics","Get*Key"),("reference string check","GenRotationKey")],
 observe=["Evaluator.*","KeyGenerator.GenRotationKey"])
prop("C16","Gadget decomposition recombines exactly at every level",
 """For every level and every number of special primes, the digits of a polynomial are its residues modulo each digit's product of moduli (up to one multiple of it within double-precision rounding of its ends), expressed in all active moduli, and the external product of a polynomial with an error-free gadget encoding of another equals their
 product exactly; the precomputed variant gives the same value.""",
 ["inputs","configurations"],"all polynomials, levels, decomposition widths and modulus chains",
 "tests only check top-level and level-0 noise size at two parameter sets with one modulus per digit",
 ["mkrlwe/basis_extension.go",KS,KH,"mkrlwe/params.go"],[("RNS digit extraction","Decomposer.DecomposeAndSplit"),("inner product and division by P","ExternalProduct, ExternalProductHoisted")],
 observe=["KeySwitcher.Decompose","KeySwitcher.ExternalProduct","KeySwitcher.ExternalProductHoisted"])
prop("C17","Residue basis conversions are exact integer operations",
 """Extending a residue representation to another basis yields the same integer's residues, and reducing a basis yields the floored quotient by the removed modulus, for every integer, level pair and basis (integers within double-precision rounding of 0 or of the extended modulus may come out shifted by one multiple of it, the same in every modulus); shallow copies of a converter behave identically and independently.""",
 ["inputs","configurations"],"all integers below the modulus, all level pairs",
 "the repository's own basis extender is called by no test",
 ["mkrlwe/basis_extension.go"],[("modUpExact, reconstructRNS, multSum","basis_extension.go"),("ModDown*","basis_extension.go")],
 observe=["FastBasisExtender.ModUpQtoP","FastBasisExtender.ModUpPtoQ","FastBasisExtender.ModDownQPtoQ","FastBasisExtender.ModDownQPtoQNTT","FastBasisExtender.ModDownQPtoP"])
prop("C18","All encryptions and keys carry fresh, non-trivial randomness",
 """Every encryption uses a fresh mask and fresh non-zero small errors in both of its parts, every public and evaluation key component carries its own fresh non-zero small error of the configured width, secret keys are drawn independently from the configured distribution, and
 reference-string elements for different purposes are independent and uniform. No randomness is ever repeated across calls, parties or objects.""",
 ["histories"],"all sequences of key generations and encryptions, across objects and parties",
 "tests only check that errors are small enough, so missing or repeated randomness passes",
 ["mkrlwe/encryptor.go",KG,"mkrlwe/params.go"],[("samplers","newEncryptorBase, NewKeyGenerator, NewParameters"),("error terms","Encrypt, GenPublicKey, GenSwitchingKey, GenRelinearizationKey, GenRotationKey, GenConjugationKey")],
 observe=["Encryptor.Encrypt","KeyGenerator.*","Parameters.CRS"])
prop("C19","Encrypted training equals plain accelerated gradient descent",
 """For every data set, after every iteration each logistic-regression program's decrypted weights and look-ahead vector equal, up to noise, those of Nesterov-accelerated gradient descent with the programs' cubic sigmoid approximation run in the clear on the same batch of rows, features and labels, replicated
 to every row's feature positions.""",
 ["inputs","programs"],"all data files of the expected shape; all four programs, all iterations",
 "no test runs the programs",
 ["lr/lr.go","lr/lr_toy.go","lr/lr_minibatch.go","lr/lr_minibatch_toy.go"],[("packing and masks","main"),("row and column sums","SumRowVec, SumColVec"),("iteration","main training loop"),("data loading","readData")],
 observe=["decrypted beta and v after each iteration"])
prop("C20","Training and inference stay within their depth and key budget",
 """Throughout all four programs every homomorphic step has the levels it consumes, every rotation has the keys it needs for every participant, every decryption has all participants' keys, and the class
 reported for the tested rows is the one given by the cubic sigmoid of the trained weights at threshold one half.""",
 ["inputs","programs"],"all data files of the expected shape; all four programs end to end",
 "no test runs the programs",
 ["lr/lr.go","lr/lr_toy.go","lr/lr_minibatch.go","lr/lr_minibatch_toy.go"],[("parameters and key generation","genTestParams"),("inference","main")],
 observe=["sequence of homomorphic operations issued by the program","printed verdict"])
prop("C21","Every generated key satisfies its defining relation",
 """Whatever the secret-key distribution (default ternary, given density, sparse with exact weight, Gaussian), generated public, switching, relinearization, rotation and conjugation keys satisfy their defining
 relations with the secret key and the common reference string up to small error, in every digit and every modulus, carry the right identity and amount, and key pairs of every kind encrypt and decrypt correctly.""",
 ["inputs","configurations"],"all secret-key distributions, amounts, identities, digit counts and modulus chains",
 "tests check public, switching and relinearization keys of the default distribution only; rotation, conjugation, sparse and Gaussian keys are never generated",
 [KG,"mkrlwe/keys.go"],[("key equations","GenPublicKey, GenSwitchingKey, GenRelinearizationKey, GenRotationKey, GenConjugationKey"),("secret distributions","GenSecretKey*, GenKeyPairSparse")],
 observe=["KeyGenerator.*"])
prop("C22","Separate workers do not interfere",
 """Computations carried out at the same time by separate workers, each with its own encryptor, decryptor, evaluator, key generator and relinearization key set, sharing the parameters with their reference string, the
 keys, the other key sets and operands that nobody changes meanwhile, each give exactly the result they give alone, under every interleaving, and leave everything shared unchanged.""",
 ["schedules","histories"],"all interleavings of any number of encryptions, evaluations, decryptions and key generations by separate workers",
 "no test uses two goroutines, so storage shared behind separate objects never shows",
 ["mkrlwe/encryptor.go","mkrlwe/decryptor.go",KG,KS,KH,"mkrlwe/basis_extension.go","mkrlwe/params.go",EV,"mkckks/encryptor.go","mkckks/decryptor.go"],
 [("scratch owned by each object","newEncryptorBase, NewDecryptor, NewKeyGenerator, NewKeySwitcher, NewEvaluator, NewRelinearizationKeyKeySet"),("shared, read-only tables","Parameters, CRS, Decomposer.modUpParams")],
 observe=["results of every public operation","data races reported by the Go race detector"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
