# generates properties.jsonl (kept in git; edit here, regenerate)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m) for n,m in state]
    assert len(title)<=80,title
    P.append(d)

p('C01','Bulletproofs range proofs are complete',
 'For every supported range [0, 2^n) with n in {1,2,4,8,16,32}, every integer secret inside the range and every outcome of the prover\'s random draws, the range proof returned by the prover is accepted by the verifier. Proving succeeds without error or panic, and the published proof carries a Pedersen commitment g^v·h^gamma to exactly that secret.',
 ['inputs','configurations'],'all six range sizes, all secrets in the range, all random draws, for hash challenges that are nonzero modulo the group order',
 'The tests prove a handful of fixed secrets for one range size, each with one random tape; completeness is an algebraic identity over all secrets, blinding factors and challenges.',
 ['bulletproofs/bp.go','bulletproofs/bip.go','bulletproofs/util.go','bulletproofs/vector.go','util/util.go'],
 [('range prover','bulletproofs/bp.go Prove'),('range verifier','bulletproofs/bp.go BulletProof.Verify'),('inner product argument','bulletproofs/bip.go')],
 ['the proof returned by the prover and the verdict of its verification'])
p('C02','Bulletproofs never validate an honest proof for a secret outside the range',
 'When the prover is run on an integer that is negative or is at least 2^n (smaller in magnitude than half the group order), the resulting proof, if one is produced at all, is rejected by the verifier. This holds for every supported range size and every outcome of the random draws.',
 ['inputs','configurations'],'all six range sizes, all integers outside the range below half the group order in magnitude, all random draws, nonzero challenges',
 'Tests try one value just above and one below the range; whether the committed value enters the verification equation with the right weight is a statement about every secret.',
 ['bulletproofs/bp.go','util/util.go'],
 [('range prover','bulletproofs/bp.go Prove'),('commitment equation','bulletproofs/bp.go BulletProof.Verify'),('bit decomposition','util/util.go Decompose')],
 ['the verdict of verification'])
p('C03','Generic range proofs accept exactly the secrets inside [a, b)',
 'For all bounds a < b with b - a at most 2^32, a proof generated for an integer secret is accepted exactly when a <= secret < b. Setting up a range wider than 2^32 is refused.',
 ['inputs','configurations'],'all int64 bounds, all integer secrets (below half the group order in magnitude), all random draws, nonzero challenges',
 'The tests use one fixed interval and a few secrets; the shifts by b - 2^32 and by a and their boundary cases range over all 64-bit bounds.',
 ['bulletproofs/bprp.go','bulletproofs/bp.go'],
 [('generic setup','bulletproofs/bprp.go SetupGeneric'),('two shifted proofs','bulletproofs/bprp.go ProveGeneric'),('conjunction','bulletproofs/bprp.go ProofBPRP.Verify')],
 ['error of the setup call','the verdict of verification'])
p('C04','The Bulletproofs verifier enforces the published equations on the given proof',
 'The verifier accepts a range proof only if, for challenges recomputed by hashing the proof\'s own commitment and announcements, both published group equations hold and the inner product argument is valid for the generators, commitment and inner-product value that the rest of the proof determines. Values that the proof merely carries along for the inner product argument (its copies of parameters, base point and commitment) cannot influence the verdict. Every challenge depends on the value commitment.',
 ['inputs'],'all well-formed proof objects, including ones no honest prover produces',
 'Tests only feed honest proofs; that no other equation, unbound value or skipped comparison decides the verdict quantifies over adversarial proof objects.',
 ['bulletproofs/bp.go','bulletproofs/bip.go','bulletproofs/util.go'],
 [('range verifier','bulletproofs/bp.go BulletProof.Verify'),('challenge derivation','bulletproofs/util.go HashBP'),('inner product verifier','bulletproofs/bip.go InnerProductProof.Verify')],
 ['the verdict of verification'])
p('C05','The inner product argument is complete and exact',
 'For vectors of every supported length (powers of two up to 32), the argument produced for a commitment P = g^a h^b and claimed value c verifies exactly when c equals the inner product of a and b modulo the group order. It consists of log2(n) pairs of group elements and two scalars.',
 ['inputs','configurations'],'all vectors a and b, all generators and base points, all claimed values c, lengths 1 to 32, nonzero challenges',
 'The test folds one pair of length-4 vectors; the halving recursion must preserve the relation at every level for all vectors.',
 ['bulletproofs/bip.go','bulletproofs/util.go','bulletproofs/vector.go'],
 [('recursive folding','bulletproofs/bip.go computeBipRecursive'),('verification','bulletproofs/bip.go InnerProductProof.Verify')],
 ['the verdict of verification','shape of the argument'])
p('C06','Verification is repeatable and leaves its inputs unchanged',
 'Verifying a proof any number of times gives the same verdict every time. Proving and verifying change neither the values held by the proof, the public parameters and the secret, nor any package-level constant or generator.',
 ['inputs','histories'],'all proofs and parameters of all schemes, any sequence of calls',
 'Each test verifies once; operands shared through pointers are only observably corrupted by a later use.',
 ['bulletproofs/bp.go','bulletproofs/bip.go','bulletproofs/bprp.go','ccs08/ccs08.go'],
 [('range verifier','bulletproofs/bp.go BulletProof.Verify'),('inner product verifier','bulletproofs/bip.go InnerProductProof.Verify'),('set and range verifiers','ccs08/ccs08.go')],
 ['verdicts of repeated verification','values reachable from the arguments before and after'])
p('C07','Range setup accepts exactly the supported sizes and yields valid generators',
 'Setting up a range end succeeds exactly for 2^n with n in {1,2,4,8,16,32}; for every other 64-bit integer it returns an error and never panics. On success the bit length is n and the 2n+1 generators are valid, distinctly seeded, reproducible points of the group.',
 ['inputs'],'all int64 range ends',
 'The tests try a few range ends; negative values, non-powers and exponents that are not powers of two span 2^64 inputs.',
 ['bulletproofs/bp.go','bulletproofs/util.go'],
 [('setup','bulletproofs/bp.go Setup'),('power-of-two test','bulletproofs/util.go IsPowerOfTwo')],
 ['error and parameters returned by setup'])
p('C08','Set membership proofs are complete, and the verifier checks every equation',
 'For every set of integers, every member and every randomness, the membership proof is produced and accepted; for a non-member the prover returns an error. The verifier accepts only if the challenge equals the hash of the announcements and the commitment and both verification equations hold.',
 ['inputs'],'all sets, members and non-members, all random draws and keys, all well-formed proof objects (pairing bilinear)',
 'One test proves one member of one set; nothing exercises non-members or altered proofs.',
 ['ccs08/ccs08.go','util/util.go'],
 [('setup','ccs08/ccs08.go SetupSet'),('prover','ccs08/ccs08.go ProveSet'),('verifier','ccs08/ccs08.go VerifySet')],
 ['error of the prover','the verdict of verification'])
p('C09','CCS08 range proofs accept exactly the secrets inside the range',
 'A proof for [0, u^l) is accepted exactly when the committed integer is in that range, and a proof for [a, b) exactly when a <= secret < b; the verifier accepts only if the challenge equals the hash of the announcements and the commitment and all verification equations hold. Setup refuses a > b.',
 ['inputs','configurations'],'all bases u and digit counts l, all bounds, all integer secrets below half the group order in magnitude, all randomness, nonzero challenge',
 'One secret for one (u, l) and one secret for one interval are tested; digit counts and both shifts depend on all bounds.',
 ['ccs08/ccs08.go','util/util.go'],
 [('setup','ccs08/ccs08.go SetupUL'),('prover','ccs08/ccs08.go ProveUL'),('verifier','ccs08/ccs08.go VerifyUL'),('interval wrapper','ccs08/ccs08.go ccs08')],
 ['errors','the verdict of verification'])
p('C10','Boneh-Boyen signatures verify exactly for the signed message and key',
 'Key generation succeeds with a public key matching the private key. A signature verifies for the message and key it was made with, and for no message that differs modulo the group order; signing a message that has no signature under the key returns an error.',
 ['inputs'],'all private keys, messages and signatures, pairing assumed bilinear and non-degenerate',
 'One random key and message are signed and verified; rejection of other messages and the exceptional message are never tried.',
 ['crypto/bbsignatures/bb.go'],
 [('key generation','crypto/bbsignatures/bb.go Keygen'),('sign','crypto/bbsignatures/bb.go Sign'),('verify','crypto/bbsignatures/bb.go verify')],
 ['errors','the verdict of verification'])
p('C11','secp256k1 point operations obey the group law for all inputs',
 'Group operation, negation, doubling and scalar multiplication on secp256k1 points return the mathematically correct point for every pair of points, including infinity in either representation, equal and opposite points and a result that shares storage with an operand, and for every integer scalar (negative, zero, above the order). Plain addition is only promised for distinct points. Operands are not modified.',
 ['inputs'],'all curve points including infinity, all integer scalars, all aliasings of result and operands',
 'Tests use three fixed scalars; exceptional cases of the addition law have measure zero and are never sampled.',
 ['crypto/p256/p256.go','crypto/p256/mycurve.go','util/util.go'],
 [('wrapper','crypto/p256/p256.go'),('Jacobian addition','crypto/p256/mycurve.go'),('Pedersen commitment','util/util.go CommitG1')],
 ['coordinates of the returned point','coordinates of the operands'])
p('C12','Hash-to-group returns valid reproducible points',
 'Hashing any string to the group either reports an error or returns a point other than infinity that satisfies the secp256k1 equation. The x-coordinate is the SHA-256-derived candidate for the first counter value that lies on the curve, so equal strings give equal points and nobody learns a discrete logarithm.',
 ['inputs'],'all strings',
 'The test hashes one string and does not look at the point.',
 ['crypto/p256/p256.go'],
 [('try and increment','crypto/p256/p256.go MapToGroup'),('curve equation','crypto/p256/p256.go F'),('membership test','crypto/p256/p256.go IsOnCurve')],
 ['the returned point and error'])
p('C13','Modular vector and integer helpers compute their mathematical functions',
 'Vector addition, subtraction, multiplication, scaling, copying, powers, inner product, multi-exponentiation and point-wise group operation return, for vectors of any length, the component-wise or summed result reduced modulo the group order, report an error exactly on a length mismatch, and leave their operands unchanged. Modular exponentiation is correct for exponents of either sign, and modular inverse satisfies its defining equation.',
 ['inputs'],'all lengths, all integer entries including negative and unreduced ones, all points',
 'Tests use vectors of length at most 4 with small positive entries.',
 ['bulletproofs/vector.go','bulletproofs/util.go','bulletproofs/bip.go','util/bn/bn.go'],
 [('vector algebra','bulletproofs/vector.go'),('powers, products','bulletproofs/util.go'),('integer wrappers','util/bn/bn.go')],
 ['returned vectors, scalars and errors'])
p('C14','The pairing field tower implements field arithmetic',
 'In the degree 2, 6 and 12 extensions of the BN256 base field, every operation (add, subtract, multiply, square, invert, conjugate, negate, scale, Frobenius, exponentiate) returns the element defined by the tower i^2=-1, t^3=i+9, w^2=t for all operands, also when result and operands are the same object. Multiplication, squaring and inversion return reduced coefficients in the quadratic extension, and zero and one are recognised exactly on reduced elements.',
 ['inputs'],'all field elements with integer coefficients, nonzero for inversion, all aliasings of result and operands',
 'Tests multiply a few constants; a wrong cross term or an operand overwritten under one aliasing pattern shows only for particular inputs.',
 ['crypto/bn256/gfp2.go','crypto/bn256/gfp6.go','crypto/bn256/gfp12.go','crypto/bn256/constants.go'],
 [('quadratic extension','crypto/bn256/gfp2.go'),('sextic extension','crypto/bn256/gfp6.go'),('degree 12 extension','crypto/bn256/gfp12.go')],
 ['value of the result modulo p','values of the operands'])
p('C15','G1 and G2 operations obey the group law for all inputs',
 'Addition, negation, doubling and scalar multiplication in G1 and G2 return the mathematically correct point for all points, including infinity, equal and opposite points, any projective representation and a result that is one of the operands, and for every integer scalar including zero and negatives. Pedersen commitments in G2 equal g^x h^r, equal elements print and marshal identically, and operands keep their value.',
 ['inputs'],'all points in any projective representation, all integer scalars, all aliasings of result and operands',
 'Tests combine random distinct points and never add a point to itself in place or use structured representations.',
 ['crypto/bn256/curve.go','crypto/bn256/twist.go','crypto/bn256/bn256.go','util/util.go'],
 [('G1 formulas','crypto/bn256/curve.go'),('G2 formulas','crypto/bn256/twist.go'),('public wrappers','crypto/bn256/bn256.go'),('commitment','util/util.go Commit')],
 ['affine coordinates of results and operands'])
p('C16','Pairing building blocks and target-group arithmetic are exact',
 'In the target group, multiplication, inversion and exponentiation by any integer (negative too) are exact and touch only the result. The final exponentiation raises its argument to (p^12-1)/order, the line functions return the correct next point and the tangent or chord line through the operands, the loop constant encodes 6u+2, all Frobenius constants are the stated powers, pairing with infinity gives one, and the product check accepts exactly when the product of pairings is one.',
 ['inputs'],'all field elements and points; bilinearity of the resulting map is trusted mathematics',
 'Bilinearity is tested on random scalars of generators only, never with negated affine points or structured inputs.',
 ['crypto/bn256/optate.go','crypto/bn256/bn256.go','crypto/bn256/constants.go'],
 [('Miller loop','crypto/bn256/optate.go miller'),('line functions','crypto/bn256/optate.go'),('final exponentiation','crypto/bn256/optate.go finalExponentiation'),('target group','crypto/bn256/bn256.go GT')],
 ['pairing values','value of results and operands'])
p('C17','Group element encodings round-trip and off-curve encodings are rejected',
 'Marshalling any G1, G2 or GT element gives a fixed-length canonical encoding that depends only on the element; unmarshalling it yields an equal element, infinity included. Unmarshalling G1 or G2 from bytes of the wrong length or from coordinates that do not satisfy the curve equation fails.',
 ['inputs'],'all elements in all representations, all byte strings',
 'Tests round-trip one random element per group and never try malformed input.',
 ['crypto/bn256/bn256.go','crypto/bn256/curve.go','crypto/bn256/twist.go'],
 [('encoders and decoders','crypto/bn256/bn256.go Marshal, Unmarshal'),('normalisation','crypto/bn256/curve.go, twist.go MakeAffine')],
 ['encoded bytes','decoded element and ok flag'])
p('C18','Two\'s-complement byte conversion is exact and minimal',
 'Decoding a non-empty byte string yields the integer it denotes in big-endian two\'s complement, and an empty one is an error. Encoding an integer yields its shortest two\'s-complement representation, so decoding inverts encoding for every integer; inputs are not modified.',
 ['inputs'],'all integers of any size, all byte strings of any length',
 'Tests convert a dozen constants; sign-bit boundaries such as -2^(8k-1) occur once per length.',
 ['util/byteconversion/conversion.go'],
 [('decoder','util/byteconversion/conversion.go FromByteArray'),('encoder','util/byteconversion/conversion.go ToByteArray'),('complement','util/byteconversion/conversion.go FlipBytes')],
 ['returned integer, bytes and error'])
p('C19','Integer-list parsing accepts exactly well-formed input',
 'Parsing a comma-separated list returns, in order, one integer per field with the value its optional minus sign and decimal digits denote (an empty field counts as zero). Any other character, a misplaced sign or a sign without digits is reported as an error, and no integer list is returned then.',
 ['inputs'],'all byte strings',
 'Tests parse one list and a few single fields; field boundaries and invalid positions range over all strings.',
 ['util/byteconversion/parse.go'],
 [('list parser','util/byteconversion/parse.go ParseInput'),('field parser','util/byteconversion/parse.go ConvertToBigInt')],
 ['returned list and error'])
p('C20','Base-u decomposition returns the digits of its argument',
 'Decomposing an integer into l base-u digits returns exactly l digits, each in [0, u), whose weighted sum is the integer modulo u^l; for non-negative integers below u^l this recovers the integer itself. The argument is not modified.',
 ['inputs'],'all integers (negative ones too), all bases from 2 to 2^63-1, all digit counts',
 'One three-digit decimal example is tested.',
 ['util/util.go'],
 [('decomposition','util/util.go Decompose')],
 ['returned digits'])
p('C21','Recycled scratch numbers are never used by two owners',
 'The scratch-number pool hands out numbers that no live value uses: a number is recycled at most once per hand-out, is not read or written after it was recycled, and results and operands of curve, field and pairing operations never keep a recycled number. Results are the same with and without a pool.',
 ['inputs','histories'],'all inputs and all prior contents of the pool, every operation taking a pool',
 'A recycled number that is still referenced corrupts a value only when a later operation happens to reuse it.',
 ['crypto/bn256/bn256.go','crypto/bn256/gfp2.go','crypto/bn256/gfp6.go','crypto/bn256/gfp12.go','crypto/bn256/curve.go','crypto/bn256/twist.go','crypto/bn256/optate.go'],
 [('pool','crypto/bn256/bn256.go bnPool'),('users','crypto/bn256')],
 ['values of results and operands under reuse of one pool'],
 [('pool','free scratch numbers, each without any other owner')])
p('C22','Provers draw fresh full-range nonces and publish none of them',
 'Every blinding value and nonce of a Bulletproofs or CCS08 proof is a separate draw from the system\'s cryptographic random source, uniform over the whole scalar field, and each announcement and response is masked by its own draw. The proof object returned to the caller holds no nonce, blinding value or secret.',
 ['inputs'],'all secrets, parameters and outcomes of the random source',
 'Verification succeeds with reused, truncated or published nonces, so no functional test can notice.',
 ['bulletproofs/bp.go','ccs08/ccs08.go','crypto/bbsignatures/bb.go'],
 [('range prover','bulletproofs/bp.go Prove'),('set and range provers','ccs08/ccs08.go ProveSet, ProveUL'),('key generation','crypto/bbsignatures/bb.go Keygen')],
 ['random draws made','fields of the returned proof'])
p('C23','Concurrent use of shared constants and parameters is safe',
 'Proofs can be created and verified by several goroutines at the same time with shared public parameters and package constants, with the same verdicts as sequential execution.',
 ['schedules'],'all interleavings of concurrent prove and verify calls',
 'No test runs anything concurrently.',
 ['util/util.go','crypto/bn256/bn256.go','bulletproofs/bp.go'],
 [('shared constants','util/util.go G1, G2, E'),('normalisation in place','crypto/bn256/twist.go MakeAffine')],
 ['verdicts under concurrency'])
p('C24','Proofs are computationally sound and zero-knowledge',
 'No efficient adversary produces an accepted proof for a committed value outside the range or set, and an accepted proof reveals nothing about the secret beyond membership.',
 ['inputs','programs'],'all polynomial-time adversaries',
 'Tests cannot quantify over adversaries.',
 ['bulletproofs/bp.go','ccs08/ccs08.go'],
 [('protocols','bulletproofs, ccs08')],
 ['verdicts on adversarial proofs'])
p('C25','Proofs survive JSON encoding',
 'Encoding a Bulletproofs proof or generic range proof as JSON and decoding it again yields an equal proof with the same verdict.',
 ['inputs'],'all proofs',
 'Two tests round-trip one proof each.',
 ['bulletproofs/bp.go','bulletproofs/bprp.go'],
 [('exported proof structures','bulletproofs/bp.go BulletProof')],
 ['decoded proof'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in P))
