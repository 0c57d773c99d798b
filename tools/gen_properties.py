"""Writes /verif/properties.jsonl (kept as a script so that the long strings stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))
POND="tf_encrypted/protocol/pond/pond.py"; TRI="tf_encrypted/protocol/pond/triple_sources.py"
ABY="tf_encrypted/protocol/aby3/aby3.py"; ABYT="tf_encrypted/protocol/aby3/aby3_tensors.py"; FP="tf_encrypted/protocol/aby3/fp.py"
SNN="tf_encrypted/protocol/securenn/securenn.py"; ODD="tf_encrypted/protocol/securenn/odd_tensor.py"
T="tf_encrypted/tensor/"; PROTO="tf_encrypted/protocol/protocol.py"

prop("C01","Sharing a value and revealing it returns that value",
 "For every tensor that is shared as private data (as constant, variable, input or local computation of a party, arithmetic or boolean, in any protocol), revealing the shares returns exactly the encoded tensor, whatever random masks were drawn. Public values defined through the protocol decode to the value given, on every server.",
 ["inputs","configurations"],"all ring values, all mask draws, all shapes, each protocol (two-server additive, its comparison extension, three-server replicated), each share type and each supported ring size",
 "Tests sample a few small tensors and a few mask draws, and check only the decoded value within a tolerance.",
 [POND,ABY,SNN],[("_share/_reconstruct",POND),("_share_private,_reconstruct,define_*",ABY)],observe=["reveal().decode / to_native","unwrapped shares"])
prop("C02","Two-server linear and structural operations act on the secret",
 "For additive two-server sharing, addition, subtraction, negation, sums, cumulative sums, scaling by public values and every shape operation (transpose, reshape, slicing, stacking, concatenation, splitting, gathering, expanding, squeezing, padding, batch/space rearrangement), applied to any mix of public, private and masked operands, produce a tensor whose revealed value is exactly that operation applied to the operands' values in the ring. The result's scaling flag and shape describe the value it holds.",
 ["inputs","programs","configurations"],"all secrets, all shares of them, all mask draws, every operand-kind combination the dispatcher admits, all shapes (structural operations checked with every axis/permutation in a small family)",
 "The tests try one or two shapes per operation and mostly private/private operands; many dispatch targets are never executed.",
 [POND],[("dispatch to _add_*,_sub_*,... kernels",POND),("AbstractTensor ring operations",T+"factory.py")],observe=["reveal()","is_scaled","shape"])
prop("C03","Two-server products equal the product of the secrets",
 "For additive two-server sharing, multiplication, squaring, matrix multiplication and convolution of any mix of public, private and masked operands, before rescaling, reveal exactly the ring product of the operands' values for every triple the triple source can hand out. Reusing a masked operand or a cached mask in several operations never changes any of the results.",
 ["inputs","histories","configurations"],"all secrets, shares, triples and mask draws; every operand-kind combination; any order of operations sharing a masked operand; each triple source",
 "Correctness must hold for every mask draw and every reuse pattern; tests sample single products with tolerance 1e-2 or larger.",
 [POND,TRI],[("_mul_/_square_/_matmul_/_conv2d_ masked kernels",POND),("mul_triple,square_triple,matmul_triple,conv2d_triple",TRI)],observe=["reveal()"])
prop("C04","Two-server rescaling is accurate to the last fractional digit",
 "Rescaling a product in the two-server protocol yields a value within one unit of the last fractional digit of the exact quotient, for every product within the configured bound: always for interactive rescaling and, for the local variant, for every share pair except those whose probability the fixed-point bounds make negligible. Public values are rescaled to the exact floor quotient.",
 ["inputs","configurations"],"all values up to the configured precision bound, all share splits and masks, all shipped fixed-point configurations",
 "Errors appear only for particular share values (carry/wrap) that random tests almost never draw.",
 [POND,T+"fixed.py"],[("_truncate_public,_truncate_private_interactive,_truncate_private_noninteractive",POND),("FixedpointConfig bounds",T+"fixed.py")],observe=["reveal() of truncate"])
prop("C05","Three-server values stay consistently replicated",
 "After every operation of the three-server protocol, each pair of servers holds the same copy of the share they have in common, each share sits on the device of the server that owns it, and the result keeps the right share type, ring and scaling flag. Linear and structural operations (addition, subtraction, negation, public scaling, sums and every shape operation) reveal exactly that operation on the secrets no matter which two servers reconstruct.",
 ["inputs","programs","configurations"],"all secrets and share splits, arithmetic and boolean, public/private operand mixes, all shapes",
 "Tests reveal from one fixed pair of servers only, so a diverging replica or misplaced share is invisible to them.",
 [ABY,ABYT],[("replicated share pairs",ABYT),("_add_*,_sub_*,_negative_*,structural kernels",ABY)],observe=["unwrapped shares of all three servers","reveal()","device of each share"])
prop("C06","Three-server products equal the product of the secrets",
 "In the three-server protocol multiplication, squaring, matrix multiplication, convolution and multiplication of a bit by an arithmetic value reveal exactly the ring product of the secrets (before rescaling), for every pair of replicated inputs and every mask draw. The result is a fresh, consistent replicated sharing.",
 ["inputs","configurations"],"all secrets, share splits and zero-share masks; private/private, private/public and public/private operands; broadcasting shapes",
 "Tests sample a handful of masks and compare with tolerance, and reveal from a single pair of servers.",
 [ABY],[("_mul_*,_matmul_*,_conv2d_*,_square_*,_mul_AB",ABY),("_gen_zero_sharing",ABY)],observe=["reveal()"])
prop("C07","Three-server rescaling is accurate to the last fractional digit",
 "Every truncation method of the three-server protocol returns, for values inside its documented range, a consistent sharing of the value divided by the scaling factor with an error of at most one unit of the last digit (local truncation and the fused product: except for share splits that wrap around, whose probability the bound makes negligible). Public values are truncated to the exact floor quotient.",
 ["inputs","configurations"],"all values in range, all share splits and mask draws, every truncation method the configuration offers",
 "The failing cases are specific carries between shares that sampling misses.",
 [ABY],[("_truncate_*",ABY),("_lshift_private, _rshift_*",ABY)],observe=["reveal() of truncate"])
prop("C08","Boolean-share circuits compute the boolean function exactly",
 "On boolean-shared values, exclusive-or, and, or, not, shifts, rotation-free bit shuffles, carry computation and every adder variant reveal exactly the bitwise function of the secrets; converting between arithmetic and boolean sharing, extracting a bit and multiplying or selecting by a shared bit preserve the value exactly for every secret and every mask.",
 ["inputs","configurations"],"all bit patterns, all share splits, all mask draws, each adder/conversion variant and each supported width",
 "Carry chains fail only for particular bit patterns; tests use a few small positive numbers.",
 [ABY],[("_xor_*,_and_*,_or_*,_not_*,_lshift_*,_rshift_*,_logical_rshift_*",ABY),("_add_private_private boolean adders (ppa, kogge-stone, sklansky), carry",ABY),("_a2b_*,_b2a_*,_bit_extract_*,_mul_AB_*",ABY)],observe=["reveal()"])
prop("C09","Three-server comparisons, maxima, sorting and activations are exact",
 "Comparing, testing for zero or sign, taking the maximum or arg-maximum, selecting, sorting and the rectified-linear and max-pooling operations of the three-server protocol reveal the same result as on plaintext for every pair of in-range values, including ties, zero, negative numbers and the extremes of the range.",
 ["inputs","configurations"],"all in-range fixed-point values (difference representable), ties included; all axes of small tensors; each method variant",
 "Ties, extremes and unusual axes or lengths are not sampled by the tests.",
 [ABY],[("less,greater,equal_zero,bit_extract,relu,maximum,reduce_max,argmax,sort,maxpool2d",ABY)],observe=["reveal()"])
prop("C10","Two-server comparisons, activations and pooling are exact",
 "In the comparison extension of the two-server protocol, the bit-extraction, comparison, equality, sign, selection, rectified-linear, maximum, arg-maximum and max-pooling operations reveal the same result as on plaintext for every in-range value, every mask draw and every choice of which random bit blinds the result.",
 ["inputs","configurations"],"all in-range values and all blinding choices (bits, multiplicative masks, rotations); all axes of small tensors",
 "The protocol branches on secret random bits and modular wrap-around cases that random testing reaches with small probability.",
 [SNN,ODD],[("_private_compare,_share_convert,_lsb_private,msb,_relu,_maxpool2d,_argmax",SNN),("odd-modulus ring",ODD),("OddImplicit/prime factories",T+"native.py")],observe=["reveal()"])
prop("C11","Two-server servers learn nothing from what they receive",
 "During any two-server operation on private data, every value a compute server receives from another party, taken with everything it already holds, is statistically independent of the secrets (until reveal is requested). In particular no server ever holds both shares of a private value, and no mask protects two different values.",
 ["inputs","programs","histories"],"every private operation and operand-kind combination, all secrets, both compute servers, and programs that reuse masked operands",
 "Tests observe only outputs; a server that sees too much, or a mask reused, changes no output.",
 [POND,TRI],[("device placement of each share and message",POND),("fresh masks in _share, masks and triples",POND)],observe=["values read on each server's device"])
prop("C12","Three-server servers learn nothing from what they receive",
 "During any three-server operation on private data, every message a server receives is masked by randomness that server does not know and that protects nothing else, so its view is independent of the secrets until reveal is requested. Every pseudo-random mask derived from a pairwise key uses a (key, nonce) pair never used for another mask.",
 ["inputs","programs","histories"],"every private operation, all secrets, each of the three servers, any sequence of operations",
 "Reusing or omitting a mask leaves all revealed outputs right, so output-based tests cannot notice.",
 [ABY],[("_gen_zero_sharing, pairwise keys and nonces",ABY),("device placement",ABY)],state=[("pairwise_nonces","counters that make each mask fresh",ABY)],observe=["values read on each server's device","nonces consumed"])
prop("C13","The comparison extension masks everything it discloses",
 "In the comparison extension of the two-server protocol, what the third server receives during comparison is blinded by randomness shared only by the two compute servers, and what the compute servers receive back is freshly shared.",
 ["inputs","programs"],"all secrets, all three servers",
 "Output-based tests cannot observe a missing mask.",
 [SNN],[("_private_compare,_share_convert,_lsb_private",SNN)],observe=["values read on each server's device"])
prop("C14","Every tensor backend implements its ring exactly",
 "For every tensor backend (native 8/16/32/64-bit, native with a modulus, the residue-number 100-bit, the 128-bit, the boolean and the odd-modulus one) arithmetic, comparison, shifts, bit decomposition and recomposition, conversion to and from host integers, and structural operations agree with exact integer arithmetic modulo the backend's modulus for every representable element. Constants, zeros and ones hold the values they claim.",
 ["inputs","configurations"],"all ring elements, all backends, all shapes",
 "The ring has 2^8 to 2^128 elements and tests use a few small ones; wrap-around, sign and high-limb cases are not reached.",
 [T+"native.py",T+"int100.py",T+"int128.py",T+"boolfactory.py",ODD,T+"shared.py"],[("Tensor operators","tf_encrypted/tensor/*.py"),("tf_i128 kernels","operations/tf_i128")],observe=["to_native()","value"])
prop("C15","Fixed-point encoding and decoding are inverse within half a unit",
 "Encoding any representable real number and decoding it returns it with an error of at most one unit in the last fractional digit, integers (scaling off) exactly, in every protocol and for every shipped fixed-point configuration. Encoding agrees for host arrays and framework tensors, and the shipped configurations leave enough headroom for a product plus the rescaling bound.",
 ["inputs","configurations"],"all representable values of every configuration, host and framework inputs",
 "Tests encode a few small numbers with the default configuration.",
 [POND,ABY,T+"fixed.py"],[("_encode,_decode",POND),("_encode,_decode",ABY),("_validate_fixedpoint_config",T+"fixed.py")],observe=["decode(encode(x))"])
prop("C16","Secure random samplers are in range, unbiased and seed-determined",
 "The secure random operations return, for every shape, dtype and admissible range, values inside the half-open range that are an exactly uniform function of the underlying random stream, with no stream block used twice. The seeded form is a function of seed, shape, type and range only, and expands a different stream for every seed.",
 ["inputs","configurations"],"all ranges min<max, all dtypes, all lengths (also not a multiple of the block size), all streams",
 "Bias and block reuse are invisible to tests that check the bounds of a few draws.",
 ["operations/secure_random/secure_random.cc","operations/secure_random/generators.h","tf_encrypted/operations/secure_random/secure_random.py"],[("Generator/SeededGenerator, rejection sampling","operations/secure_random/generators.h"),("op dispatch","tf_encrypted/operations/secure_random/secure_random.py")],observe=["op outputs"])
prop("C17","Native bit and 128-bit kernels match their mathematical definition",
 "The native kernels for bit reversal, bit gathering, bit split-and-gather, index exclusive-or and for 128-bit addition, subtraction, multiplication, division, matrix product, shifts, comparison, logic and conversion compute exactly the documented function for every input of every supported width.",
 ["inputs","configurations"],"all 8- to 128-bit inputs, all strides and shift amounts, all shapes",
 "There are 2^64 or 2^128 inputs per element; tests use a handful.",
 ["operations/aux/aux_kernels.cc","operations/tf_i128/int128_kernels.cc"],[("kernel functors","operations/aux/*.cc"),("kernel functors","operations/tf_i128/*.cc")],observe=["op outputs"])
prop("C18","Results depend on the operands, not on what was computed before",
 "The value an operation returns is determined by its arguments, its protocol instance and the present contents of the variables it reads: evaluating it after any history of other operations gives the same revealed value as evaluating it first. In particular cached results are reused only for the same operation with the same arguments.",
 ["histories","inputs"],"all pairs and sequences of operations on shared operands, including variable updates in between and arguments that are no longer alive",
 "Tests evaluate mostly one operation per fresh operand.",
 [PROTO,POND,ABY],[("memoize / nodes cache",PROTO),("node_key caches",POND)],state=[("nodes cache","maps operation keys to results",PROTO)],observe=["reveal()"])
prop("C19","Variables, queues and traced functions carry secrets faithfully",
 "Assigning to a private or public variable and reading it returns the assigned value on every server; enqueuing then dequeuing returns the element in order with type and scaling preserved; a traced secure function returns the same value as calling it directly for every call.",
 ["inputs","histories"],"all values, all assign/read histories, all argument kinds",
 "Tests perform one assignment or one call.",
 [POND,ABY,"tf_encrypted/queue/fifo.py","tf_encrypted/protocol/protocol.py"],[("assign/read_value","protocol/*"),("AbstractFIFOQueue","tf_encrypted/queue/fifo.py"),("bones: factory.make/bone conversion",PROTO)],observe=["reveal()"])
prop("C20","Layers compute the documented function and its exact gradient",
 "For any weights and input, the forward pass of each trainable encrypted layer equals the plaintext layer up to fixed-point rounding, and its backward pass yields the exact derivative of that function with respect to input, kernel and bias; losses and optimizers apply the documented update.",
 ["inputs","configurations"],"all weights, inputs and upstream gradients; layer configurations within a small family of shapes",
 "Tests compare a few random samples, mostly forward, with loose tolerance.",
 ["tf_encrypted/keras/layers/dense.py","tf_encrypted/keras/layers/convolutional.py","tf_encrypted/keras/layers/pooling.py","tf_encrypted/keras/losses.py","tf_encrypted/keras/optimizers.py"],[("call/backward","tf_encrypted/keras/layers"),("grad","tf_encrypted/keras/losses.py"),("apply_gradients","tf_encrypted/keras/optimizers.py")],observe=["layer outputs and gradients"])
prop("C21","Converted graphs predict what the plaintext graph predicts",
 "Converting a supported plaintext inference graph and running it on private input yields the plaintext prediction up to fixed-point rounding.",
 ["programs","inputs"],"all graphs built from supported nodes","Tests convert one graph per node kind.",
 ["tf_encrypted/convert/convert.py","tf_encrypted/convert/nodes.py"],[("node converters","tf_encrypted/convert/nodes.py")],observe=["converted model output"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
