DEFAULT_NOTE = "proved for all words and all random draws; tensor shapes are fixed per case (elementwise and structural operators are shape-uniform)"
TECHS = {}
LEVEL = {}
NOTE.update({
 "C04": "proved for all words, splits and masks; 6 int100 cases bounded (sampled); local truncation outside wrap-around splits",
 "C05": "proved for all words, splits and masks; shapes fixed per case; invariants of every operation of the protocol",
 "C16": "proved for every stream word, seed and (8, 16, 64 bits) range; lengths enumerated; whole-operation rejection histories are the named ones, non-repetition of replacement words is proved for any number of them; trusts libsodium's stream and clang's IR",
 "C17": "proved for all element values and shift amounts; shapes, strides and starts enumerated; trusts clang's IR and the stand-in TensorFlow C++ API",
})
NA.update({
 "C21": "quantifies over arbitrary frozen GraphDefs: the converter is data-driven dispatch on protobufs to operations that C02-C10 and C20 put under contract; a contract of its own needs the semantics of TensorFlow's graph operators as ghost state, and anything less is running sample graphs",
})
