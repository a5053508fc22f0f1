import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=obs
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
TK="src/free_tensor/tensor_basis/tensor_key.rs"; TB="src/free_tensor/tensor_basis/mod.rs"; KI="src/free_tensor/tensor_basis/key_iterator.rs"
IM="src/implementation.rs"; DV="src/vector/implementation/simple_dense_vector.rs"; SV="src/vector/implementation/simple_sparse_vector.rs"
DE="src/free_tensor/implementation/dense.rs"; AL="src/algebra/mod.rs"; FT="src/free_tensor/mod.rs"; VT="src/vector/traits/vector.rs"
EX="src/vector/traits/extension.rs"; DR="src/vector/implementation/deref_impl.rs"; CF="src/coefficients/floating_point_fields.rs"; CM="src/coefficients/mod.rs"
DM="src/lie/lie_basis/degree_range_map.rs"; HK="src/lie/lie_basis/hall_key.rs"; HS="src/lie/lie_basis/hall_set.rs"
p("C01","A packed word gives back exactly the letters it was made from",
"For every alphabet size of at least one and every word of letters of that alphabet that is not longer than the advertised maximal length, the key built from the word (from a list of letters, from one letter, as the empty word, or by prepending letters one at a time) reports the word's length and, position by position counted from the last letter, the word's letters, and listing its letters gives all of them in that order; its letter iterator goes through them from the first to the last. Two keys compare equal exactly when they were made from the same word, however they were made. The maximal length is at least two for every alphabet, and the letters of a word of maximal length never run into each other or out of the 64 bits.",
["inputs","configurations"],"every alphabet size 1..=2^32-1, every word up to the maximal length, every way of building it",
"Tests build a few words over 2 to 5 letters; the bit layout differs for each of the 32 letter widths, and the interesting words are those of maximal length and with the largest letters.",
[TK,IM],[("from_letters / from_letter / push_front pack letters at fixed bit offsets",TK),("get_letter / to_letters mask and shift them out",TK),("const_logn, make_mask choose the bit layout",IM)],["TensorKey"],None,[("TensorKey{size,data}","length and packed letters",TK)])
p("C02","Concatenating keys concatenates their words",
"For any two words over the same alphabet whose joint length does not exceed the maximal length, the concatenation of their keys is the key of the first word followed by the second word, with the letters of both unchanged. The empty word is neutral on both sides, also next to a word that fills all 64 bits.",
["inputs","configurations"],"every alphabet size, every pair of words whose joint length is within the maximal length",
"Tests concatenate a handful of short words over small alphabets; shifts by the full width and words of maximal length are never reached.",
[TK,IM],[("concatenate shifts the left word past the right one",TK)],["TensorKey::concatenate"])
p("C03","Keys and indices are in bijection, in both directions",
"The index of a word is its position when all words are listed by length and then lexicographically, starting from 0 for the empty word. Going from a word to its index and back gives the word, and going from any index below the number of representable words to its word and back gives the index. Nothing overflows on the way, for every alphabet size and every word up to the maximal length.",
["inputs","configurations"],"every alphabet size, every word up to the maximal length, every index below the number of such words",
"Tests check indices of words of length at most 3 or so over 2 to 5 letters; there are up to 2^64 indices and 2^32 alphabets.",
[TB,TK,IM],[("key_to_index / index_to_key (bijective base-N numeration)",TB),("push_front_raw, from_letter, get_letter",TK)],["OrderedBasis::key_to_index","OrderedBasis::index_to_key"])
p("C04","Degrees partition the indices: starts, ranges, degrees and dimensions agree",
"The start of a degree d is the number of words shorter than d, for every d up to one more than the maximal length. The degree of an index is the length of the word with that index, so that an index has degree d exactly when it lies between the start of d and the start of d+1. The vector dimension for a word or for an index is the number of words that are no longer than it.",
["inputs","configurations"],"every alphabet size (including a single letter), every degree up to the maximal length, every index below the number of representable words",
"Tests check degrees 0 to 4 or so for 2 to 5 letters; closed formulas and recursions go wrong at one letter, at large degrees and at the boundaries of degrees.",
[TB,TK,IM],[("start_of_degree, degree_range, index_to_degree, vector_dimension_for_key, vector_dimension_for_index, degree",TB)],["OrderedBasis","OrderedBasisWithDegree","BasisWithDegree"])
p("C05","The order of keys is the order of their indices",
"Comparing two keys of the tensor basis gives the same result as comparing their indices: shorter words come first, words of the same length are in lexicographic order, and only equal words compare equal. It follows that the order is total, antisymmetric and transitive.",
["inputs","configurations"],"every alphabet size, every pair of words up to the maximal length",
"No test compares keys; an order that is right within a length and wrong across lengths, or for the largest letters, passes.",
[TB,TK],[("OrderedBasis::compare",TB)],["OrderedBasis::compare"])
p("C06","Iterating the basis visits every word once, in index order",
"The iterator over the tensor basis yields the empty word first, then each word's successor in index order, and ends after the last word of maximal length, so that every representable word appears exactly once at the position of its index. Started from a given word it yields that word and then all following ones. Once it has ended it stays ended.",
["inputs","configurations","histories"],"every alphabet size, every starting word, every number of steps",
"Tests step through the first few words of a small alphabet; carries over several letters, the change of length and the end of the iteration depend on the alphabet and position.",
[KI,TK],[("TensorBasisIterator::next (odometer with carry)",KI),("set_letter, push_front, get_letter",TK)],["OrderedBasis::iter_keys","TensorBasisIterator::starting_from"],None,[("current","the word to yield next, or none",KI)])
p("C07","Dense constructors place exactly the given coefficients",
"A dense vector made from one key has that key's coefficient equal to the given scalar (or one) and all others zero. Made from any finite sequence of key and scalar pairs, in any order and with repeats, each coefficient is the sum of the scalars given for its key, and zero where none was given; the empty sequence gives the zero vector.",
["inputs","configurations"],"every ordered basis that satisfies its contract and the tensor basis for every alphabet, every key, every finite sequence of pairs",
"Tests use a few sorted short lists; unsorted input, repeated keys, gaps and degree boundaries are not covered for all inputs.",
[DV,TB],[("from_key, from_key_scalar, from_iterator, new, from_dimension",DV),("vector_dimension_for_key / vector_dimension_for_index size the storage",TB)],["Vector::from_key","Vector::from_key_scalar","Vector::from_iterator","SimpleDenseVector::from_dimension"])
p("C08","Reading and writing one coefficient of a dense vector touches only that one",
"Looking up a key gives its coefficient, or nothing exactly when the vector does not store that many coefficients. Writing through a mutable lookup, inserting a value at a key, or erasing a key changes the coefficient of that key to the written value (zero for erase) and leaves the coefficient of every other key as it was, also when inserting beyond the end of the stored coefficients. Reading or writing a stretch of the stored coefficients by position (get_slice, get_mut_slice) touches exactly that stretch, and gives nothing exactly when it reaches outside.",
["inputs","histories"],"every vector, every stored length, every key and value, every sequence of such operations",
"Tests read and write a few keys of one vector and do not compare all other coefficients.",
[DV,"src/vector/traits/dense_vector.rs"],[("get, get_mut, insert_single, erase",DV),("get_slice, get_mut_slice","src/vector/traits/dense_vector.rs")],["Vector::get","Vector::get_mut","Vector::insert_single","Vector::erase","DenseVector::get_slice","DenseVector::get_mut_slice"])
p("C09","In-place dense arithmetic is coefficientwise, with missing coefficients zero",
"Negating, adding, subtracting, multiplying by a scalar and dividing by a rational in place changes every coefficient of a dense vector to exactly the result of the scalar operation on the operands' coefficients. Vectors of different stored lengths, including none, combine as if padded with zeros, no coefficient of either operand is lost, and the right operand is left unchanged.",
["inputs"],"all pairs of vectors of all stored lengths, all scalars",
"Tests combine two or three vectors of equal or nearly equal length; loss of a tail or a wrong operand order shows only for particular length combinations.",
[DV],[("uminus_inplace, add_inplace, sub_inplace, scalar_lmultiply_inplace, scalar_rdivide_inplace",DV),("resize pads with zeros",DV)],["Vector in-place operations on SimpleDenseVector"])
p("C10","Derived vector operations equal their definition by the in-place ones",
"For every vector type that provides the in-place operations, the operations that return a new vector (negation, sum, difference, left and right multiples and quotients) give what the in-place operation would give on a copy, without changing their operands. The fused operations add or subtract a left or right multiple or quotient of another vector to the receiver, that is self plus or minus (other times s) or (other divided by s), with the right sign and the right operand scaled.",
["inputs","programs"],"every vector type satisfying the contract of the required methods, all vectors and scalars",
"Tests call few of the sixteen derived operations, on one type, with one pair of operands each; swapped signs or operands in the others are invisible.",
[VT,DV],[("default methods of Vector",VT)],["Vector default methods"])
p("C11","Copying, resizing, swapping, clearing, comparing dense vectors keep content",
"Copying or cloning a dense vector gives one with the same coefficients and leaves the original as it was; swapping two exchanges their coefficients; clearing leaves the zero vector. Resizing keeps every coefficient below the new length and fills new places with zero. Two vectors compare equal exactly when they store the same coefficients at the same places, and the degree of a vector is the degree of its last stored coefficient (zero if it stores none).",
["inputs"],"all vectors of all stored lengths, all new lengths",
"Tests do not compare all coefficients after these operations for all lengths, nor vectors that differ in one place or in length only.",
[DV,TB],[("clone, to_owned, swap, clear, resize, eq, degree, size, as_slice, as_mut_slice",DV)],["SimpleDenseVector"])
p("C12","Adding a multiple of one key to a vector changes that key's coefficient only",
"Adding or subtracting a scalar, or the reciprocal of a rational, at one key of a vector changes the coefficient of that key by exactly that amount with that sign and leaves all others as they were. It does not matter whether the vector already stores a coefficient for the key.",
["inputs","programs"],"every vector type satisfying the contract of the required methods, every key, every scalar",
"Tests do not call these operations on keys that are not yet stored and do not look at all other coefficients.",
[EX,DV],[("VectorKeyExt default methods",EX),("get_mut / insert_single",DV)],["VectorKeyExt"])
p("C13","The tensor product is the truncated concatenation product",
"For all dense tensors over any alphabet and any truncation degree up to the maximal word length, the coefficient of a word w of at most the truncation degree in the product is the sum, over all ways to split w into u followed by v, of the left factor's coefficient of u times the right factor's coefficient of v; longer words get nothing. It does not matter how many coefficients the factors or the target store: none, a number that stops within a degree, or more than needed. The accumulating form adds this product to what the target held, and the factors are left unchanged.",
["inputs","configurations"],"every alphabet size, all stored lengths of the two factors and the target, all truncation degrees up to the maximal length",
"Tests multiply a few vectors of degree at most 2 over one alphabet; the block structure, truncation and ragged lengths have unboundedly many shapes.",
[DE,TB,DV,AL],[("multiply_and_add_into_impl loops over pairs of degrees",DE),("dense_tensor_multiply_into_buffer multiplies two homogeneous blocks",DE),("pad_to_degree",DE),("degree_range / start_of_degree locate the blocks",TB)],["Algebra::multiply","Algebra::add_mul"])
p("C14","Unchecked memory accesses stay within their buffers",
"No operation of the library reads or writes outside the coefficients stored by its operands, whatever their lengths, the alphabet, the keys and the truncation degree. This covers every place where the code indexes without a bounds check or walks a raw pointer: building a dense vector from a key or from pairs, and multiplying tensors.",
["inputs","configurations"],"every alphabet size, all stored lengths of operands and target, all keys, all pair sequences, all truncation degrees up to the maximal length",
"An out-of-bounds access of unchecked code usually does not fail a test, and tests use operands whose lengths are whole degrees.",
[DE,DV,TB],[("get_unchecked / get_unchecked_mut and the raw output pointer",DE),("get_unchecked_mut in from_key_scalar and from_iterator",DV)],["unsafe blocks"])
p("C15","Derived algebra operations equal their definition by the product",
"Multiplying in place gives the same tensor as the product; the accumulating forms add or subtract the product to or from the receiver; the commutator of a and b is ab - ba. The scaled forms multiply every term of the product by the scalar from the stated side, or divide it by the rational, before truncation at the requested degree. None of them changes its arguments.",
["inputs","configurations","programs"],"all tensors over all alphabets, all scalars and rationals, all truncation degrees up to the maximal length",
"Tests cover one or two of the nine operations with one pair of operands.",
[AL,DE],[("Algebra default methods",AL),("multiply_into_impl",DE)],["Algebra default methods"])
p("C16","exp, fmexp and log are the truncated power series",
"The exponential of a tensor is the sum of its powers divided by the factorials, up to and including the maximal degree of the tensor type. The fused exponential multiplies the receiver by the exponential of its argument without the constant term, and the logarithm is the alternating sum of the powers of its argument without the constant term divided by their exponents, each up to the maximal degree. Arguments are left unchanged.",
["inputs","configurations","programs"],"every implementor of the free tensor trait whose product is the truncated tensor product, every maximal degree, all tensors",
"Nothing in the repository implements or tests these functions; an off-by-one in a series or a wrong divisor shows in the top terms only.",
[FT,AL,DE],[("FreeTensor::exp, fmexp, log (Horner schemes)",FT)],["FreeTensor"])
p("C17","Sparse vector arithmetic is coefficientwise and leaves no cancelled entries",
"Negating, adding, subtracting, scaling and dividing a sparse vector in place gives each key exactly the scalar operation on the operands' coefficients, where keys that are not stored count as zero; keys stored in only one operand are kept. A key whose coefficient cancels to zero in a sum or difference is no longer stored, and multiplying by zero leaves no entries. The right operand is left unchanged.",
["inputs"],"all pairs of sparse vectors over all key types, all scalars",
"Tests add and subtract two small vectors; overlap, cancellation and one-sided keys in every combination are not covered.",
[SV],[("uminus_inplace, add_inplace, sub_inplace, scalar_lmultiply_inplace, scalar_rdivide_inplace",SV)],["Vector for SimpleSparseVector"])
p("C18","Floating point fields use the machine's operations, in place or not",
"For single and double precision numbers, negation, sum, difference, product, quotient and inverse are the IEEE operations on the operands in the stated order, the in-place forms store and return the same value as the others, and zero, one and minus one are 0, 1 and -1. A degree converts to the nearest number of that value, and a fraction is its numerator divided by its denominator.",
["inputs"],"all bit patterns of both operands, for both precisions, all degrees",
"Tests use a few values; a swapped operand or a wrong in-place operation in one of the two precisions is reached by few of them.",
[CF,CM],[("CoefficientField for f32 and f64",CF),("from_rational",CM)],["CoefficientField","FromDegreeType"])
p("C19","A vector wrapper behaves exactly like the vector it wraps",
"A type that dereferences to a vector and is made from one behaves as that vector: every construction, access, modification and arithmetic operation on the wrapper gives the wrapper of what the same operation gives on the vector inside, with the same operands in the same roles. Two dense tensors compare as the vectors inside do. Every such call returns; none runs into itself.",
["inputs","programs"],"every wrapper type and wrapped vector type, all operations and operands",
"Tests do not use the wrapper operations; there are thirty and each forwards on its own.",
[DR,DE],[("blanket implementation of Vector for types that dereference to a vector",DR),("Deref/DerefMut/From of the dense tensor",DE)],["Vector for wrappers such as DenseTensor"])
p("C20","Free Lie algebra dimensions follow Witt's formula",
"For an alphabet of at least one letter and every degree for which the numbers fit, the number of Hall basis elements of degree n is one n-th of the sum over the divisors d of n of the Moebius function of d times the (n/d)-th power of the number of letters, and the recorded cumulative size is the sum of these up to the degree, zero for degree zero.",
["inputs","configurations"],"every number of letters from 2 on, every degree for which the powers fit the machine integers",
"Tests check degrees 0 to 5 for 5 letters; the first squarefree composite degree is 6, and rounding errors show much later.",
[DM],[("mobius, is_squarefree, hall_set_level_size, hall_set_size",DM)],["DegreeRangeMap::get"],"re-export of the private Lie basis types")
p("C21","The degree range map answers size and degree queries consistently",
"A degree range map made for n degrees answers the cumulative size of each of the degrees 0 to n-1, and an error for others; growing it to a degree makes that degree and all below it available, changes no answer given before, and never shrinks it. The degree found for a key is the degree whose range of keys contains it: the first degree whose cumulative size is at least the key; a key beyond the last cumulative size, or an empty map, gives an error.",
["inputs","histories"],"every number of letters from 2 on, every sequence of growing and queries within the sizes that fit, every key",
"Tests only query one freshly made map below its size; growing and the search for a key's degree are not tested.",
[DM],[("DegreeRangeMap::new, grow, get, find_deg",DM)],["DegreeRangeMap"],"re-export of the private Lie basis types",[("DegreeRangeMap.0","cumulative sizes by degree",DM)])
p("C22","Hall keys give back the fields they were packed from",
"A Hall key packs index, left parent, right parent (18 bits each) and degree (10 bits) into one number; for all values within these widths, each field read from the key is the one it was made from. The key of a letter is valid, is a letter, has degree one, no left parent, itself as right parent, and the letter's position as index; the default key is not valid.",
["inputs","configurations"],"all field values within their bit widths, every alphabet, every letter",
"Hall keys have no tests; the fields share 64 bits.",
[HK,IM],[("make_key_data, get_key, get_lparent, get_rparent, size, from_letter, to_index",HK)],["HallKey"],"re-export of the private Lie basis types")
p("C23","Keys and dense vectors print as their letters, parents or terms",
"The debug and the display form of a tensor key are both its letters in the order in which it lists them, separated by a comma and a space, in round brackets. A Hall key of degree one displays as its number and every other Hall key as its left and its right parent, separated by a comma and a space, in square brackets; its debug form gives all four fields by name. A dense vector displays as its coefficients in the order of the basis, each followed directly by its key, with nothing in between. Formatting always ends.",
["inputs","configurations"],"every alphabet size, every word up to the maximal length, every Hall key and every dense vector",
"No test formats a key or a vector.",
[TK,HK],[("Debug::fmt and Display::fmt of TensorKey",TK),("Debug::fmt and Display::fmt of HallKey",HK),("Display::fmt of SimpleDenseVector",DV)],["Display","Debug"])
p("C24","All users of an alphabet share one Hall set, and getting it never blocks",
"Asking for the Hall set of an alphabet of one letter or more always returns, from any number of threads at once and however often it is asked for: a thread never waits for a lock that it holds itself. All calls for the same alphabet return handles of one and the same shared Hall set, whichever call came first, and that set is one for this alphabet.",
["schedules","histories"],"all interleavings of calls from any number of threads, for all alphabets",
"A deadlock or a lost race needs particular schedules, and nothing tests this function.",
[HS],[("get_hall_set with a read-write locked cache",HS),("HallSetObject::new, Clone",HS)],["get_hall_set"],"re-export of the private Lie basis types")
p("C25","A sparse vector stores exactly the entries it was given",
"A sparse vector made from one key, or from pairs with different keys, stores exactly those entries; looking up a key gives its scalar or nothing if it is not stored; inserting at a key or writing through a mutable lookup changes that entry only; clearing removes all. Going through the vector gives each stored entry once, with its key and its scalar. Two sparse vectors are equal exactly when they store the same keys with the same scalars, however they were built.",
["inputs","histories"],"all finite sets of entries over all key types, all orders of construction",
"Tests build two or three vectors; equality that ignores some keys or values shows only on particular pairs.",
[SV],[("new, from_key, from_key_scalar, from_iterator, get, get_mut, insert_single, clear, eq, into_iter",SV)],["SimpleSparseVector"])
p("C26","A Hall set answers letter, parent and degree queries from its tables",
"For every alphabet of n >= 1 letters: a key is a letter exactly when it is from 1 to n. The details of a key that the set holds are the key, its left and its right parent and its degree, the degree being the first whose cumulative size reaches the key; the details of its left and right parent are the details of that parent; for a key that the set does not hold all three are the error that the set is too small. The range of a degree is its own cumulative size and that of the next degree where both are tabulated (a new set tabulates the degrees below 30 for 2 letters, below 20 for 3 to 5, below 8 for 6 to 10, below 3 for 11 to 20 and below 2 for one letter and for more than 20), and otherwise the error that the set is too small. A new set holds the zero key alone; growing to a degree keeps what is there. A shared handle answers as the set behind it does, or with a read error once a writer that held its lock has panicked. No query panics.",
["inputs","configurations"],"every number of letters from 2 on, every key and degree, every set whose parents are in the set",
"Hall sets have no tests.",
[HS,DM],[("HallSet for HallSetInner: is_letter, key_details, lparent_details, rparent_details, degree_range",HS),("HallSet for HallSetObject: the same behind the lock",HS),("HallSetInner::new, get_parents, degree, grow_up, starting_size_for_width",HS)],["HallSet","get_hall_set"],"re-export of the private Lie basis types",[("HallSetInner.set","parents by key",HS),("HallSetInner.degrees","cumulative sizes by degree",DM)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
