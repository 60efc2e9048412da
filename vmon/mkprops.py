import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['hwtypes/'+f for f in files],mechanism=[dict(name=n,where='hwtypes/'+w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where='hwtypes/'+c) for a,b,c in state]
    P.append(d)

p('C01','Concrete bit-vector arithmetic, logic and shifts are exact modulo 2^n',
 'For every width n >= 1 and all operands, the methods and infix operators for and/or/xor (and their negated forms), not, negation, add, sub, mul, shifts and unsigned and signed division and remainder on a concrete bit vector return a new vector of the left operand\'s type whose unsigned value is the mathematical result reduced modulo 2^n, and leave the operands unchanged. Shift amounts are read as unsigned and may be any size (amounts >= n give 0, or the sign fill for the arithmetic shift); unsigned division by zero gives all ones and any remainder by zero gives the dividend; signed division rounds down, the signed remainder takes the divisor\'s sign, and signed division by zero gives all ones; for n = 0 every result is the empty vector. On signed vectors the infix >>, // and % are the signed operations, on all others the unsigned ones.',
 ['inputs','programs'],'All widths, all operand values, all three vector kinds and user subclasses of them; whole programs built from the operators.',
 'The tests draw a handful of random values for a few widths <= 32 (the operator tests run 10 to 256 random samples per operator) and never reach wide vectors, huge shift amounts, INT_MIN / -1, or value mixes of real programs.',
 ['bit_vector.py','bit_vector_abc.py'],[('operand cast then int arithmetic masked by the constructor','bit_vector.py BitVector.bv*'),('signed overrides of >>, //, %','bit_vector.py SIntVector')],
 ['result of every operator call: type, width, as_uint()'])
p('C02','Comparisons, signed/unsigned readings and single-bit logic are exact',
 'For every width n >= 1 the unsigned and signed comparison methods of concrete bit vectors return a Bit equal to the comparison of the operands\' unsigned, respectively two\'s complement, readings, and the infix comparisons use the signed reading exactly on signed vectors. The signed and unsigned readings, int(), truth value, bit list and binary string of a vector all denote the same n-bit pattern (int() is signed exactly on signed vectors). The vector of width 0 reads as 0. Bit\'s ~, &, |, ^, == and != are the Boolean functions, also with bools and 0/1 on either side.',
 ['inputs'],'All widths, values and operand kinds (vector, int, bool, Bit).',
 'Tests sample few random values and widths; signed/unsigned confusion shows only when exactly one operand has its top bit set, or at the extremes.',
 ['bit_vector.py','bit_vector_abc.py'],[('bvult..bvsge and derived forms','bit_vector.py, bit_vector_abc.py'),('as_uint/as_sint/bits/binary_string','bit_vector.py')],['Bit returned by each comparison','int(v), v.as_sint(), v.bits()'])
p('C03','Slicing, concatenation, extension, repetition and rotation permute bits exactly',
 'With bit 0 the least significant bit, v[i] (negative i counts from the end) is bit i and out-of-range i raises IndexError; v[i:j:k] has exactly the bits Python slicing selects from the bit list, in that order and of that width. a.concat(b) has a\'s bits below b\'s, zext/sext/ext(k) add k >= 0 copies of 0, of the top bit, or of the one that fits the vector\'s signedness, repeat(k) is k copies, and bvrol/bvror rotate by the amount modulo the width. The result has the matching width in the operand\'s unsized kind (rotations and extensions included).',
 ['inputs'],'All widths, values, indices, slices with any start/stop/step, extension and repetition counts.',
 'Tests check slices for a few small widths and rotations by random small amounts; negative/out-of-range/stepped slices, zero extension counts and amounts beyond the width are not reached.',
 ['bit_vector.py'],[('__getitem__, concat, repeat, zext, sext, bvrol, bvror','bit_vector.py')],['type, size and bits of the result'])
p('C04','Construction reduces any accepted value into range, and readings round-trip',
 'A vector of width n built from an int, Bit, bool, bit sequence (least significant bit first), another vector, or an int-like object holds that value modulo 2^n, and its unsigned reading always lies in [0, 2^n), its signed reading in [-2^(n-1), 2^(n-1)). Rebuilding a vector of the same type from its int(), signed or unsigned reading, bit list or itself gives an equal vector; make_constant gives the same as the constructor of the requested width; an unsized constructor picks the width of its argument. A value that is not convertible raises TypeError and a Bit is only built from 0, 1, bools, Bits or objects with a truth value.',
 ['inputs'],'All widths and argument values of every accepted kind, including negative and oversized ones.',
 'Tests build from small non-negative ints; oversized, negative, sequence and cross-width construction are barely sampled.',
 ['bit_vector.py','bit_vector_abc.py'],[('__init__ masking','bit_vector.py BitVector.__init__'),('implicit sizing','bit_vector_abc.py AbstractBitVectorMeta.__call__')],['as_uint() of every object created by any route'])
p('C05','Operators coerce plain operands like constants, and never mix widths silently',
 'For every binary operator on concrete bit vectors, an int, bool or bit list on either side (or a Bit on the right) behaves exactly like the vector of the other operand\'s type built from it, with the operand order preserved (so 200 >> v, 7 - v and 7 // v are computed in that order). Combining vectors of different widths by any operator or named operation (or a carry wider than a bit) raises InconsistentSizeError, and an operand that cannot be converted raises TypeError (or compares unequal for ==), never a result; a Bit takes the integers 0 and 1 and raises ValueError for every other, == included.',
 ['inputs'],'All operators, both operand orders, all operand kinds, all width pairs.',
 'Tests try reflected operators only for some operators with commutative or symmetric values, and size errors for one width pair.',
 ['bit_vector.py'],[('_coerce/bv_cast','bit_vector.py'),('dispatch_oper/dispatch_roper','bit_vector.py'),('InconsistentSizeError','bit_vector_abc.py')],['value, type or exception of each mixed-operand expression'])
p('C06','Writing a bit changes exactly that bit of exactly that vector',
 'After any history of index assignments, copies, arithmetic and slicing over a set of concrete vectors, each vector reads as the same bits as a plain list of bits that underwent the same writes: a write changes one bit of one vector and nothing else, and no result of an operation shares state with its operands. A rejected write (index out of range, slice index, value other than 0/1/bool/Bit) raises and changes nothing. Vectors of one type that are equal have equal hashes at every point of the history.',
 ['histories'],'All histories of writes, copies and operations over live vectors, with aliases.',
 'Tests perform single writes on fresh vectors; sharing between operands and results shows only when an operand or result is written later.',
 ['bit_vector.py'],[('__setitem__','bit_vector.py'),('operations build new objects','bit_vector.py')],['all live vectors after each step'],state=[('value of a vector','the mutable bit pattern','bit_vector.py BitVector')])
p('C07','Add-with-carry and overflow detection are exact, and compose into wide adders',
 'For every width n, a.adc(b, c) returns (a+b+c mod 2^n, carry out) for all a, b and carry c, with a result of a\'s width in its unsized kind and a Bit carry; chaining adc over the limbs of wide numbers equals wide addition. overflow(a, b, a+b) is 1 exactly when the signed sum does not fit n bits.',
 ['inputs','programs'],'All widths, operands, carries and limb counts.',
 'Tests sample random a, b, c at one or a few widths; long carry ripples and the four sign combinations at the extremes are rare at random.',
 ['bit_vector.py'],[('adc','bit_vector.py BitVector.adc'),('overflow','bit_vector.py')],['tuple returned by adc','Bit returned by overflow'])
p('C08','ITE selects exactly one branch, through tuples and protocol objects',
 'Bit.ite(t, f) has the value of t when the bit is 1 and of f when it is 0, in the common type when both branches have one type; a vector\'s ite selects t exactly when the vector is non-zero. Tuples of equal shape are selected element-wise to any depth, and objects following the bit-vector protocol come back as that class built from the selected vector. Branches of different shapes, different widths, or non-hardware types raise TypeError.',
 ['inputs'],'All select values, branch types, tuple shapes and nestings.',
 'Tests use a few fixed shapes; a mistake in one position of a nested or protocol branch, or in one pairing of types, is not sampled.',
 ['bit_vector_util.py','bit_vector.py'],[('determine_return_type/push_ite/coerce_branch','bit_vector_util.py')],['type and value of the ite result'])
p('C09','A value of mixed type from ITE behaves as the branch that was selected',
 'When ITE joins two vectors of the same width but different kinds (for example signed and unsigned, or user subclasses), every later operator, comparison, extension and reading of the result gives the value the selected branch\'s own kind would give (text and int() displays excepted), and the result is an instance of exactly the kinds common to both. Results of operations on it keep this behaviour, to any depth of nesting.',
 ['programs','inputs'],'All pairs of kinds, select values, operators and chains of them.',
 'Tests exercise a few operators on one pair of kinds; each operator dispatches separately and the wrong dispatch shows only for values on which the kinds differ.',
 ['bit_vector_util.py'],[('PolyVector/PolyBit/build_VCall','bit_vector_util.py')],['value of each operation on the mixed result'])
p('T01','A sized type is unique per kind and parameters, with a consistent hierarchy',
 'Indexing a vector kind with width n (or a floating-point kind with its four parameters) always gives the same type while that type is alive, with the requested parameters, a name stating them, and the kind it came from as its unsized/unbound type; kinds and user subclasses are related as sized types exactly as the unsized ones are when the parameters agree, and unrelated when they differ. Invalid parameters, re-indexing a sized type, or inheriting from two different sizes raise, whatever types were created or collected before.',
 ['histories','configurations'],'All kinds, user class hierarchies, parameters, and orders of creation, deletion and garbage collection.',
 'Tests check a few types created once in one order; cache and hierarchy mistakes depend on the creation history and on user hierarchies.',
 ['bit_vector_abc.py','fp_vector_abc.py'],[('AbstractBitVectorMeta.__getitem__/__new__ and its cache','bit_vector_abc.py'),('AbstractFPVectorMeta.__getitem__/__new__','fp_vector_abc.py')],['identity, size, name, bases of types'],state=[('class caches','weak maps from kind and parameters to type','bit_vector_abc.py, fp_vector_abc.py')])

p('S01','The SMT backend computes the same function as the concrete types',
 'For every program over bits and vectors (arithmetic, logic, shifts, rotations, comparisons, slices, concatenation, extension, repetition, add-with-carry, reflected and mixed constant operands) run on symbolic SMT vectors, the resulting formula evaluated under any assignment of its variables equals the result of the same program run on concrete vectors with those values, with the corresponding type and width. On constants the result is already that constant. Operands of different widths (InconsistentSizeError), an operand that is no number, bit or bit sequence (TypeError), an index out of range (IndexError) and a negative extension (ValueError) are rejected, as concretely.',
 ['programs','inputs'],'All programs, widths, assignments; symbolic, constant and mixed operands.',
 'Tests compare single operators on random constants of one width; slices, rotations, extensions, symbolic (not constant-folded) operands and compositions are not compared.',
 ['smt_bit_vector.py'],[('each bv* builds the SMT-LIB term','smt_bit_vector.py SMTBitVector'),('signed overrides','smt_bit_vector.py SMTSIntVector')],['.value term evaluated under assignments; type and size of results'])
p('S02','The z3 backend computes the same function as the concrete types',
 'For every program over bits and vectors run on z3-backed symbolic vectors, the resulting z3 term evaluated under any assignment equals the result of the same program on concrete vectors, with the corresponding type and width. Operands of different widths (TypeError), an operand that is no number, bit or bit sequence (TypeError), an index out of range (IndexError) and a negative extension (ValueError) are rejected, as concretely.',
 ['programs','inputs'],'All programs over the operations the backend offers, widths and assignments.',
 'Tests compare single operators on random constants only.',
 ['z3_bit_vector.py'],[('each bv* builds the z3 term','z3_bit_vector.py z3BitVector')],['.value term evaluated under assignments'])
p('S03','Substitution is simultaneous and changes only the named variables',
 'For every SMT bit or vector e and list of (variable, replacement) pairs, e.substitute(pairs) evaluated under an assignment equals e evaluated under that assignment with each listed variable taking its replacement\'s value, all replacements being read in the original assignment (so swaps work); the width is kept, e itself is unchanged, and an empty list changes nothing.',
 ['inputs','programs'],'All expressions, pair lists (including swaps, cycles and replacements mentioning replaced variables) and assignments.',
 'Tests substitute into one or two fixed expressions.',
 ['smt_bit_vector.py'],[('substitute','smt_bit_vector.py')],['evaluation of the substituted term'])
p('S04','Symbolic variables never alias by accident',
 'A symbolic bit, vector, integer or float created without an explicit name is a variable different from every other variable alive, whatever names and prefixes were used before; an explicit name is used as given and raises ValueError while another live variable of that backend holds it, and may be used again for the same type once that one is gone. Naming a constant, giving both a name and a prefix, or a non-string name raises.',
 ['histories'],'All histories of creating named, prefixed and automatic variables of all kinds, interleaved with deletion and garbage collection.',
 'Tests create a few variables with distinct names in one order.',
 ['smt_bit_vector.py','z3_bit_vector.py','smt_int.py','smt_fp_vector.py'],[('_gen_name and name tables','smt_bit_vector.py, z3_bit_vector.py')],['underlying symbol of each live variable'],state=[('name tables and counters','names in use','smt_bit_vector.py, z3_bit_vector.py')])
p('S05','Symbolic ITE and symbolic bit writes agree with the concrete ones',
 'For every symbolic select, ite over SMT bits, vectors, tuples, protocol objects and mixed kinds evaluates, under every assignment, to what concrete ite gives for the assigned select, including later operators on mixed kinds; z3 ite selects likewise between bits or vectors of one type (a plain integer branch of the other\'s type). Writing a (symbolic) bit at an index of a symbolic vector changes that bit only, for every assignment, and leaves expressions built earlier from the vector unchanged.',
 ['programs','inputs','histories'],'All selects, branch shapes and kinds, indices, values and write histories.',
 'Tests only check shapes and types of a few ites, and do not evaluate symbolic writes.',
 ['smt_bit_vector.py','z3_bit_vector.py','bit_vector_util.py'],[('ite/build_ite/PolyVector','bit_vector_util.py, smt_bit_vector.py'),('__setitem__','smt_bit_vector.py, z3_bit_vector.py')],['evaluation of the result terms'])
p('S06','Symbolic integers follow Python integer arithmetic and vector readings',
 'Every SMTInt expression (+, -, *, // by a non-zero divisor, negation, comparisons, with ints on either side) evaluates under any assignment to what Python\'s int operators give, and an operand that is no number raises TypeError (or compares unequal). The unsigned and signed integer readings of a symbolic vector evaluate to the concrete vector\'s unsigned and signed readings for every width >= 1 and value.',
 ['inputs','programs'],'All expressions, widths and assignments, negative divisors included.',
 'Tests ask a solver for one model per operator and do not evaluate readings over all values or widths.',
 ['smt_int.py','smt_bit_vector.py'],[('SMTInt operators','smt_int.py'),('as_uint/as_sint','smt_bit_vector.py')],['evaluation of the terms'])
p('S07','Formula constructors denote their Boolean meaning',
 'For every nesting of And, Or and Implies over SMT bits, including empty And/Or, the bit produced from it evaluates under every assignment to the conjunction (empty: true), disjunction (empty: false) or implication of the evaluated parts; building it does not alter the parts, and later changes to the list passed in do not alter the formula. Its printed form contains every leaf in order; a member that is neither a bit nor a formula raises ValueError.',
 ['programs','inputs'],'All nestings, leaf sets and assignments.',
 'Tests check one or two fixed formulas.',
 ['smt_utils.py'],[('And/Or/Implies.to_hwtypes','smt_utils.py')],['evaluation of to_hwtypes()','serialize() text'])
p('S08','SMT floats are congruent uninterpreted functions with the right shapes',
 'On symbolic floats, every operation is an uninterpreted function applied to exactly its operands in order: different operations, formats and conversion widths give different functions, the same operation on the same operands gives the same term, and vectors reinterpreted as floats and back are unchanged. Results are floats of the same type, bits for predicates and comparisons (with > and >= as their own functions and != the negation of ==), and vectors of the requested width for conversions.',
 ['inputs','configurations'],'All operations, formats (user subclasses included) and operand terms.',
 'Tests only check that some operations can be called.',
 ['smt_fp_vector.py'],[('_SIGS and the function table','smt_fp_vector.py')],['the terms returned'])
p('S09','Symbolic values are never silently turned into concrete ones',
 'Asking for the truth value of a symbolic bit, vector, integer or float raises TypeError, in both backends, and so does building a concrete Bit or vector from a symbolic one. An operator between a concrete and a symbolic operand either gives the symbolic result that treats the concrete one as a constant (for every assignment) or raises TypeError; branches or selects from different families in ite never give a value mixing families.',
 ['inputs','configurations'],'All operators, operand orders and pairs of backends and kinds.',
 'Tests check bool() of one type; a silent truth value shows only in the mixed uses tests do not write.',
 ['smt_bit_vector.py','z3_bit_vector.py','bit_vector.py','bit_vector_util.py'],[('__bool__ guards','smt_bit_vector.py, z3_bit_vector.py'),('family checks','bit_vector_util.py')],['exception or term of each mixed expression'])

p('F01','Floating-point operations are correctly rounded in the type\'s format and mode',
 'For every format and rounding mode, add, sub, mul, div, fused multiply-add, square root, remainder and rounding to integral on FP values return the exact real result rounded once to the format in that mode, with IEEE 754 treatment of subnormals, overflow, signed zeros, infinities and NaN; negation and absolute value only change the sign. min and max return the smaller and larger operand (-0 below +0; a NaN operand gives the other one).',
 ['inputs','configurations'],'All formats (exponent and mantissa sizes), modes, compliance settings and operands, including subnormals, ties, overflow borders and special values.',
 'Tests compare with a handful of float/double results in one mode; double rounding, subnormal, directed-mode and odd-format behaviour is not sampled.',
 ['fp_vector.py'],[('per-type gmpy2 context','fp_vector.py __init_subclass__'),('set_context around each operation','fp_vector.py')],['bit pattern of every result'])
p('F02','FP values and bit patterns correspond one to one',
 'For every format, reinterpreting any bit pattern as a float and back gives the same pattern (NaN patterns give some NaN pattern; without IEEE compliance subnormals become zero of the same sign and NaNs infinity), and the float has exactly the value IEEE 754 assigns to the pattern. Reinterpreting a float gives sign, exponent and mantissa fields of the declared sizes, and a vector of any other width raises.',
 ['inputs','configurations'],'All formats and all bit patterns.',
 'Tests cover random patterns of a few standard formats; small or odd formats and boundary patterns are not enumerated.',
 ['fp_vector.py'],[('reinterpret_as_bv/reinterpret_from_bv','fp_vector.py')],['bits in, bits out, decoded value'])
p('F03','FP classification and comparison agree with the value',
 'For every value of every format exactly one of NaN, infinite, zero, subnormal and normal holds and is the one its pattern implies, and negative/positive hold exactly for values below/above zero. ==, <, <=, >, >= compare as reals extended with infinities, with -0 equal to +0 and every comparison with NaN false, and != is the negation of ==; the named comparisons agree with the infix ones.',
 ['inputs','configurations'],'All formats and all pairs of values.',
 'Tests compare a few ordinary doubles.',
 ['fp_vector.py'],[('fp_is_*, fp_lt..fp_eq','fp_vector.py')],['Bits returned'])
p('F04','FP results do not depend on or disturb the surrounding numeric context',
 'The result of every FP construction, operation, conversion and comparison depends only on the types and operands, not on the caller\'s gmpy2 context (precision, rounding, exponent range, traps), on other formats used before or in between, or on other threads. After every call, including calls that raise, the caller\'s context is what it was before.',
 ['schedules','histories','configurations'],'All ambient contexts, interleavings of formats, raising calls, and threads.',
 'Tests run single-threaded under the default context, where leaked or missing contexts are invisible.',
 ['fp_vector.py'],[('set_context with a local gmpy2 context','fp_vector.py')],['result bits and ambient context before/after each call'],state=[('gmpy2 thread context','ambient precision, rounding, range, traps','fp_vector.py _ctx_')])
p('F05','Conversions between FP and numbers are correctly rounded',
 'Building an FP value from an int, float, rational, decimal or fraction string, int-like object or FP value of another format gives that number rounded once to the format in its mode. Converting to a signed or unsigned vector of width n gives the value rounded to an integer in the type\'s mode, modulo 2^n, and raises on infinities and NaN; float() of a value whose format fits a double is exact; operators with plain numbers behave as if these were converted first.',
 ['inputs','configurations'],'All formats, modes, source kinds and values, target widths.',
 'Tests convert small exact values.',
 ['fp_vector.py'],[('FPVector.__init__','fp_vector.py'),('to_ubv/to_sbv/__float__','fp_vector.py')],['bit pattern or integer obtained'])
p('F06','Formats without IEEE compliance never produce NaN or subnormals',
 'In a format declared without IEEE compliance, no construction, reinterpretation, operation, or chain of operations ever yields a NaN or a subnormal: results too small become zero or the smallest normal as the mode rounds, and invalid operations give an infinity.',
 ['histories','inputs','configurations'],'All formats, modes and chains of operations.',
 'Tests do not chain operations in such formats.',
 ['fp_vector.py'],[('NaN replacement in __init__','fp_vector.py'),('emin without subnormalize','fp_vector.py __init_subclass__')],['class and bits of every value produced'])
p('F07','Random generators produce every value in range and nothing else',
 'Bit.random, the vectors\' random(width) and FPVector.random only return well-formed values of the requested type (FP: never NaN, zero or subnormal, and never infinite when infinities are disallowed), every bit of the value varies over draws, both extremes of small ranges are reached, and a fixed random seed reproduces the sequence.',
 ['histories','inputs'],'All widths and formats, long draw sequences and seeds.',
 'Tests use the generators but never examine what they return.',
 ['bit_vector.py','fp_vector.py'],[('random','bit_vector.py, fp_vector.py')],['draw sequences'])

p('A01','Product and tuple values hold independent, typed, comparable fields',
 'After any history of constructing (positionally, by keyword, or from types), field reads and field writes (by index or name) over Tuple, AnonymousProduct and Product values, every field of every value reads as in a plain record that underwent the same writes; other values are unaffected. Two values of one type are equal exactly when their fields are, != is the negation, and equal values (with fields of equal classes; also values of a type and of one derived from it) have equal hashes at every point, before and after writes.',
 ['histories','inputs'],'All product types (nested included), values and histories.',
 'Tests construct and read each type once and compare fresh values only.',
 ['adt.py','adt_meta.py'],[('Tuple.__init__/__setitem__/__eq__/__hash__','adt.py'),('generated constructors and properties','adt_meta.py AnonymousProductMeta')],['fields, ==, hash of all live values after each step'])
p('A02','Sum and tagged-union values remember exactly the last alternative set',
 'After any history of construction and assignment, a Sum value matches exactly the alternative last set and a TaggedUnion exactly the tag last set (even when several tags share a type), and the matched value is the one set. Equality holds exactly when alternative/tag and value agree, != is its negation and equal values (of equal classes) have equal hashes; reading an alternative the type lacks raises.',
 ['histories','inputs'],'All sum types, tagged unions (tags of equal type included), values and histories.',
 'Tests set one alternative of fixed types.',
 ['adt.py','adt_meta.py'],[('Sum/TaggedUnion accessors','adt.py'),('tag properties','adt_meta.py TaggedUnionMeta')],['match/value of all alternatives after each step'])
p('A03','ADT values never hold ill-typed contents, and failed updates change nothing',
 'Constructing an ADT value with a wrong number of fields, a wrong field name or tag, or a value whose type does not fit raises, as does assigning such a value by any route (index, attribute, type, or dictionary), and the value then compares equal to what it was before. At every point of every history each field of every value is an instance of its declared type.',
 ['histories','fault_sequences'],'All ADT types, all ill-typed values and all update routes, interleaved with valid updates.',
 'Tests check a few rejected constructions and never that a rejected update left the value intact.',
 ['adt.py','adt_meta.py','util.py'],[('isinstance checks','adt.py'),('TypedProperty','util.py')],['exception and value before/after each invalid update'])
p('A04','Enumerating a finite ADT yields every value exactly once',
 'For every type built from enums by Tuple, AnonymousProduct, Product, Sum and TaggedUnion (nested to any depth), enumeration yields well-typed instances, each value of the type exactly once, and as many as the product, respectively sum, of the parts\' counts; enumerating again gives the same set.',
 ['configurations'],'All enum-based ADT types.',
 'Tests enumerate a few fixed types.',
 ['adt_meta.py'],[('enumerate','adt_meta.py')],['multiset of enumerated values'])
p('A05','ADT types are identified by their definition, independent of history',
 'Binding a generic ADT with the same fields gives the same type while it is alive, and with different fields (or, where order matters, a different order) a different one; class-style definitions with the same name, bases and members give the same type when caching is on, a different type when any field, member or special method differs, and a fresh type when caching is off. A type reports exactly its declared fields (in a class body the types, or ints for Enum, that are not named like _x_ or __x__), names and unbound type, nested types report theirs, subclassing keeps them, generics are related bound alike exactly as they are unbound, binding a bound type raises, and reserved names are rejected.',
 ['histories','configurations'],'All definitions, orders of definition, deletions and collections.',
 'Tests compare a few types defined once.',
 ['adt_meta.py'],[('BoundMeta/_AttrSyntax caches','adt_meta.py'),('reserved names','adt_meta.py')],['identity, fields, field_dict, unbound_t of types'],state=[('class caches','weak maps from definition to type','adt_meta.py')])
p('A06','Rebinding a type replaces exactly the requested leaves and keeps the shape',
 'Rebinding type A to B in an ADT type (recursively or at the top level, exactly or including subtypes) gives the type with the same shape and field names in which precisely the matching field types are replaced; rebinding bit vectors keeps each width and, when asked, modifiers; rebinding to a family replaces all vectors and bits by that family\'s. The original type is unchanged and a rebind that matches nothing gives the same type.',
 ['configurations'],'All ADT types (nested, modified), source and target types and options.',
 'Tests rebind a few fixed types.',
 ['adt_meta.py','adt_util.py'],[('rebind','adt_meta.py'),('rebind_bitvector, rebind_keep_modifiers, rebind_type','adt_util.py')],['field structure of the rebound type'])
p('A07','Type modifiers wrap and unwrap losslessly',
 'Applying a modifier to a type gives, while alive, one and the same type, a subtype of the original and an instance of the modifier; unwrapping a stack of modifiers gives the original type and the modifiers in order, and wrapping again gives the identical type. Stripping modifiers from an ADT type removes all of them and nothing else; pushing them to the leaves leaves the shape unchanged and gives each leaf exactly the modifiers of the nodes on its path, outermost last.',
 ['configurations','histories'],'All types, modifier stacks, ADT shapes, and creation/collection histories.',
 'Tests stack a few modifiers on a few types.',
 ['modifiers.py'],[('_ModifierMeta.__call__ and lookup tables','modifiers.py'),('strip_modifiers/push_modifiers','modifiers.py')],['identity and structure of the types'],state=[('modifier caches','weak maps between modified and unmodified types','modifiers.py')])
p('A08','ADT visitors reach every node exactly once, by its kind',
 'Visiting an ADT type calls, for each node in the type\'s tree and in field order, exactly the handler for its kind (enum, product, tuple, tagged union, sum, leaf), once; visiting a value does the same for the values actually present, taking only the active alternative of sums and unions. A visitor that overrides some handlers gets the default traversal for the others.',
 ['configurations','programs'],'All ADT types and values, all sets of overridden handlers.',
 'Tests visit a few fixed types with all handlers defined.',
 ['adt_util.py'],[('_ADTVisitor.visit, generic_visit','adt_util.py')],['sequence of handler calls'])
p('A09','An ADT value and its field dictionary determine each other',
 'For every Tuple, AnonymousProduct, Product, Sum and TaggedUnion value, value_dict has exactly the type\'s field keys with the current contents (None for inactive alternatives), is read-only and a snapshot, and from_values of it gives an equal value, of the same type. A dictionary with missing, extra or ill-typed entries, or other than one active alternative for sums, raises.',
 ['inputs','histories'],'All ADT types and values.',
 'Tests round-trip a few fixed values.',
 ['adt.py'],[('value_dict/from_values','adt.py')],['dictionaries and rebuilt values'])
p('A10','Enum members are distinct, typed, constant and not forgeable',
 'For every Enum type each declared name gives one constant member carrying that name and an equality that holds within the type exactly when values agree, automatic values being distinct from all others; members of different Enum types are never equal, equal members hash equally, members cannot be reached through members, and an Enum cannot be built by value. A sub-enum keeps its own members only, and no member changes through fields or field_dict, which are read-only.',
 ['configurations'],'All Enum definitions and member pairs.',
 'Tests use one or two enums.',
 ['adt.py','adt_meta.py'],[('EnumMeta','adt_meta.py'),('Enum.__eq__/__getattribute__','adt.py')],['members, equality, exceptions'])
p('U01','Frozen dictionaries and typed properties keep their contracts',
 'A FrozenDict or OrderedFrozenDict reads as the mapping it was built from, whatever happens to that mapping later, cannot be changed through its interface, equals exactly the same-kind dictionaries with equal items (in equal order for the ordered one), and equal ones have equal hashes. A typed property reads as its type on the class, runs its getter, setter and deleter on instances, and raises without calling the setter when the assigned value is not an instance of its type.',
 ['inputs','histories'],'All mappings, histories of access, property types and values.',
 'The tests check a few fixed properties and dictionaries.',
 ['util.py'],[('FrozenDict/OrderedFrozenDict','util.py'),('TypedProperty','util.py')],['equality, hash, reads, exceptions'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import sys
print(len(P), max(len(d['title']) for d in P), [d['id'] for d in P if len(d['title'])>80])
