#!/usr/bin/env python3
# Writes properties.jsonl (kept as a generator so that the long texts stay editable).
import json, os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BI='src/BigInteger.cpp'; HDR='include/public/bigintegercpp/BigInteger.h'
C='src/BigIntegerCalculator/'
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if obs: a['observe_at']=obs
    a['hook_needed']=None
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
SIGN=('_sign/_bits','sign-magnitude representation: small values in the sign word with no digits, others +-1 and base-2^32 digits',HDR)

p('C01','No operation reads or writes outside the storage it owns',
  'For operands of any size, sign and digit content, every operation reads and writes only inside the digit, byte and character storage it owns at that moment: no out-of-bounds index, no use of storage that was freed or reallocated.',
  ['inputs'],'all operand values and lengths, all shift counts, exponents, flag combinations',
  'An out-of-bounds access of a few bytes usually changes nothing a test can see, and the lengths that reach it (special digit counts, powers of the base, aliased buffers) are a vanishing part of what random tests draw.',
  [BI,C+'AddSub.cpp',C+'SquMul.cpp',C+'DivRem.cpp',C+'PowMod.cpp',C+'GcdInv.cpp',C+'BitsBuffer.cpp',C+'FastReducer.cpp'],
  [('buffer sizing at allocation and length arguments of the raw-pointer kernels',C),('index computations of the conversions',BI)],[SIGN])
p('C02','Every produced value is in the unique canonical representation',
  'Every value that any constructor, operator or function produces has the one canonical representation of its integer: a value that fits below 2^31 in magnitude carries no digits, any other has no leading zero digit and a sign of plus or minus one. Consequently equal integers have equal representations however they were computed.',
  ['inputs','histories'],'all operand values, all sequences of operations',
  'Tests compare a few computed values with expected ones; a non-canonical result shows only in later comparisons, hashes or divisions on that particular value.',
  [BI,HDR],[('constructors that strip leading zero digits and fold small values',BI)],[SIGN])
p('C03','Addition and subtraction are exact',
  'For all integers a and b, a+b, a-b, -a, +a, ++a, --a and abs(a) are exactly the mathematical results, for every combination of sizes and signs and for any carry or borrow pattern.',
  ['inputs'],'all pairs of integers','Carry and borrow chains across many digits, and size-mismatched operands, have probability near zero in random tests.',
  [BI,C+'AddSub.cpp'],[('sign dispatch','operator+=, operator-= in '+BI),('carry/borrow loops',C+'AddSub.cpp')],[SIGN])
p('C04','Multiplication and squaring are exact',
  'For all integers a and b, a*b is exactly the mathematical product, on every internal algorithm (single digit, schoolbook, divide-and-conquer, squaring) and at every switch-over length.',
  ['inputs'],'all pairs of integers, all lengths including those around the algorithm thresholds',
  'Divide-and-conquer corrections (carries out of the folded halves, odd lengths) only go wrong for special digit patterns at large sizes.',
  [BI,C+'SquMul.cpp'],[('schoolbook and Karatsuba kernels',C+'SquMul.cpp'),('operator dispatch',BI)],[SIGN])
p('C05','Quotient and remainder satisfy the truncated-division identity',
  'For all integers n and d with d nonzero: n = (n/d)*d + n%d, the magnitude of n%d is below the magnitude of d, n%d is zero or has the sign of n; and the operators, the named functions and the combined quotient-remainder function agree on both results.',
  ['inputs'],'all dividends and nonzero divisors','The quotient-digit correction steps trigger for roughly one in 2^31 random operands.',
  [BI,C+'DivRem.cpp'],[('small-divisor loops, schoolbook division',C+'DivRem.cpp'),('operator/=, operator%=, div_rem',BI)],[SIGN])
p('C06','Division by zero always raises the divide-by-zero exception',
  'Dividing by zero, taking a remainder by zero or using a zero modulus in modular exponentiation raises the documented divide-by-zero exception for every dividend, base and non-negative exponent; it never traps the process and never returns a value. No operation with a nonzero divisor raises it.',
  ['inputs'],'all dividends/bases/exponents, all entry points that divide',
  'Each internal branch (small/large operand, zero/non-zero exponent, loops that may run zero times) needs its own zero check and tests only visit some.',
  [BI,C+'DivRem.cpp',C+'PowMod.cpp'],[('zero checks before each division',BI+', '+C)],[SIGN])
p('C07','Power and modular power return the mathematical result',
  'For a non-negative exponent e, pow(b,e) is exactly b^e, and mod_pow(b,e,m) is the remainder of b^e by m with the truncated-division sign convention, for all sizes of base, exponent and modulus. A negative exponent is rejected with an exception.',
  ['inputs'],'all bases, exponents, nonzero moduli','Sizes select different kernels (word, schoolbook reduction, Barrett reduction) and reuse scratch buffers; stale digits or wrong lengths show only for special operands.',
  [BI,C+'PowMod.cpp',C+'BitsBuffer.cpp',C+'FastReducer.cpp'],[('square-and-multiply loops, reducers',C)],[SIGN])
p('C08','greatest_common_divisor terminates with the exact non-negative gcd',
  'For all integers a and b the function returns, after finitely many steps, the non-negative greatest common divisor of a and b (the magnitude of the other operand when one is zero).',
  ['inputs'],'all pairs of integers','The multi-digit path (guessing with leading digits) has many rarely taken exits.',
  [BI,C+'GcdInv.cpp',C+'BitsBuffer.cpp'],[('Euclid and Lehmer steps',C+'GcdInv.cpp')],[SIGN])
p('C09','Bitwise operators act on the infinite two\'s-complement form',
  'For all integers, &, |, ^ and ~ give the integer whose infinite sign-extended two\'s-complement form is the bitwise combination of the operands\' forms, for every mix of signs and lengths.',
  ['inputs'],'all pairs of integers','Sign extension of the shorter operand and two\'s-complement carries past whole zero digits are rare in random data.',
  [BI,'include/NumericsHelpers.h'],[('conversion to and from two\'s-complement digits, extension words',BI)],[SIGN])
p('C10','Shifts are exact multiplication and floor division by powers of two',
  'For every integer x and every int count k: x << k equals x*2^k and x >> k equals floor(x/2^k) for k >= 0, and a negative count shifts the other way by its magnitude.',
  ['inputs'],'all integers, all counts','Whole-digit shifts of negative values with all-zero or all-one low digits, and counts at digit boundaries, are isolated points.',
  [BI],[('operator<<=, operator>>=',BI)],[SIGN])
p('C11','Byte-array conversion is exact, minimal and invertible',
  'Exporting any integer gives the shortest two\'s-complement (or, on request, unsigned) byte string that denotes it, in the requested byte order, with the byte count reported consistently; importing any byte string gives exactly the integer it denotes under the chosen signedness and byte order, so import after export is the identity. Unsigned export of a negative value is refused.',
  ['inputs'],'all integers, all byte strings, all flag combinations',
  'Lengths modulo the digit size, leading zero or 0xFF bytes and boundary magnitudes multiply to far more cases than a test table.',
  [BI],[('byte_array constructor, to_byte_array',BI)],[SIGN])
p('C12','Decimal text conversion round-trips',
  'to_string gives the canonical decimal numeral of every integer (minus sign only for negatives, no leading zeros), and parsing that text gives the integer back; parsing reads an optional sign and the longest run of digits exactly.',
  ['inputs'],'all integers','Inner zero groups of digits and lengths that exactly fill the buffers are special points.',
  [BI],[('base 10^9 conversion and digit extraction; parse loop',BI)],[SIGN])
p('C13','Comparison, equality and hash agree with the integer order',
  'compare_to and the relational operators order values exactly as the integers they denote (a total order), == holds exactly for equal integers, and values that compare equal have equal hash codes.',
  ['inputs'],'all pairs of integers','Digit-wise comparison must be right for every first differing position and every sign/size mix.',
  [BI,HDR],[('compare_to, equals, get_hash_code',BI)],[SIGN])
p('C14','Integer conversions are exact or raise overflow',
  'Constructing from any 32/64-bit integer denotes exactly that integer; converting to a 32/64-bit signed or unsigned integer gives exactly the value when it is representable and throws an overflow error for every other value.',
  ['inputs'],'all machine integers; all big integers','The range boundaries of each type form isolated points just inside and outside.',
  [BI],[('constructors from integers, conversion operators',BI)],[SIGN])
p('C15','Double conversions follow the documented truncation and range rules',
  'Constructing from a finite double gives its integer part (truncation toward zero) exactly, and non-finite doubles are rejected with an exception; converting to double gives the value truncated to 53 significant bits, or infinity with the right sign when out of range.',
  ['inputs'],'all doubles; all big integers','Exponent ranges select different code paths, with shift amounts that depend on the value.',
  [BI,'include/NumericsHelpers.h'],[('double constructor, operator double, mantissa/exponent helpers',BI+', include/NumericsHelpers.h')],[SIGN])
p('C16','Logarithms are accurate and defined for the documented domain',
  'log, log(base) and log10 return the logarithm of the value to within a few units in the last place, with the documented NaN/infinity results outside the domain.',
  ['inputs'],'all integers and bases','Accuracy has to hold for every leading-digit pattern.',
  [BI,'include/NumericsHelpers.h'],[('log',BI)])
p('C17','Operations are correct when operands alias the result or each other',
  'An operation gives the same result when two or more of its operands (including the target of a compound assignment and output parameters) are the same object as when they are distinct copies.',
  ['inputs','programs'],'all operations taking several values, all aliasing patterns',
  'Tests almost always use distinct objects, and only read-after-write orderings on the shared object go wrong.',
  [BI,HDR],[('local copies taken before the target is overwritten',BI)],[SIGN])
p('C18','Operations do not modify their input operands',
  'Apart from the target of a compound assignment, of ++/-- and the documented output parameters, no operation or conversion changes the value of any of its operands or of the object it is called on, even when it throws.',
  ['inputs','programs'],'all operations, all operands','Tests look at results and hardly ever look again at operands; several operands are passed by mutable reference.',
  [BI,HDR,C+'DivRem.cpp'],[('copies of digits before in-place kernels run',BI+', '+C)],[SIGN])
p('C19','No shared mutable state: safe from several threads and before main',
  'Operations on distinct objects from different threads never interact, and every operation gives the same result whenever it is called, including during static initialisation of other code: no operation depends on mutable or dynamically initialised state outside its operands, or on process-wide settings.',
  ['schedules','histories'],'all thread interleavings and initialisation orders',
  'Races and initialisation-order failures need a particular schedule or link order that single-threaded tests never produce.',
  [BI,C],[('absence of mutable namespace-scope, static and thread-local objects',BI+', '+C)])
p('C20','No undefined arithmetic on any input',
  'For every input, no operation executes signed overflow, a shift by at least the operand width, division of the minimum by minus one, or a read of an uninitialised variable, and none of the built-in assertions can fail.',
  ['inputs'],'all operand values','Undefined operations mostly yield the expected bits on the test machine, and the operands that trigger them are single boundary values.',
  [BI,C,'include/NumericsHelpers.h'],[('casts and guards around boundary values',BI)],[SIGN])
p('C21','Failing operations leave their target unchanged',
  'When an operation throws (division by zero, overflow, out of range), the object it was called on, its operands and its output parameters keep the values they had before the call, and only the documented exception types are raised.',
  ['inputs','fault_sequences'],'all throwing inputs, all exit paths','Tests check that an exception arrives, not the state of the objects afterwards.',
  [BI],[('results are computed in locals and assigned last',BI)],[SIGN])
p('C22','Every operation terminates',
  'For all operands every operation returns or throws after finitely many steps: every loop makes progress towards its exit on every iteration.',
  ['inputs'],'all operand values','A loop without progress needs one special operand to hang.',
  [BI,C],[('loop counters and shrinking lengths',BI+', '+C)])
p('C23','Simple queries answer for the denoted integer',
  'is_zero, is_one, is_even, is_power_of_two, sign and get_bit_length return what the denoted integer implies (bit length of the minimal two\'s-complement form without sign bit), for every integer.',
  ['inputs'],'all integers','Boundary magnitudes and sparse digit patterns (single one bit anywhere) are isolated points.',
  [BI],[('query functions',BI)],[SIGN])
p('C24','Python operators map to the matching operation and operand order',
  'In the Python module every operator method, its reflected form and its int overloads perform the operation of that name on (self, other) in the documented operand order; reflected forms return Python ints, the others BigIntegers, and no supported operator lacks an overload its siblings have.',
  ['inputs','programs'],'all operators, operand type combinations and values','The binding table has some seventy entries; tests sample values for which a swapped operand or operator can coincide.',
  ['bindings/python/python-bindings.cpp'],[('binding table','bindings/python/python-bindings.cpp')])
p('C25','Python int conversion, hash and buffers are lossless and consistent',
  'A BigInteger made from a Python int converts back to the same int; values that compare equal (BigInteger or int) have equal hashes; and construction from a buffer reads exactly the bytes the buffer exposes.',
  ['inputs'],'all Python ints, all buffers','Byte-length boundaries and strided buffers are rare in tests.',
  ['bindings/python/python-bindings.cpp'],[('to_biginteger, to_py_int, buffer constructor, __hash__','bindings/python/python-bindings.cpp')])
p('C26','No operation leaks memory or frees it twice',
  'Every operation releases all storage it allocated exactly once on every exit path, including paths left by an exception.',
  ['inputs','fault_sequences'],'all exit paths','Leaks change no result, and double frees need the one path that reaches both releases.',
  [BI,C],[('storage owned by containers; explicit release in text conversion',BI)])
open(os.path.join(H,'properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
