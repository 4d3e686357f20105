CLAIMS = {
 'C03': (PROOF, AI, 'every addition/subtraction operation proved exact for operands of any length (below 2^26 digits), all sign and size classes'),
 'C04': (PROOF, AI, 'every multiplication operation proved exact, on the single-digit, schoolbook and divide-and-conquer paths, for any length'),
 'C09': (PROOF, AI, 'and, or, xor and complement proved to act on the infinite two\'s-complement digits, for all sign and size classes and operands of any length'),
 'C10': (PROOF, AI, 'both shifts in both directions proved exact for every count and operands of any length'),
 'C14': (PROOF, AI, 'construction from and conversion to 32/64-bit integers proved exact, with overflow raised exactly outside the range'),
 'C23': (PROOF, AI, 'zero, one, parity, power-of-two, sign, absolute value and bit length proved right for every integer (cases over the bit length of the leading digit)'),
 'C13': (PROOF, AI, 'comparison and equality proved to agree with the integer order for any length'),
 'C05': (PROOF, AI, 'quotient and remainder proved for operands of any length: single-digit, double-digit and long division with all correction steps, by every entry point; loop invariants of the division loops are supplied and checked to be inductive'),
 'C15': (PROOF, AI, 'construction from every double (cases over sign and exponent, symbolic mantissa) and conversion to double of integers of any length (cases over the bit length of the leading digit) proved to follow the bit-level rule'),
 'C12': (PROOF, AI, 'conversion to decimal text proved for integers of any length (base 10^9 conversion, nine characters per entry, leading entry, sign), reading of a numeral proved for every text; together: reading what was written gives the integer back'),
 'C11': (PROOF, AI, 'import of every byte string (any length, padding, byte order, signedness) and export of every integer proved: value, shortest length, byte count, refusal; together: import after export is the identity'),
 'C06': (OTHER, AI, 'division, remainder and div_rem proved to throw exactly for a zero divisor; modular power proved to throw for a zero modulus; not shown: that modular power never throws it for another modulus'),
 'C21': (OTHER, AI, 'operations that throw proved to leave target and operands as they were and to throw only the specified exception: division entry points, integer conversions, construction from non-finite doubles and unsigned export; others are not analysed'),
 'C01': (OTHER, AI, 'memory safety proved for every operation under analysis (listed in the evidence: functions_analysed)'),
 'C02': (OTHER, AI, 'canonical results proved for every operation under analysis (listed in the evidence: functions_analysed)'),
 'C17': (OTHER, AI, 'aliased operands proved for every operation under analysis (listed in the evidence: functions_analysed)'),
 'C18': (OTHER, AI, 'operands not modified proved for every operation under analysis (listed in the evidence: functions_analysed)'),
 'C20': (OTHER, AI, 'defined arithmetic and assertions proved for every operation under analysis (listed in the evidence: functions_analysed)'),
 'C22': (OTHER, AI, 'termination proved for every operation under analysis (listed in the evidence: functions_analysed)'),
 'C26': (OTHER, AI, 'storage released exactly once proved for every operation under analysis (listed in the evidence: functions_analysed)'),
 'C19': (PROOF, 'structural rules over the linked LLVM IR: static storage, initialisers, external callees', 'no mutable or dynamically initialised static object and no call that reads process-wide state in any function of the library'),
 'C24': (PROOF, 'term evaluation of every Python binding over the Clang syntax tree, compared with a table of the operations', 'each method and overload computes the operation of its name on (self, other); completeness of the overload set'),
 'C25': (PROOF, AI + '; term evaluation of the binding of the constructor, __int__, __index__, __hash__ and __eq__', 'the conversions of the Python module, analysed in its own IR with summaries of the C API, proved exact in both directions for ints of any length; the buffer constructor proved to read exactly the exposed bytes (any stride) and to refuse every other buffer; the hash is the hash of the converted int'),
}
NA = {}
DEFAULT = 'the analysis does not decide it yet (see DESIGN.md)'
