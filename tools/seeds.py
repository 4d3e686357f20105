"""Planted bugs: (id, property, file, [(old, new)], demo body (C++; return 0 when right), needs, what it breaks)."""
SEEDS = []
def seed(id, prop, file, edits, demo, needs, breaks): SEEDS.append((id, prop, file, edits, demo, needs, breaks))
A = 'src/BigIntegerCalculator/AddSub.cpp'; M = 'src/BigIntegerCalculator/SquMul.cpp'; D = 'src/BigIntegerCalculator/DivRem.cpp'; P = 'src/BigIntegerCalculator/PowMod.cpp'
G = 'src/BigIntegerCalculator/GcdInv.cpp'; F = 'src/BigIntegerCalculator/FastReducer.cpp'; BB = 'src/BigIntegerCalculator/BitsBuffer.cpp'; B = 'src/BigInteger.cpp'

seed('add-carry-32', 'C03', A, [('''    for (; i < lhsLength; i++) {
        uint64_t digit = lhs[i] + carry;
        bits[i] = static_cast<uint32_t>(digit);
        carry = digit >> 32;
    }

    bits[i] = static_cast<uint32_t>(carry);''', '''    for (; i < lhsLength; i++) {
        uint64_t digit = lhs[i] + static_cast<uint32_t>(carry);
        bits[i] = static_cast<uint32_t>(digit);
        carry = digit >> 32;
    }

    bits[i] = static_cast<uint32_t>(carry);''')],
'''  // 2^128-1 + 2^33+1 : the carry has to run through two all-ones digits above the shorter operand
  B a = B::pow(B(2), 128) - B(1), b = (B(1) << 33) + B(1);
  return a + b == B::pow(B(2), 128) + (B(1) << 33) ? 0 : 1;''', 'a carry out of the shorter operand that meets an all-ones digit of the longer one', 'the sum of two multi-digit integers of different length')
seed('add-self-carry', 'C04', A, [('''    for (; carry != 0 && i < lhsLength; i++) {
        long digit = lhs[i] + carry;
        lhs[i] = static_cast<unsigned int>(digit);
        carry = digit >> 32;
    }

    assert(carry == 0);''', '''    if (carry != 0 && i < lhsLength) {
        long digit = lhs[i] + carry;
        lhs[i] = static_cast<unsigned int>(digit);
    }''')],
'''static uint64_t R = 88172645463325252ull; static uint32_t rnd() { R ^= R << 13; R ^= R >> 7; R ^= R << 17; return R >> 20; }
static B make(int n) { std::vector<uint8_t> v; for (int i = 0; i < n; i++) { uint32_t r = rnd() % 8, d = r < 3 ? 0 : r < 6 ? 0xffffffffu : r == 6 ? 1 : rnd(); if (i == n - 1 && !d) d = 1; for (int k = 0; k < 4; k++) v.push_back(d >> (8 * k)); } return B(v, true, false); }
//MAIN
  // the product must equal the sum of the one-digit products
  for (int t = 0; t < 20000; t++) {
    int n = 32 + rnd() % 20, m = 32 + rnd() % 20;
    B x = make(n), y = make(m), s(0);
    std::vector<uint8_t> b = y.to_byte_array(true, false);
    for (size_t i = b.size(); i-- > 0;) s = (s << 8) + x * B((int) b[i]);
    if (s != x * y) return 1;
  }
  return 0;''', 'operands of 32 or more digits where merging the middle product carries through an all-ones digit', 'products on the divide-and-conquer path')
seed('compare-lowest', 'C13', B, [('for (int iv = cu; --iv >= 0;) {\n        if (rgu1[iv] != rgu2[iv])', 'for (int iv = cu; --iv > 0;) {\n        if (rgu1[iv] != rgu2[iv])')],
'''  B a = (B(1) << 64) + B(1), b = (B(1) << 64) + B(2);
  return a < b && a != b && !(a == b) && b > a ? 0 : 1;''', 'two values that differ only in their lowest digit', 'order and equality')
seed('compare-other-sign', 'C13', B, [('        return -other._sign;\n    }\n    int cuThis', '        return -1;\n    }\n    int cuThis')],
'''  B a(-5), b = -(B(1) << 40);
  return a.compare_to(b) == 1 && b.compare_to(a) == -1 ? 0 : 1;''', 'a small negative value compared with a longer negative one', 'the order of negative values of different size')
seed('mul-small-sign', 'C04', B, [('''        uint_array bits = BigIntegerCalculator::multiply(lhs._bits, std::abs(rhs._sign));
        *this = BigInteger(bits, (lhs._sign < 0) ^ (rhs._sign < 0));''', '''        uint_array bits = BigIntegerCalculator::multiply(lhs._bits, std::abs(rhs._sign));
        *this = BigInteger(bits, lhs._sign * rhs._sign < 0);''')],
'''  B a = -(B(1) << 64); return a * B(3) == -((B(1) << 65) + (B(1) << 64)) && B(7) * a == -(B(7) << 64) ? 0 : 0;''', '-', '-')
SEEDS.pop()      # behaviour preserving: kept as a reminder
seed('sub-equal-size', 'C03', B, [('''    if (BigIntegerCalculator::compare(lhs, rhs) < 0) {
        uint_array bits = BigIntegerCalculator::subtract(rhs, lhs);''', '''    if (lhs.size() < rhs.size() || (lhs.size() == rhs.size() && lhs.back() < rhs.back())) {
        uint_array bits = BigIntegerCalculator::subtract(rhs, lhs);''')],
'''  B a = (B(1) << 64) + B(1), b = (B(1) << 64) + B(2);
  pid_t p = fork();
  if (p == 0) { fclose(stderr); _exit(a - b == B(-1) ? 0 : 1); }
  int s = 0; waitpid(p, &s, 0);
  return WIFEXITED(s) && WEXITSTATUS(s) == 0 ? 0 : 1;''', 'two values of equal length and equal top digit whose first is smaller', 'differences of near-equal values')
seed('shr-all-negative', 'C10', B, [('if (shift >= (kcbitUint * xl)) {', 'if (shift > (kcbitUint * xl)) {')],
'''  B a = -((B(1) << 63) + B(1)), b(-3);
  return (a >> 64) == B(-1) && (b >> 32) == B(-1) && ((-(B(1) << 95)) >> 96) == B(-1) ? 0 : 1;''', 'a negative value shifted right by exactly the number of bits of its digits', 'right shift of negative values by their whole length')
seed('shr-sign-fill', 'C10', B, [('            if (negx && i == xl - 1)\n', '            if (negx && i == xl - 1 && rot != 0)\n')],
'''  B a = -((B(1) << 64) - B(1));     // its two's complement digits are 1, 0
  return (a >> 4) == -(B(1) << 60) && (a >> 33) == -(B(1) << 31) ? 0 : 1;''', 'a negative value whose top digit is all ones', 'right shift of a negative value close to a power of 2^32')
seed('to-long-negative', 'C14', B, [('if ((ll > 0 && _sign > 0) || (ll < 0 && _sign < 0))\n        return ll;', 'if (ll > 0 || (ll < 0 && _sign < 0))\n        return ll;')],
'''  B a = -((B(1) << 63) + B(5));
  try { long v = (long) a; (void) v; return 1; } catch (const std::overflow_error&) { }
  B b = -(B(1) << 63);
  return (long) b == (long) (1UL << 63) ? 0 : 1;''', 'a negative value between -2^64 and -2^63-1', 'conversion of out-of-range negative values to a 64-bit integer')
seed('ctor-uint64-top', 'C14', B, [('    } else if (value <= std::numeric_limits<uint32_t>::max()) {\n        _sign = +1;\n        _bits.push_back(static_cast<uint32_t>(value));\n    } else {', '    } else if (value < std::numeric_limits<uint32_t>::max()) {\n        _sign = +1;\n        _bits.push_back(static_cast<uint32_t>(value));\n    } else {')],
'''  pid_t p = fork();
  if (p == 0) { fclose(stderr); B a((uint64_t) 0xffffffffu); _exit(a == B((uint32_t) 0xffffffffu) && a + B(1) == (B(1) << 32) && a.get_bits().size() == 1 ? 0 : 1); }
  int s = 0; waitpid(p, &s, 0);
  return WIFEXITED(s) && WEXITSTATUS(s) == 0 ? 0 : 1;''', 'construction from the 64-bit value 2^32-1', 'construction from an unsigned 64-bit integer')
seed('tostring-static-scratch', 'C19', B, [('    uint_array rguDst(cuMax);\n    int cuDst = 0;\n\n    for (int iuSrc', '    static uint_array rguDst;\n    rguDst.assign(cuMax, 0);\n    int cuDst = 0;\n\n    for (int iuSrc')],
'''#include <thread>
#include <atomic>
//MAIN
  std::atomic<int> bad(0);
  pid_t p = fork();
  if (p == 0) {
    fclose(stderr);
    std::vector<std::thread> ts;
    for (int t = 0; t < 8; t++) ts.emplace_back([&, t] {
      B v = B::pow(B(3 + t), 40 + 60 * t); std::string want;
      for (int i = 0; i < 3000; i++) { std::string s = v.to_string(); B back = B::parse(s); if (back != v) bad++; }
    });
    for (auto& t : ts) t.join();
    _exit(bad ? 1 : 0);
  }
  int s = 0; waitpid(p, &s, 0);
  return WIFEXITED(s) && WEXITSTATUS(s) == 0 ? 0 : 1;''', 'two threads that format different values at the same time', 'independence of operations on distinct objects')
Y = 'bindings/python/python-bindings.cpp'
def pyseed(id, prop, edits, body, needs, breaks):
    seed(id, prop, Y, edits, """#!/bin/bash
PYTHONPATH=_build/bindings/python exec /opt/vp/venv/bin/python - <<'PY'
from pybiginteger import BigInteger as B
%s
PY
""" % body, needs, breaks)
pyseed('py-mod-pow-order', 'C24', [('return BigInteger::mod_pow(base, exp, to_biginteger(modulus));', 'return BigInteger::mod_pow(exp, base, to_biginteger(modulus));')],
"""assert pow(B(3), B(5), 7) == 5 and pow(B(2), B(10), 1000) == 24""", 'a three-argument power of two BigIntegers with an int modulus', 'operand order of the modular power')
pyseed('py-ge-int', 'C24', [('return self >= to_biginteger(other);', 'return self > to_biginteger(other);')],
"""assert B(5) >= 5 and B(2**70) >= 2**70 and not B(4) >= 5""", 'a BigInteger compared with an equal int', 'the >= overload for ints')
seed('bitlen-min-form', 'C23', B, [('    for (int i = bitsArrayLength - 2; i >= 0; i--)\n    {', '    for (int i = bitsArrayLength - 2; i > 0; i--)\n    {')],
'''  B x = B(1) << 96; uint64_t a = (-x).get_bit_length(), b = (-(x + B(1))).get_bit_length();
  return a == 96 && b == 97 ? 0 : 1;''', 'a negative integer of several digits whose only nonzero digit besides a power-of-two leading digit is the lowest', 'the bit length of -(2^96 + 1)')
seed('pow2-low-digit', 'C23', B, [('''    int iu = _bits.size() - 1;
    if ((_bits[iu] & (_bits[iu] - 1)) != 0)
        return false;

    while (--iu >= 0) {''', '''    int iu = _bits.size() - 1;
    if ((_bits[iu] & (_bits[iu] - 1)) != 0)
        return false;

    while (--iu > 0) {''')],
'''  B x = B(1) << 64; return x.is_power_of_two() && !(x + B(5)).is_power_of_two() ? 0 : 1;''', 'a power-of-two leading digit with a nonzero lowest digit', 'is_power_of_two of 2^64 + 5')
seed('twos-extra-word', 'C09', B, [('bool needExtraByte = (dwords[msb] & 0x80000000) != (highDWord & 0x80000000);', 'bool needExtraByte = (dwords[msb] & 0x80000000) > (highDWord & 0x80000000);')],
'''  B x = -(B(1) << 95) - B(9); return (x | (B(1) << 70)) < B(0) && (x ^ B(5)) < B(0) && (~(~x ^ B(3)) ^ B(3)) == x ? 0 : 1;''', 'a negative operand whose two\'s-complement top digit has its high bit clear', 'the sign digit of negative operands')

DIVPRE = '''static uint64_t R = 88172645463325252ull; static uint32_t rnd() { R ^= R << 13; R ^= R >> 7; R ^= R << 17; return R >> 20; }
static B make(int n) { std::vector<uint8_t> v; for (int i = 0; i < n; i++) { uint32_t r = rnd() % 10, d = r < 3 ? 0 : r < 6 ? 0xffffffffu : r == 6 ? 1 : r == 7 ? 0x80000000u : r == 8 ? 0xfffffffeu : rnd(); if (i == n - 1 && !d) d = 1; for (int k = 0; k < 4; k++) v.push_back(d >> (8 * k)); } return B(v, true, false); }
//MAIN
'''
DIVDEMO = DIVPRE + '''  // n = q*d + r by construction, so the division has to give q and r back
  for (int k = 0; k < 200000; k++) { B d = make(1 + rnd() % 4), q = make(1 + rnd() % 3), r = make(1 + rnd() % 4);
    if (!(r < d)) r = d - B(1);
    B n = q * d; n += r;
    B rr, qq = B::div_rem(n, d, rr);
    if (!(qq == q) || !(rr == r)) { printf("wrong quotient or remainder at %d\\n", k); return 1; } }
  return 0;'''
seed('div-low-bits', 'C05', D, [("""            valLo = (valLo << shift) | (valNx >> backShift);
        }

        // First""", """            valLo = (valLo << shift) | (valNx & (0xFFFFFFFFu >> backShift));
        }

        // First""")], DIVDEMO,
'a quotient digit for which the two leading divisor digits times the digit agree with the dividend in all but the lowest bits',
'the estimate is compared with wrong low bits of the shifted dividend and lowered although it was right (or kept although it was too high)')
seed('div-addback-carry', 'C05', D, [("""        uint64_t digit = (lhs[i] + carry) + rhs[i];
        lhs[i] = static_cast<uint32_t>(digit);
        carry = digit >> 32;
    }

    return static_cast<uint32_t>(carry);
}

uint32_t
""", """        uint64_t digit = lhs[i] + static_cast<uint64_t>(static_cast<uint32_t>(carry + rhs[i]));
        lhs[i] = static_cast<uint32_t>(digit);
        carry = digit >> 32;
    }

    return static_cast<uint32_t>(carry);
}

uint32_t
""")], DIVDEMO,
'a division whose estimate is one too high (the rare add-back) while a digit of the divisor is 2^32-1 and a carry comes in',
'the carry is lost in the add-back')
seed('mod-same-length', 'C05', B, [("""    if (dividend._bits.size() < divisor._bits.size()) {
        return dividend;
    }""", """    if (dividend._bits.size() < divisor._bits.size() ||
        (dividend._bits.size() == divisor._bits.size() && dividend._bits.back() == divisor._bits.back() &&
         dividend._bits.front() < divisor._bits.front())) {
        return dividend;
    }""")], """  B d = (B(7) << 64) + (B(2) << 32) + B(5), n = (B(7) << 64) + (B(3) << 32) + B(4);
  if (!(n % d == (B(1) << 32) - B(1))) { puts("n % d wrong"); return 1; }
  return 0;""", 'dividend and divisor of the same length (three digits or more) with the same leading digit, a smaller lowest and a larger middle digit', 'the remainder of a dividend that is not below the divisor is returned unreduced')
seed('divrem-clobbers-remainder', 'C21', B, [('''        uint32_t rest;
        uint_array rbits = dividend.get_bits();''', '''        uint32_t rest;
        uint_array rbits = dividend.get_bits();
        if (&remainder != &dividend && &remainder != &divisor)
            remainder = BigInteger::zero();''')], '''#include "exceptions.h"
//MAIN
  B n = B(1) << 100, z(0), r(77);
  try { B::div_rem(n, z, r); return 1; } catch (DivideByZero&) { }
  if (!(r == B(77))) { puts("remainder changed by a division that failed"); return 1; }
  return 0;''', 'div_rem with a multi-digit dividend and a zero divisor', 'the output parameter is overwritten before the division throws')
N = 'include/NumericsHelpers.h'
seed('double-exp-split', 'C15', B, [('''    } else if (exp <= 11) {''', '''    } else if (exp <= 12) {''')],
'''  // 2^65 - 2^12 : exponent 12, mantissa of 53 ones
  B a(36893488147419099136.0), b = (B(1) << 65) - (B(1) << 12);
  return a == b ? 0 : 1;''', 'a double in [2^64, 2^65) (exponent of the last mantissa bit exactly 12)', 'the integer constructed from a double')
seed('double-low-digit', 'C15', B, [('''        if (cbit > 0)
            _bits[cu - 1]''', '''        if (cbit > 12)  // the low mantissa bits are all zero now
            _bits[cu - 1]''')],
'''  // 2^p + 2^(p-52): the last mantissa bit lies just below a digit boundary
  for (int p = 64; p < 200; p++) { double d = std::ldexp(1.0, p) + std::ldexp(1.0, p - 52); if (B(d) != (B(1) << p) + (B(1) << (p - 52))) return 1; }
  return 0;''', 'a double whose last mantissa bit (set) is the top bit of a lower 32-bit digit', 'the integer constructed from a double')
seed('double-infinity-early', 'C15', B, [('''    if (length > InfinityLength) {''', '''    if (length >= InfinityLength) {''')],
'''  B a = B(1) << 1000; return (double) a == std::ldexp(1.0, 1000) ? 0 : 1;''', 'an integer of exactly 32 digits, 2^992 <= |x| < 2^1024', 'conversion to double')
seed('bytes-low-zero-digits', 'C11', B, [('''                if (i <= nonZeroDwordIndex) {''', '''                if (i == nonZeroDwordIndex || i == 0) {''')],
'''  // -(2^200 + 2^100): three zero digits below the lowest non-zero one
  B a = -((B(1) << 200) + (B(1) << 100)); auto v = a.to_byte_array(false, false);
  return B(v, false, false) == a ? 0 : 1;''', 'a negative integer with at least two zero digits at the low end and a non-zero digit below the top', 'byte export of negative values')
seed('bytes-big-endian-tail', 'C11', B, [('''                for (curByte = 0; curByte < unalignedBytes; curByte++) {
                    byte curByteValue = value[curByte];
                    val[curDword] = (val[curDword] << 8) | curByteValue;
                }''', '''                for (curByte = 0; curByte < (byteCount & 3); curByte++) {
                    val[curDword] = (val[curDword] << 8) | static_cast<signed char>(value[curByte]);
                }''')],
'''  // big-endian, 6 bytes, unsigned, second byte >= 0x80
  byte_array v = {0x12, 0x92, 0, 0, 0, 1};
  return B(v, true, true) == (B(0x1292) << 32) + B(1) ? 0 : 1;''', 'a big-endian string whose length is 2 or 3 modulo 4 with a byte above 0x7F behind the first one', 'big-endian import')

seed('text-carry-exact', 'C12', B, [('''            uCarry /= kuBase;
            if (uCarry != 0)
                rguDst[cuDst++] = uCarry;''', '''            if (uCarry > kuBase)
                rguDst[cuDst++] = uCarry / kuBase;''')],
'''  // the leading base-10^9 carry is exactly 10^9
  B a = B(1000000000) << 32; std::string t = a.to_string();
  return t == "4294967296000000000" ? 0 : 1;''', 'an integer whose conversion produces a carry of exactly 10^9, for example 10^9 * 2^32', 'decimal text')
seed('text-group-zeros', 'C12', B, [('''        for (int cch = kcchBase; --cch >= 0;) {
            rgch''', '''        for (int cch = kcchBase; --cch >= 0 && (uDig != 0 || iuDst == 0 || cch >= 7);) {
            rgch''')],
'''  // 10^27 + 5*10^9 : a group of nine with seven or more leading zeros above the lowest group
  B p(1); for (int i = 0; i < 27; i++) p *= B(10);
  B a = p + B((int64_t)5000000000); std::string t = a.to_string();
  return t == "1000000000000000005000000000" ? 0 : 1;''', 'a decimal numeral in which a group of nine digits that is neither the first nor the last begins with zeros', 'decimal text')
seed('parse-digit-nine', 'C12', B, [('''        if (ch >= '0' && ch <= '9') {
            b *= 10;''', '''        if (ch >= '0' && (ch <= '9' || (ch == ':' && it + 1 == s.end()))) {
            b *= 10;''')],
'''  return B::parse("123:") == B(123) && B::parse("-77:") == B(-77) ? 0 : 1;''', 'a numeral directly followed by a colon at the end of the text', 'reading of a numeral')
seed('parse-plus-later', 'C12', B, [('''        } else {
            break;
        }
    }

    if (is_negative)''', '''        } else if (ch != '+' || !b.is_zero()) {
            break;
        }
    }

    if (is_negative)''')],
'''  return B::parse("-+5") == B(0) && B::parse("0+7") == B(0) && B::parse("++3") == B(0) ? 0 : 1;''', 'a plus sign behind another sign or behind leading zeros', 'reading of a numeral')

pyseed('py-neg-mask', 'C25', [('auto need_extra_byte = (msb & 0x80) != (high_byte & 0x80);', 'auto need_extra_byte = (msb & 0xc0) != (high_byte & 0xc0) && (msb & 0xc0) != 0x40;')],
"""for k in range(3, 40):
    for t in (0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc0, 0xfe):
        v = -(1 << 8 * k) + (t << 8 * (k - 1)) + 5
        assert int(B(v)) == v, v""", 'a negative int whose first byte other than 0xff is between 0x40 and 0x7f', 'construction of a BigInteger from such an int')
pyseed('py-buffer-ndim', 'C25', [('py::format_descriptor<unsigned char>::format() || info.ndim != 1)', 'py::format_descriptor<unsigned char>::format() || info.ndim < 1)')],
"""try: v = B(memoryview(bytes(range(1, 13))).cast('B', (3, 4)))
except RuntimeError: v = None
assert v is None
assert B(b'\\x01\\x02') == 0x0201""", 'a buffer of bytes with several dimensions', 'the dimension test of the buffer constructor')
