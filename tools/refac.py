"""refac.py [NAME...]: behaviour-preserving rewrites of /repo, each in a scratch copy; the listed checks (default: those in the entry) must stay quiet."""
import sys, os, shutil, subprocess, json, time
A='src/BigIntegerCalculator/AddSub.cpp'; M='src/BigIntegerCalculator/SquMul.cpp'; B='src/BigInteger.cpp'; H='include/NumericsHelpers.h'; D='src/BigIntegerCalculator/DivRem.cpp'; Y='bindings/python/python-bindings.cpp'
R={}
def refac(name, props, *edits): R[name]=(props, edits)
refac('add-one-loop', 'C03 C04', (A, '''    for (; i < rhsLength; i++) {
        uint64_t digit = (lhs[i] + carry) + rhs[i];
        bits[i] = static_cast<uint32_t>(digit);
        carry = digit >> 32;
    }

    for (; i < lhsLength; i++) {
        uint64_t digit = lhs[i] + carry;
        bits[i] = static_cast<uint32_t>(digit);
        carry = digit >> 32;
    }

    bits[i] = static_cast<uint32_t>(carry);''', '''    while (i < lhsLength) {
        uint64_t r = i < rhsLength ? rhs[i] : 0u;
        uint64_t digit = carry + r + lhs[i];
        carry = digit >> 32;
        bits[i++] = static_cast<uint32_t>(digit);
    }

    bits[lhsLength] = static_cast<uint32_t>(carry);'''))
refac('sub-step-helper', 'C03', (A, '#include <cassert>\n', '''#include <cassert>

static inline uint32_t sub_step(uint32_t a, uint32_t b, long& carry) {
    long digit = static_cast<long>(a) + carry - static_cast<long>(b);
    carry = digit >> 32;
    return static_cast<uint32_t>(digit);
}
'''), (A, '''        long digit = lhs[i] + carry - rhs[i];
        bits[i] = static_cast<uint32_t>(digit);
        carry = digit >> 32;
    }
    for (; i < lhsLength; i++) {
        long digit = lhs[i] + carry;
        bits[i] = static_cast<uint32_t>(digit);
        carry = digit >> 32;
    }''', '''        bits[i] = sub_step(lhs[i], rhs[i], carry);
    }
    for (; i < lhsLength; ++i) {
        bits[i] = sub_step(lhs[i], 0, carry);
    }'''), (A, '''        long digit = (left[i] + carry) - right[i];
        left[i] = static_cast<uint32_t>(digit); // unchecked()
        carry = digit >> 32;
    }''', '''        left[i] = sub_step(left[i], right[i], carry);
    }'''))
refac('sub-borrow-flag', 'C03', (A, '''    int i = 0;
    long carry = 0L;

    for (; i < rhsLength; i++) {
        long digit = lhs[i] + carry - rhs[i];
        bits[i] = static_cast<uint32_t>(digit);
        carry = digit >> 32;
    }
    for (; i < lhsLength; i++) {
        long digit = lhs[i] + carry;
        bits[i] = static_cast<uint32_t>(digit);
        carry = digit >> 32;
    }

    assert(carry == 0);''', '''    uint32_t borrow = 0;
    for (int i = 0; i < lhsLength; i++) {
        uint64_t sub = (i < rhsLength ? static_cast<uint64_t>(rhs[i]) : 0) + borrow;
        uint64_t cur = lhs[i];
        borrow = cur < sub ? 1 : 0;
        bits[i] = static_cast<uint32_t>(cur - sub);
    }
    assert(borrow == 0);'''))
refac('compare-while', 'C13 C03', (A, '''    for (int i = lhsLength - 1; i >= 0; i--) {
        if (lhs[i] < rhs[i])
            return -1;
        if (lhs[i] > rhs[i])
            return 1;
    }
''', '''    int i = lhsLength;
    while (i-- > 0) {
        if (lhs[i] == rhs[i]) continue;
        return lhs[i] < rhs[i] ? -1 : 1;
    }
'''))
refac('compare-ptr', 'C13 C03', (A, '''    for (int i = lhsLength - 1; i >= 0; i--) {
        if (lhs[i] < rhs[i])
            return -1;
        if (lhs[i] > rhs[i])
            return 1;
    }
''', '''    const uint32_t* p = lhs + lhsLength;
    const uint32_t* q = rhs + lhsLength;
    while (p != lhs) {
        --p; --q;
        if (*p != *q) return *p < *q ? -1 : 1;
    }
'''))
refac('diff-length', 'C13', (B, '''    for (int iv = cu; --iv >= 0;) {
        if (rgu1[iv] != rgu2[iv])
            return iv + 1;
    }
    return 0;''', '''    int len = cu;
    while (len > 0 && rgu1[len - 1] == rgu2[len - 1])
        --len;
    return len;'''))
refac('compare-to-sign', 'C13', (B, '''    if ((_sign ^ other._sign) < 0) {
        // Different signs, so the comparison is easy.
        return _sign < 0 ? -1 : +1;
    }
''', '''    const bool negative = _sign < 0;
    if (negative != (other._sign < 0))
        return negative ? -1 : 1;
'''))
refac('ctor-trim-resize', 'C03 C04 C10', (B, '''        _sign = negative ? -1 : +1;
        _bits.swap(value);
    }

    while (!_bits.empty() && _bits[_bits.size() - 1] == 0) {
        _bits.pop_back();
    }''', '''        value.resize(len);
        _bits = std::move(value);
        _sign = negative ? -1 : +1;
    }'''))
refac('ctor-trim-back', 'C03 C04 C10', (B, '''    while (!_bits.empty() && _bits[_bits.size() - 1] == 0) {
        _bits.pop_back();
    }''', '''    while (!_bits.empty() && _bits.back() == 0)
        _bits.pop_back();'''), (B, '''    for (len = value.size(); len > 0 && value[len - 1] == 0; len--);
''', '''    len = static_cast<int>(value.size());
    while (len > 0 && value[len - 1] == 0)
        len -= 1;
'''))
refac('twos-one-loop', 'C10', (H, '''            d[0] = ~d[0] + 1;

            size_t i = 1;
            // first do complement and +1 as long as carry is needed
            for (; d[i - 1] == 0 && i < d.size(); i++) {
                d[i] = ~d[i] + 1;
            }
            // now ones complement is sufficient
            for (; i < d.size(); i++) {
                d[i] = ~d[i];
            }''', '''            uint64_t carry = 1;
            for (size_t i = 0; i < d.size(); i++) {
                carry += static_cast<uint32_t>(~d[i]);
                d[i] = static_cast<uint32_t>(carry);
                carry >>= 32;
            }'''))
refac('twos-range-for', 'C10', (H, '''            d[0] = ~d[0] + 1;

            size_t i = 1;
            // first do complement and +1 as long as carry is needed
            for (; d[i - 1] == 0 && i < d.size(); i++) {
                d[i] = ~d[i] + 1;
            }
            // now ones complement is sufficient
            for (; i < d.size(); i++) {
                d[i] = ~d[i];
            }''', '''            bool carry = true;
            for (auto& x : d) {
                x = ~x;
                if (carry) {
                    x += 1;
                    carry = x == 0;
                }
            }'''))
refac('shl-copy', 'C10', (B, '''        for (int i = 0; i < xl; i++) {
            zd[i + digitShift] = xd[i];
        }''', '''        std::copy(xd.begin(), xd.begin() + xl, zd.begin() + digitShift);'''),
 (B, '''        int i;
        for (i = 0; i < xl; i++) {
            unsigned int rot = xd[i];
            zd[i + digitShift] = rot << smallShift | carry;
            carry = rot >> carryShift;
        }
        zd[i + digitShift] = carry;''', '''        for (int i = 0; i < xl; i++) {
            const uint32_t rot = xd[i];
            zd[digitShift + i] = (rot << smallShift) + carry;
            carry = rot >> carryShift;
        }
        zd[digitShift + xl] = carry;'''))
refac('shl-neighbours', 'C10', (B, '''        int carryShift = kcbitUint - smallShift;
        uint32_t carry = 0;
        int i;
        for (i = 0; i < xl; i++) {
            unsigned int rot = xd[i];
            zd[i + digitShift] = rot << smallShift | carry;
            carry = rot >> carryShift;
        }
        zd[i + digitShift] = carry;''', '''        for (int i = 0; i < xl; i++) {
            uint64_t wide = static_cast<uint64_t>(xd[i]) << smallShift;
            zd[i + digitShift] |= static_cast<uint32_t>(wide);
            zd[i + digitShift + 1] = static_cast<uint32_t>(wide >> 32);
        }'''))
refac('shr-loop', 'C10', (B, '''            if (negx && i == xl - 1)
                // Sign-extend the first shift for negative ints then let the carry propagate
                zd[i - digitShift] = (rot >> smallShift) | (0xFFFFFFFF << carryShift);
            else
                zd[i - digitShift] = (rot >> smallShift) | carry;''', '''            zd[i - digitShift] = (rot >> smallShift) | carry;'''),
 (B, '''        uint32_t carry = 0;
        for (int i = xl - 1; i >= digitShift; i--) {''', '''        uint32_t carry = negx ? 0xFFFFFFFF << carryShift : 0;
        for (int i = xl - 1; i >= digitShift; i--) {'''))
refac('shr-div', 'C10', (B, '''    int digitShift = shift / kcbitUint;
    int smallShift = shift - (digitShift * kcbitUint);

    uint_array xd;
    int xl;
    bool negx;
    negx = get_parts_for_bit_manipulation(*this, xd, xl);

    if (negx) {''', '''    uint_array xd;
    int xl;
    const bool negx = get_parts_for_bit_manipulation(*this, xd, xl);
    const int digitShift = shift >> 5;
    const int smallShift = shift & 31;

    if (negx) {'''))
refac('mul-swap', 'C04', (B, '''    if (lhs._bits.size() < rhs._bits.size()) {
        uint_array bits = BigIntegerCalculator::multiply(rhs._bits, lhs._bits);
        *this = BigInteger(bits, (lhs._sign < 0) ^ (rhs._sign < 0));
        return *this;
    } else {
        uint_array bits = BigIntegerCalculator::multiply(lhs._bits, rhs._bits);
        *this = BigInteger(bits, (lhs._sign < 0) ^ (rhs._sign < 0));
        return *this;
    }''', '''    const bool negative = (lhs._sign < 0) != (rhs._sign < 0);
    const bool shorter = lhs._bits.size() < rhs._bits.size();
    const uint_array& longest = shorter ? rhs._bits : lhs._bits;
    const uint_array& other = shorter ? lhs._bits : rhs._bits;
    *this = BigInteger(BigIntegerCalculator::multiply(longest, other), negative);
    return *this;'''))
refac('square-inner', 'C04', (M, '''            uint64_t carry = 0UL;
            for (int j = 0; j < i; j++) {
                uint64_t digit1 = bits[i + j] + carry;
                uint64_t digit2 = static_cast<uint64_t>(value[j]) * value[i];
                bits[i + j] = static_cast<uint64_t>(digit1 + (digit2 << 1));
                carry = (digit2 + (digit1 >> 1)) >> 31;
            }''', '''            uint64_t carry = 0UL;
            uint32_t* out = bits + i;
            const uint64_t vi = value[i];
            for (int j = 0; j != i; ++j) {
                const uint64_t product = vi * value[j];
                const uint64_t sum = out[j] + carry;
                carry = ((sum >> 1) + product) >> 31;
                out[j] = static_cast<uint32_t>(sum + (product << 1));
            }'''))
refac('add-trivial-helper', 'C03', (B, '''    if (trivialLeft && trivialRight) {
        return BigInteger(static_cast<int64_t>(lhsSign) + rhsSign);
    }

    if (trivialLeft) {
        assert(!rhs.empty());
        uint_array bits = BigIntegerCalculator::add(rhs, std::abs(lhsSign));
        return BigInteger(bits, lhsSign < 0);
    }

    if (trivialRight) {
        assert(!lhs.empty());
        uint_array bits = BigIntegerCalculator::add(lhs, std::abs(rhsSign));
        return BigInteger(bits, lhsSign < 0);
    }
''', '''    const bool negative = lhsSign < 0;
    if (trivialLeft) {
        if (trivialRight)
            return BigInteger(static_cast<int64_t>(rhsSign) + static_cast<int64_t>(lhsSign));
        uint32_t small = lhsSign < 0 ? -static_cast<uint32_t>(lhsSign) : static_cast<uint32_t>(lhsSign);
        return BigInteger(BigIntegerCalculator::add(rhs, small), negative);
    }
    if (trivialRight)
        return BigInteger(BigIntegerCalculator::add(lhs, static_cast<uint32_t>(std::abs(rhsSign))), negative);
'''))
refac('to-long-order', 'C14', (B, '''    long ll = _sign > 0 ? static_cast<long>(uu) : static_cast<long>(0UL - uu);
    if ((ll > 0 && _sign > 0) || (ll < 0 && _sign < 0))
        return ll;
    throw std::overflow_error("SR.Overflow_Int64");''', '''    const unsigned long limit = _sign > 0 ? 0x7FFFFFFFFFFFFFFFUL : 0x8000000000000000UL;
    if (uu > limit)
        throw std::overflow_error("SR.Overflow_Int64");
    return _sign > 0 ? static_cast<long>(uu) : static_cast<long>(0UL - uu);'''))
refac('to-uint-order', 'C14', (B, '''    if (_bits.empty()) {
        if (_sign < 0)
            throw std::overflow_error("checked() UInt32 overflow");
        else
            return static_cast<unsigned int>(_sign);
    } else if (_bits.size() > 1 || _sign < 0) {
        throw std::overflow_error("SR.Overflow_UInt32");
    } else {
        return _bits[0];
    }''', '''    if (_sign < 0 || _bits.size() > 1)
        throw std::overflow_error("SR.Overflow_UInt32");
    return _bits.empty() ? static_cast<unsigned int>(_sign) : _bits.front();'''))
refac('ctor-long', 'C14', (B, '''        uint64_t x = 0;
        if (value < 0) {
            x = 0 - static_cast<uint64_t>(value);
            _sign = -1;
        } else {
            x = static_cast<uint64_t>(value);
            _sign = +1;
        }

        if (x <= std::numeric_limits<uint32_t>::max()) {
            _bits.push_back(static_cast<uint32_t>(x));
        } else {
            _bits.push_back(static_cast<uint32_t>(x));
            _bits.push_back(static_cast<uint32_t>(x >> kcbitUint));
        }''', '''        const bool negative = value < 0;
        _sign = negative ? -1 : +1;
        uint64_t x = negative ? ~static_cast<uint64_t>(value) + 1 : static_cast<uint64_t>(value);
        do {
            _bits.push_back(static_cast<uint32_t>(x & 0xFFFFFFFFu));
            x >>= kcbitUint;
        } while (x != 0);'''))
refac('ctor-ulong-assign', 'C14', (B, '''        _sign = +1;
        _bits.push_back(static_cast<uint32_t>(value));
        _bits.push_back(static_cast<uint32_t>(value >> kcbitUint));
    }
''', '''        _bits = uint_array{static_cast<uint32_t>(value & 0xFFFFFFFF), static_cast<uint32_t>(value / 4294967296ull)};
        _sign = 1;
    }
'''))
refac('twos-digits-msb', 'C10', (B, '''    int msb;
    for (msb = dwords.size() - 1; msb > 0; msb--) {
        if (dwords[msb] != highDWord) break;
    }''', '''    int msb = static_cast<int>(dwords.size()) - 1;
    while (msb > 0 && dwords[msb] == highDWord) --msb;'''))
refac('mul-inner-ptr', 'C04', (M, 'for (int i = 0; i < rhsLength; i++) {', 'for (int i = 0; i != rhsLength; ++i) {'))
refac('div-guess-for', 'C05', (D, '''        uint64_t digit = valHi / divHi;
        if (digit > 0xFFFFFFFF)
            digit = 0xFFFFFFFF;

        // Our first guess may be a little bit to big
        while (divide_guess_too_big(digit, valHi, valLo, divHi, divLo))
            --digit;
''', '''        uint64_t digit = std::min<uint64_t>(valHi / divHi, UINT32_MAX);

        // Our first guess may be a little bit to big
        for (; divide_guess_too_big(digit, valHi, valLo, divHi, divLo); digit -= 1) {
        }
'''), (D, '#include <cassert>\n', '#include <cassert>\n#include <algorithm>\n'))
refac('div-window-index', 'C05', (D, '''    for (int i = lhsLength; i >= rhsLength; i--) {
        int n = i - rhsLength;
''', '''    for (int n = lhsLength - rhsLength; n >= 0; --n) {
        const int i = n + rhsLength;
'''))
refac('div-estimate-helper', 'C05', (D, '''        uint64_t digit = valHi / divHi;
        if (digit > 0xFFFFFFFF)
            digit = 0xFFFFFFFF;

        // Our first guess may be a little bit to big
        while (divide_guess_too_big(digit, valHi, valLo, divHi, divLo))
            --digit;
''', '''        uint64_t digit = estimate(valHi, valLo, divHi, divLo, divide_guess_too_big);
'''), (D, '#include <cassert>\n', '''#include <cassert>

template <class TooBig>
static uint64_t estimate(uint64_t valHi, uint32_t valLo, uint32_t divHi, uint32_t divLo, TooBig too_big) {
    uint64_t digit = valHi / divHi;
    if (digit > 0xFFFFFFFF)
        digit = 0xFFFFFFFF;
    while (too_big(digit, valHi, valLo, divHi, divLo))
        --digit;
    return digit;
}
'''))
refac('div-shift-helper', 'C05', (D, '''        divHi = (divHi << shift) | (divLo >> backShift);
        divLo = (divLo << shift) | (divNx >> backShift);
''', '''        divHi = funnel(divHi, divLo, shift);
        divLo = funnel(divLo, divNx, shift);
'''), (D, '''            valLo = (valLo << shift) | (valNx >> backShift);
''', '''            valLo = funnel(valLo, valNx, shift);
'''), (D, '#include <cassert>\n', '''#include <cassert>

static uint32_t funnel(uint32_t hi, uint32_t lo, int shift) {
    return (hi << shift) | (lo >> (32 - shift));
}
'''))
refac('div-guess-compare', 'C05', (D, '''    if (chkHi < valHi)
        return false;
    if (chkHi > valHi)
        return true;

    if (chkLo < valLo)
        return false;
    if (chkLo > valLo)
        return true;

    return false;
''', '''    return chkHi != valHi ? chkHi > valHi : chkLo > valLo;
'''))
refac('div-clear-first', 'C05', (D, '''        if (bitsLength != 0)
            bits[n] = (unsigned int) digit;
        if (i < lhsLength)
            lhs[i] = 0;
''', '''        if (i != lhsLength)
            lhs[i] = 0;
        if (bitsLength > 0)
            bits[n] = static_cast<uint32_t>(digit);
'''))
refac('div-addback-loop', 'C05', (D, '''        uint64_t digit = (lhs[i] + carry) + rhs[i];
        lhs[i] = static_cast<uint32_t>(digit);
        carry = digit >> 32;
    }

    return static_cast<uint32_t>(carry);
}

uint32_t
''', '''        carry += lhs[i];
        carry += rhs[i];
        lhs[i] = static_cast<uint32_t>(carry);
        carry >>= 32;
    }

    return static_cast<uint32_t>(carry);
}

uint32_t
'''))
refac('div1-hoisted-check', 'C05 C06', (D, '''    uint64_t carry = 0UL;
    for (int i = lhs.size() - 1; i >= 0; i--) {
        uint64_t value = (carry << 32) | lhs[i];
        if (rhs == 0)
            throw DivideByZero();
        carry = value % rhs;
    }
''', '''    if (rhs == 0)
        throw DivideByZero();
    uint64_t carry = 0UL;
    for (size_t i = lhs.size(); i-- > 0;)
        carry = ((carry << 32) + lhs[i]) % rhs;
'''))
refac('div1-modulo', 'C05 C06', (D, '''        uint64_t digit = value / rhs;
        quotient[i] = static_cast<uint32_t>(digit);
        carry = value - digit * rhs;
    }
    remainder''', '''        quotient[i] = static_cast<uint32_t>(value / rhs);
        carry = value % rhs;
    }
    remainder'''))
refac('mod-early', 'C05 C06 C21', (B, '''    if (trivialDividend) {
        // The divisor is non-trivial
        // and therefore the bigger one
        return dividend;
    }

    if (trivialDivisor) {
        assert(!dividend._bits.empty());
        int64_t remainder = BigIntegerCalculator::remainder(dividend._bits, std::abs(divisor._sign));
        *this = dividend._sign < 0 ? -1 * remainder : remainder;
        return *this;
    }
''', '''    if (trivialDividend)
        return *this;

    const bool negative = _sign < 0;
    if (trivialDivisor) {
        assert(!dividend._bits.empty());
        int64_t rest = BigIntegerCalculator::remainder(_bits, std::abs(divisor._sign));
        if (negative)
            rest = -rest;
        *this = BigInteger(rest);
        return *this;
    }
'''))
refac('div-sign-helper', 'C05 C06', (B, '''        uint_array bits = BigIntegerCalculator::divide(dividend._bits, std::abs(divisor._sign));
        *this = BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
        return *this;
''', '''        const bool negative = (dividend._sign < 0) != (divisor._sign < 0);
        const uint32_t d = std::abs(divisor._sign);
        uint_array bits = BigIntegerCalculator::divide(dividend._bits, d);
        return *this = BigInteger(bits, negative);
'''))
refac('div-lz-builtin', 'C05', (D, '''    int count = 0;
    if ((value & 0xFFFF0000) == 0) {
        count += 16;
        value = value << 16;
    }
    if ((value & 0xFF000000) == 0) {
        count += 8;
        value = value << 8;
    }
    if ((value & 0xF0000000) == 0) {
        count += 4;
        value = value << 4;
    }
    if ((value & 0xC0000000) == 0) {
        count += 2;
        value = value << 2;
    }
    if ((value & 0x80000000) == 0) {
        count += 1;
    }

    return count;
''', '''    return __builtin_clz(value);
'''))
refac('bytes-combine', 'C11', (B, '''                for (int byteInDword = 0; byteInDword < 4; byteInDword++) {
                    byte curByteValue = value[curByte];
                    val[curDword] = (val[curDword] << 8) | curByteValue;
                    curByte--;
                }

                curByte += 8;
''', '''                const uint32_t b0 = value[curByte - 3], b1 = value[curByte - 2], b2 = value[curByte - 1], b3 = value[curByte];
                val[curDword] = b0 | (b1 << 8) | (b2 << 16) | (b3 << 24);
                curByte += 4;
'''))
refac('bytes-index', 'C11', (B, '''            curByte = byteCount - sizeof(int);
            for (curDword = 0; curDword < dwordCount - (unalignedBytes == 0 ? 0 : 1); curDword++) {
                for (int byteInDword = 0; byteInDword < 4; byteInDword++) {
                    byte curByteValue = value[curByte];
                    val[curDword] = (val[curDword] << 8) | curByteValue;
                    curByte++;
                }

                curByte -= 8;
            }''', '''            const int whole = byteCount / 4;
            for (curDword = 0; curDword < whole; curDword++) {
                uint32_t word = 0;
                for (int k = 4; k >= 1; k--)
                    word = word * 256 + value[byteCount - 4 * curDword - k];
                val[curDword] = word;
            }'''))
refac('bytes-reverse-first', 'C11', (B, '''    int byteCount = value.size();''', '''    if (isBigEndian) {
        byte_array little(value.rbegin(), value.rend());
        value.swap(little);
        isBigEndian = false;
    }
    int byteCount = value.size();'''))
refac('bytes-scan-for', 'C11', (B, '''                byteCount -= 2;
                while (byteCount >= 0 && value[byteCount] == 0) {
                    byteCount--;
                }
                byteCount++;''', '''                for (byteCount--; byteCount > 0; byteCount--)
                    if (value[byteCount - 1] != 0)
                        break;'''))
refac('export-byte-loop', 'C11', (B, '''            destination[curByte] = static_cast<byte>(dword);
            curByte += increment;
            destination[curByte] = static_cast<byte>((dword >> 8));
            curByte += increment;
            destination[curByte] = static_cast<byte>((dword >> 16));
            curByte += increment;
            destination[curByte] = static_cast<byte>((dword >> 24));
            curByte += increment;
''', '''            for (int shift = 0; shift < 32; shift += 8) {
                destination[curByte] = static_cast<byte>(dword >> shift);
                curByte += increment;
            }
'''))
refac('export-carry', 'C11', (B, '''                dword = ~dword;
                if (i <= nonZeroDwordIndex) {
                    dword = dword + 1U;
                }
''', '''                if (i < static_cast<size_t>(nonZeroDwordIndex))
                    dword = 0;
                else if (i == static_cast<size_t>(nonZeroDwordIndex))
                    dword = -dword;
                else
                    dword = ~dword;
'''))
refac('export-msb-loop', 'C11', (B, '''    if ((msb = static_cast<byte>((highDword >> 24))) != highByte) {
        msbIndex = 3;
    } else if ((msb = static_cast<byte>((highDword >> 16))) != highByte) {
        msbIndex = 2;
    } else if ((msb = static_cast<byte>((highDword >> 8))) != highByte) {
        msbIndex = 1;
    } else {
        msb = static_cast<byte>(highDword);
        msbIndex = 0;
    }
''', '''    for (msbIndex = 3; msbIndex > 0; msbIndex--)
        if (static_cast<byte>(highDword >> (8 * msbIndex)) != highByte)
            break;
    msb = static_cast<byte>(highDword >> (8 * msbIndex));
'''))
refac('export-last-loop', 'C11', (B, '''    destination[curByte] = static_cast<byte>(highDword);
    if (msbIndex != 0) {
        curByte += increment;
        destination[curByte] = static_cast<byte>((highDword >> 8));
        if (msbIndex != 1) {
            curByte += increment;
            destination[curByte] = static_cast<byte>((highDword >> 16));
            if (msbIndex != 2) {
                curByte += increment;
                destination[curByte] = static_cast<byte>((highDword >> 24));
            }
        }
    }
''', '''    for (int b = 0; b <= msbIndex; b++) {
        if (b != 0) curByte += increment;
        destination[curByte] = static_cast<byte>(highDword >> (8 * b));
    }
'''))
refac('export-index', 'C11', (B, '''            destination[curByte] = static_cast<byte>(dword);
            curByte += increment;
            destination[curByte] = static_cast<byte>((dword >> 8));
            curByte += increment;
            destination[curByte] = static_cast<byte>((dword >> 16));
            curByte += increment;
            destination[curByte] = static_cast<byte>((dword >> 24));
            curByte += increment;
''', '''            destination[curByte] = static_cast<byte>(dword & 0xff);
            destination[curByte + increment] = static_cast<byte>((dword >> 8) & 0xff);
            destination[curByte + 2 * increment] = static_cast<byte>((dword >> 16) & 0xff);
            destination[curByte + 3 * increment] = static_cast<byte>(dword / 0x1000000u);
            curByte += 4 * increment;
'''))
refac('count-direct', 'C11', (B, '''    this->to_byte_array(GetBytesMode::Count, isUnsigned, false, &bytesWritten);
    return bytesWritten;''', '''    bytesWritten = static_cast<int>(this->to_byte_array(isUnsigned, true).size());
    return bytesWritten;'''))
refac('double-word-split', 'C15', (B, '''        int cu = (exp - 1) / kcbitUint + 1;
        int cbit = cu * kcbitUint - exp;
''', '''        int cu = (exp + kcbitUint - 1) / kcbitUint;
        int cbit = (kcbitUint - exp % kcbitUint) % kcbitUint;
'''))
refac('double-memcpy', 'C15', (H, '''        DoubleULong du;
        du.uu = 0;
        du.dbl = dbl;

        sign = 1''', '''        DoubleULong du;
        __builtin_memcpy(&du.uu, &dbl, sizeof dbl);

        sign = 1'''))
refac('double-mantissa', 'C15', (B, '''    unsigned long man = (h << (32 + z)) | (m << z) | (l >> (32 - z));
''', '''    unsigned long man = ((h << 32) + m) << z;
    if (z != 0)
        man += l >> (32 - z);
'''))
refac('double-sign-last', 'C15', (B, '''        *this = man >> -exp;
        if (sign < 0)
            _sign = -_sign;
    } else if (exp <= 11) {
        *this = man << exp;
        if (sign < 0)
            _sign = -_sign;
    } else {''', '''        BigInteger r(static_cast<uint64_t>(man >> -exp));
        *this = sign < 0 ? -r : r;
    } else if (exp <= 11) {
        BigInteger r(static_cast<uint64_t>(man << exp));
        *this = sign < 0 ? -r : r;
    } else {'''))
refac('bytes-std-reverse', 'C11', (B, '''    int byteCount = value.size();''', '''    if (isBigEndian) {
        std::reverse(value.begin(), value.end());
        isBigEndian = false;
    }
    int byteCount = value.size();'''))
refac('parse-index', 'C12', (B, '''    for (auto it = s.begin() + start_idx; it != s.end(); it++) {
        auto ch = *it;
        if (ch >= '0' && ch <= '9') {
            b *= 10;
            b += static_cast<unsigned int>(ch - '0');
        } else {
            break;
        }
    }
''', '''    for (size_t i = start_idx; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) {
        b *= 10;
        b += static_cast<uint32_t>(s[i] - '0');
    }
'''))
refac('parse-while', 'C12', (B, '''    for (auto it = s.begin() + start_idx; it != s.end(); it++) {
        auto ch = *it;
        if (ch >= '0' && ch <= '9') {
            b *= 10;
            b += static_cast<unsigned int>(ch - '0');
        } else {
            break;
        }
    }
''', '''    auto it = s.cbegin() + start_idx;
    const auto last = s.cend();
    while (it != last) {
        const unsigned int digit = static_cast<unsigned char>(*it) - '0';
        if (digit > 9)
            break;
        b *= BigInteger(10);
        b += BigInteger(digit);
        ++it;
    }
'''))
refac('parse-range-for', 'C12', (B, '''    if (s[0] == '-') {
        is_negative = true;
        start_idx = 1;
    } else if (s[0] == '+') {
        start_idx = 1;
    }
''', '''    if (!s.empty()) {
        is_negative = s.front() == '-';
        if (is_negative || s.front() == '+')
            start_idx++;
    }
'''))
refac('parse-negate-op', 'C12', (B, '''    if (is_negative)
        b = -b;
    return b;
}

std::string''', '''    return is_negative ? -b : b;
}

std::string'''))
refac('parse-helper', 'C12', (B, '''BigInteger BigInteger::parse(const std::string& s) {''', '''static inline bool is_decimal(char c) { return c >= '0' && c <= '9'; }

BigInteger BigInteger::parse(const std::string& s) {'''), (B, '''        if (ch >= '0' && ch <= '9') {
            b *= 10;
            b += static_cast<unsigned int>(ch - '0');
        } else {
            break;
        }
''', '''        if (!is_decimal(ch))
            break;
        b *= 10;
        b += static_cast<unsigned int>(ch - '0');
'''))
refac('text-while', 'C12', (B, '''        for (int iuDst = 0; iuDst < cuDst; iuDst++) {
            assert(rguDst[iuDst] < kuBase);
            uint64_t uuRes = NumericsHelpers::make_ulong(rguDst[iuDst], uCarry);
            rguDst[iuDst] = static_cast<uint32_t>(uuRes % kuBase);
            uCarry = static_cast<uint32_t>(uuRes / kuBase);
        }
''', '''        int iuDst = 0;
        while (iuDst < cuDst) {
            const uint64_t uuRes = (static_cast<uint64_t>(rguDst[iuDst]) << 32) | uCarry;
            uCarry = static_cast<uint32_t>(uuRes / kuBase);
            rguDst[iuDst++] = static_cast<uint32_t>(uuRes - static_cast<uint64_t>(uCarry) * kuBase);
        }
'''))
refac('text-append', 'C12', (B, '''        if (uCarry != 0) {
            rguDst[cuDst++] = uCarry % kuBase;
            uCarry /= kuBase;
            if (uCarry != 0)
                rguDst[cuDst++] = uCarry;
        }
''', '''        while (uCarry != 0) {
            rguDst[cuDst++] = uCarry % kuBase;
            uCarry /= kuBase;
        }
'''))
refac('text-source-for', 'C12', (B, '''    for (int iuSrc = cuSrc; --iuSrc >= 0;) {
        uint32_t uCarry''', '''    for (int iuSrc = cuSrc - 1; iuSrc >= 0; iuSrc--) {
        uint32_t uCarry'''))
refac('text-minus', 'C12', (B, '''        std::string negativeSign = "-";
        for (int i = negativeSign.size() - 1; i > -1; i--)
            rgch[--ichDst] = negativeSign[i];
''', '''        rgch[--ichDst] = '-';
'''))
refac('text-vector', 'C12', (B, '''    char *rgch = new char[rgchBufSize];''', '''    std::vector<char> rgch(rgchBufSize);'''), (B, '''    delete [] rgch;
    return s;''', '''    return s;'''))
refac('text-nine', 'C12', (B, '''        for (int cch = kcchBase; --cch >= 0;) {
            rgch[--ichDst]''', '''        for (int cch = 0; cch < kcchBase; cch++) {
            rgch[--ichDst]'''))
refac('text-char-helper', 'C12', (B, '''std::string BigInteger::to_string() const {''', '''static inline char decimal_char(uint32_t v) { return static_cast<char>(v % 10u + '0'); }

std::string BigInteger::to_string() const {'''), (B, '''            rgch[--ichDst] = static_cast<char>('0' + (uDig % 10));
            uDig /= 10;
        }
    }
''', '''            ichDst--;
            rgch[ichDst] = decimal_char(uDig);
            uDig = uDig / 10;
        }
    }
'''))
refac('text-top-while', 'C12', (B, '''    for (uint32_t uDig = rguDst[cuDst - 1]; uDig != 0;) {
        rgch[--ichDst] = static_cast<char>('0' + uDig % 10);
        uDig /= 10;
    }
''', '''    uint32_t uTop = rguDst[cuDst - 1];
    do {
        rgch[--ichDst] = static_cast<char>('0' + uTop % 10);
        uTop /= 10;
    } while (uTop > 0);
'''))
refac('text-groups-first', 'C12', (B, '''    for (int iuDst = 0; iuDst < cuDst - 1; iuDst++) {
        uint32_t uDig = rguDst[iuDst];
        assert(uDig < kuBase);''', '''    const int last = cuDst - 1;
    for (int k = 0; k < last; ++k) {
        uint32_t uDig = rguDst[k];
        assert(uDig < kuBase);'''))
refac('py-int-shift', 'C25 C24', (Y, 'size_t n_bytes = std::floor(((_PyLong_NumBits(value.ptr()) + 7) / 8));', 'const size_t n_bits = _PyLong_NumBits(value.ptr());\n    size_t n_bytes = (n_bits >> 3) + ((n_bits & 7) != 0 ? 1 : 0);'),
    (Y, '        n_bytes += 1;', '        ++n_bytes;'))
refac('py-int-helper', 'C25 C24', (Y, 'BigInteger to_biginteger(py::int_& value, bool is_bigendian = false) {', '''static size_t byte_count(py::int_& value, bool negative) {
    return (_PyLong_NumBits(value.ptr()) + 7) / 8 + (negative ? 1 : 0);
}
BigInteger to_biginteger(py::int_& value, bool is_bigendian = false) {'''), (Y, '''    size_t n_bytes = std::floor(((_PyLong_NumBits(value.ptr()) + 7) / 8));
    if (is_signed)
        n_bytes += 1;
''', '    const size_t n_bytes = byte_count(value, is_signed);\n'), (Y, '''        unsigned char high_byte;
        if (value < py::int_(0))
            high_byte = 0xff;
        else
            high_byte = 0x00;
''', '        const unsigned char high_byte = is_signed ? 0xff : 0x00;\n'))
refac('py-int-while', 'C25', (Y, '''            for (auto i = buffer.size()-1; i > 0; i--) {
                if (buffer[i] != high_byte) {
                    msb = static_cast<int>(buffer[i]);
                    break;
                }
            }''', '''            auto i = buffer.size() - 1;
            while (i > 0 && buffer[i] == high_byte)
                --i;
            if (i > 0)
                msb = buffer[i];'''))
refac('py-int-keep', 'C25', (Y, '''                return BigInteger(std::vector<unsigned char>(buffer.begin(), buffer.begin() + buffer.size() - 1));''', '''                { buffer.pop_back(); return BigInteger(buffer); }'''))
refac('py-int-always', 'C25', (Y, 'if (need_extra_byte)', 'if (need_extra_byte || !is_bigendian)'))
refac('py-buffer-ptr', 'C25', (Y, '''              for (py::ssize_t i = 0; i < info.size; i++)
                  data[i] = data_ptr[i * info.strides[0]];''', '''              const auto stride = info.strides[0];
              for (auto& d : data) {
                  d = *data_ptr;
                  data_ptr += stride;
              }'''))
refac('py-buffer-push', 'C25', (Y, '''              std::vector<unsigned char> data(info.size);
              for (py::ssize_t i = 0; i < info.size; i++)
                  data[i] = data_ptr[i * info.strides[0]];''', '''              std::vector<unsigned char> data;
              data.reserve(info.size);
              for (py::ssize_t i = 0; i != info.size; ++i)
                  data.push_back(data_ptr[i * info.strides[0]]);'''))
refac('py-buffer-check', 'C25', (Y, '''              if (info.format != py::format_descriptor<unsigned char>::format() || info.ndim != 1)
                  throw std::runtime_error("Incompatible buffer format!");
''', '''              if (info.ndim != 1)
                  throw std::runtime_error("Incompatible buffer format!");
              if (info.format != "B")
                  throw std::runtime_error("Incompatible buffer format!");
'''))
refac('py-toint-locals', 'C25 C24', (Y, '''    auto obj = static_cast<PyObject*>(_PyLong_FromByteArray(data.data(),
            data.size(),
            !is_bigendian,
            is_signed));''', '''    const int little = is_bigendian ? 0 : 1;
    auto obj = static_cast<PyObject*>(_PyLong_FromByteArray(&data[0], data.size(), little, is_signed ? 1 : 0));'''))
def main():
    names=[a for a in sys.argv[1:] if not a.startswith('-')] or list(R)
    for n in names:
        props, edits=R[n]
        w='/tmp/refac.'+n
        shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        for d in ('include','src','bindings'): shutil.copytree('/repo/'+d, w+'/'+d)
        ok=True
        for f, old, new in edits:
            s=open(w+'/'+f).read()
            if old not in s: print(n, 'EDIT NOT FOUND in', f); ok=False; break
            s=s.replace(old, new, 1); open(w+'/'+f,'w').write(s)
        if not ok: continue
        if '-T' in sys.argv:
            r=subprocess.run('cp -a /repo/. %s.t/ && cp -a %s/src %s/include %s.t/ && cd %s.t && g++ -std=c++17 -O1 -w -Iinclude -Iinclude/public src/BigInteger.cpp src/BigIntegerCalculator/*.cpp $(find test* -name "*.cpp" | grep -v bench) -lgtest -lgtest_main -lpthread -o t.out && ./t.out 2>&1 | tail -3 | tr "\\n" " "; rm -rf %s.t'%((w,)*6),shell=True,capture_output=True,text=True)
            print(n, 'TESTS', (r.stdout+r.stderr[-300:])[-300:])
        pp = props.split() if '-A' not in sys.argv else [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
        for p in pp:
            t0=time.time()
            r=subprocess.run([sys.executable,'/verif/engine/check.py',p],env=dict(os.environ,VP_REPO=w),capture_output=True,text=True)
            print('%-18s %s exit %d %.0fs %s'%(n,p,r.returncode,time.time()-t0,'' if r.returncode==0 and 'undecided:' not in r.stdout else r.stdout.replace('\n',' | ')[:700]+r.stderr[-300:])); sys.stdout.flush()
        shutil.rmtree(w, ignore_errors=True)
if __name__=='__main__': main()
