// instantiates the inline part of the public header, so that it is part of the analysed program
#include <bigintegercpp/BigInteger.h>
#include <functional>
extern "C" {
bool vp_lt(const BigInteger& a, const BigInteger& b) { return a < b; }
bool vp_gt(const BigInteger& a, const BigInteger& b) { return a > b; }
bool vp_le(const BigInteger& a, const BigInteger& b) { return a <= b; }
bool vp_ge(const BigInteger& a, const BigInteger& b) { return a >= b; }
bool vp_eq(const BigInteger& a, const BigInteger& b) { return a == b; }
bool vp_ne(const BigInteger& a, const BigInteger& b) { return a != b; }
int vp_sign_internal(const BigInteger& a) { return a.sign_internal(); }
}
