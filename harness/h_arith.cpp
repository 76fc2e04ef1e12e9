// C17 SpVecGF2, C18 fp / primes / SpVecFP.
#include "common.hpp"
#include <cmath>
#include <cassert>
#include <stdexcept>
#include <iterator>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/tuple/tuple.hpp>
#include <parmcb/spvecgf2.hpp>
#include <parmcb/fp.hpp>
#include <parmcb/spvecfp.hpp>
#include <parmcb/arithmetic.hpp>
typedef boost::multiprecision::cpp_int Big;
// ---------------------------------------------------------------- C17
typedef uint64_t U;
typedef parmcb::SpVecGF2<U> V2;
struct Dense { std::vector<bool> b; };
static std::vector<U> coord;          // distinct symbolic coordinates, increasing
static void check_vec(const V2 &v, const Dense &d, const char *what) {
    size_t cnt = 0; for (bool x : d.b) cnt += x;
    if (v.size() != cnt) symx_failf("size", "size() is %ld, the dense vector has %ld ones", v.size(), cnt);
    size_t j = 0; U prev = 0; bool first = true;
    for (auto it = v.begin(); it != v.end(); ++it) {
        while (j < d.b.size() && !d.b[j]) j++;
        if (j >= d.b.size()) symx_fail("content", "more coordinates listed than are 1");
        symx_assert_ieq((int64_t)*it, (int64_t)coord[j], "content"); j++;
        if (!first) symx_assert_ile((int64_t)prev + 1, (int64_t)*it, "not-increasing");
        prev = *it; first = false;
    }
    while (j < d.b.size() && !d.b[j]) j++;
    if (j < d.b.size()) symx_fail("content", "a coordinate that is 1 is not listed");
}
static void harness17(const Cfg &c) {
    int m = c.i("m", 3), steps = c.i("steps", 1), regs = c.i("regs", 2);
    coord.assign(m, 0);
    int64_t hi = 1ll << 40;
    for (int i = 0; i < m; i++) coord[i] = symx_int("coord", 0, hi);
    // any insertion order is covered: the harness only needs them sorted and distinct
    for (int i = 0; i + 1 < m; i++) symx_assume(coord[i] < coord[i + 1]);
    std::vector<V2> v(regs); std::vector<Dense> d(regs);
    for (int r = 0; r < regs; r++) {
        d[r].b.assign(m, false);
        for (int i = 0; i < m; i++) if (symx_choice("bit", 2)) d[r].b[i] = true;
        int how = symx_choice("how", 3);
        if (how == 0) { std::set<U> s; for (int i = m - 1; i >= 0; i--) if (d[r].b[i]) s.insert(coord[i]); v[r] = V2(s); }
        else if (how == 1) { V2 t; for (int i = m - 1; i >= 0; i--) if (d[r].b[i]) t += V2(coord[i]); v[r] = t; }
        else { V2 t; for (int i = 0; i < m; i++) if (d[r].b[i]) t.add(coord[i]); v[r] = t; }
    }
    for (int s = 0; s < steps; s++) {
        int op = symx_choice("op", 9), x = symx_choice("x", regs), y = symx_choice("y", regs);
        Dense sum; sum.b.resize(m); for (int i = 0; i < m; i++) sum.b[i] = d[x].b[i] != d[y].b[i];
        switch (op) {
        case 0: v[x] += v[y]; d[x] = sum; break;
        case 1: { V2 t = v[x] + v[y]; check_vec(v[x], d[x], "operand"); check_vec(v[y], d[y], "operand"); v[y] = t; d[y] = sum; break; }
        case 2: v[x] = v[y]; d[x] = d[y]; break;
        case 3: { V2 t(v[y]); t += v[x]; check_vec(v[y], d[y], "copied"); v[x] = std::move(t); d[x] = sum; break; }
        case 4: { Dense old = d[y], none; none.b.assign(m, false); V2 t(std::move(v[y])); check_vec(t, old, "moved"); v[y].clear(); d[y] = none; v[x] = t; d[x] = old; break; }
        case 5: v[x].clear(); d[x].b.assign(m, false); break;
        case 6: { std::set<U> s; for (int i = 0; i < m; i++) if (d[y].b[i]) s.insert(coord[i]); int p = v[x] * s, q = 0; for (int i = 0; i < m; i++) q ^= d[x].b[i] && d[y].b[i]; if (p != q) symx_failf("dot-set", "product with a set is %ld, parity %ld", p, q); break; }
        case 7: { int p = v[x] * v[y], q = 0; for (int i = 0; i < m; i++) q ^= d[x].b[i] && d[y].b[i]; if (p != q) symx_failf("dot", "product is %ld, parity %ld", p, q); break; }
        case 8: { int i = symx_choice("i", m); v[x] = V2(coord[i]); d[x].b.assign(m, false); d[x].b[i] = true; break; }
        }
        for (int r = 0; r < regs; r++) check_vec(v[r], d[r], "register");
    }
    for (int x = 0; x < regs; x++) for (int y = 0; y < regs; y++) {
        int p = v[x] * v[y], q = 0; for (int i = 0; i < m; i++) q ^= d[x].b[i] && d[y].b[i];
        if (p != q) symx_failf("dot", "product is %ld, parity %ld", p, q);
    }
    symx_flush("C17");
    symx_reached("C17");
}
// ---------------------------------------------------------------- C18
template<class T> static int64_t back(const T &x) { return (int64_t)x; }
template<class T> static void gcd_check(const Cfg &c) {
    int64_t N = c.i("N", 30);
    auto L = [&](const char *k, int64_t d) { return c.has(k) ? (int64_t)atoll(c.s(k).c_str()) : d; };
    int64_t a0 = symx_int("a", L("alo", -N), L("ahi", N)), b0 = symx_int("b", L("blo", -N), L("bhi", N));
    if (c.has("lim")) N = L("lim", N);
    symx_assume(a0 != 0 || b0 != 0);
    T a(a0), b(b0), x(77), y(-55);
    int64_t g = back<T>(parmcb::fp<T>::ext_gcd(a, b, x, y));
    symx_assert_ile(1, g, "gcd-positive");
    symx_flush("g");
    int64_t ix = symx_split(back<T>(x)), iy = symx_split(back<T>(y));
    if (ix > 4 * N || ix < -4 * N || iy > 4 * N || iy < -4 * N) symx_failf("bezout", "absurd coefficients %ld %ld", ix, iy);
    symx_assert_ieq(a0 * ix + b0 * iy, g, "bezout");
    symx_flush("bezout");
    if (a0 % g != 0 || b0 % g != 0) symx_fail("not-divisor", "the returned gcd does not divide both arguments");
    symx_reached("gcd");
}
// values beyond 64 bits: a = a0 * 2^sh + 1 (or + 0), everything checked in the type itself
template<class T> static void wide_check(const Cfg &c) {
    auto L = [&](const char *k) { return (int64_t)atoll(c.s(k).c_str()); };
    int64_t a0 = symx_split(symx_int("a", L("alo"), L("ahi"))), b0 = symx_split(symx_int("b", L("blo"), L("bhi")));
    int odd = symx_choice("plus", 3);
    T f(1); for (int i = 0; i < c.i("sh"); i++) f = f * 2;
    T A = T(a0) * f + (odd & 1), B = T(b0) * f + (odd >> 1);
    if (c.has("small")) B = T(b0);
    if (A == 0 && B == 0) return;
    T u = A < 0 ? T(-A) : A, v = B < 0 ? T(-B) : B;
    while (v != 0) { T t = u % v; u = v; v = t; }
    T a(A), b(B), x(7), y(-5), zero(0);
    T g = parmcb::fp<T>::ext_gcd(a, b, x, y);
    if (g != u) symx_fail("wide-gcd", "the returned gcd is wrong");
    T r = A * x + B * y;
    if (r != g) symx_fail("wide-bezout", "the coefficients do not give the gcd");
    if (B > 1) {
        T a2(A), b2(B), inv(0); bool thrown = false;
        try { inv = parmcb::fp<T>::get_mult_inverse(a2, b2); } catch (...) { thrown = true; }
        if (thrown != (u != 1)) symx_fail("wide-inverse", thrown ? "threw although the argument is invertible" : "no exception although there is no inverse");
        if (!thrown) { T z = (A * inv - 1) % B; if (z != 0) symx_fail("wide-inverse", "not the inverse"); }
    }
    symx_reached("wide");
}
// is_prime for concrete candidates of a window (chosen by the solver): larger squares
template<class T> static void primewin_check(const Cfg &c) {
    int64_t mid = atoll(c.s("mid").c_str()), d = c.i("d", 8);
    int64_t p0 = symx_split(symx_int("p", mid - d, mid + d));
    bool comp = p0 % 2 == 0 && p0 != 2;
    for (int64_t q = 3; q * q <= p0 && !comp; q += 2) if (p0 % q == 0) comp = true;
    T p(p0);
    if (parmcb::primes<T>::is_prime(p) == comp) symx_failf("is-prime", "%ld: composite is %ld, reported the other way", p0, (int64_t)comp);
    symx_reached("prime");
}
template<class T> static void inv_check(const Cfg &c) {
    int64_t N = c.i("N", 30);
    auto L = [&](const char *k, int64_t d) { return c.has(k) ? (int64_t)atoll(c.s(k).c_str()) : d; };
    int64_t a0 = symx_int("a", L("alo", -N), L("ahi", N)), p0 = symx_int("p", L("blo", 1), L("bhi", N));
    if (c.has("lim")) N = L("lim", N);
    T a(a0), p(p0);
    bool thrown = false; int64_t x = 0;
    try { x = back<T>(parmcb::fp<T>::get_mult_inverse(a, p)); } catch (...) { thrown = true; }
    // gcd(a,p) = 1 iff no prime q <= N divides both
    int64_t u = a0 < 0 ? -a0 : a0, v = p0;
    while (v != 0) { int64_t t = u % v; u = v; v = t; }
    bool coprime = u == 1;
    if (thrown && coprime) symx_fail("inverse-throws", "threw although the argument is invertible");
    if (!thrown && !coprime) symx_fail("inverse-no-throw", "no exception although gcd(a,p) != 1");
    if (!thrown) {
        x = symx_split(x);
        if (x > 4 * N || x < -4 * N) symx_failf("inverse", "absurd inverse %ld", x);
        if ((symx_split(a0) * x - 1) % symx_split(p0) != 0) symx_failf("inverse", "returned %ld, which is not the inverse", x);
    }
    symx_reached("inv");
}
template<class T> static void prime_check(const Cfg &c) {
    int64_t lo = c.i("lo", 2), hi = c.i("hi", 1000);
    int64_t p0 = symx_int("p", lo, hi);
    T p(p0);
    bool r = parmcb::primes<T>::is_prime(p);
    bool comp = false;
    for (int64_t d = 2; d * d <= hi && !comp; d++) { if (d * d > p0) break; if (p0 % d == 0) comp = true; }
    if (r == comp) symx_fail("is-prime", r ? "a composite number is reported prime" : "a prime number is reported composite");
    symx_reached("prime");
}
struct Term { int64_t idx, val; };   // dense model: distinct coordinates in increasing order, integer values
template<class P> static void check_fp(const parmcb::SpVecFP<P> &v, const std::vector<int64_t> &dense, const std::vector<int64_t> &coord, int64_t p) {
    auto it = v.begin();
    int64_t n = 0;
    for (size_t i = 0; i < dense.size(); i++) {
        if (dense[i] % p == 0) continue;
        if (it == v.end()) symx_fail("fp-missing", "a non-zero coordinate is not listed");
        symx_assert_ieq((int64_t)boost::get<0>(*it), coord[i], "fp-index");
        int64_t val = back<P>(boost::get<1>(*it));
        symx_assert_ile(1, val, "fp-range"); symx_assert_ile(val, p - 1, "fp-range");
        if ((dense[i] - val) % p != 0) symx_fail("fp-value", "a coordinate differs from the dense computation");
        ++it; n++;
    }
    if (it != v.end()) symx_fail("fp-extra", "a zero coordinate is listed");
    if ((int64_t)v.size() != n) symx_fail("fp-size", "size() differs from the number of non-zero coordinates");
    if (back<P>(v.prime()) != p) symx_fail("fp-prime", "the modulus changed");
}
template<class P> static void spvec_check(const Cfg &c) {
    static const int primes[] = {2, 3, 5, 7, 11, 13, 17, 31, 101, 257};
    int m = c.i("m", 2);
    int64_t A = c.i("A", 1000000);
    int64_t p = c.has("p") ? c.i("p") : primes[symx_choice("p", 5)];
    typedef parmcb::SpVecFP<P> V;
    std::vector<int64_t> coord(m);
    for (int i = 0; i < m; i++) coord[i] = symx_int("coord", 0, 1ll << 40);
    for (int i = 0; i + 1 < m; i++) symx_assume(coord[i] < coord[i + 1]);
    std::string op = c.s("op");
    auto make = [&](std::vector<int64_t> &d) {       // any vector: sum of multiples of unit vectors
        V v{P(p)}; d.assign(m, 0);
        for (int i = m - 1; i >= 0; i--) if (symx_choice("bit", 2)) {
            V u{P(p)}; u = (std::size_t)coord[i];
            d[i] = symx_int("coef", -A, A);
            v += u * P(d[i]);
        }
        return v;
    };
    std::vector<int64_t> d, e;
    V v = make(d);
    check_fp<P>(v, d, coord, p);
    if (op == "add") {
        V w = make(e);
        V s = v + w;
        std::vector<int64_t> f(m); for (int i = 0; i < m; i++) f[i] = d[i] + e[i];
        check_fp<P>(s, f, coord, p); check_fp<P>(v, d, coord, p);
        V cp(w); cp += v; check_fp<P>(cp, f, coord, p);
        V as{P(3)}; as = s; check_fp<P>(as, f, coord, p);
        as = std::move(cp); check_fp<P>(as, f, coord, p);
        as += as; for (auto &x : f) x *= 2; check_fp<P>(as, f, coord, p);
    } else if (op == "scale") {
        int64_t k = symx_int("k", c.i("klo", -7), c.i("khi", 7));
        k = symx_split(k);
        V s = v * P(k);
        for (auto &x : d) x *= k;
        check_fp<P>(s, d, coord, p);
        v *= P(k); check_fp<P>(v, d, coord, p);
    } else if (op == "dot") {
        V w = make(e);
        int64_t r = back<P>(v * w), s = back<P>(w * v);
        symx_assert_ile(0, r, "dot-range"); symx_assert_ile(r, p - 1, "dot-range");
        if (r != s) symx_fail("dot-symmetric", "dot product is not symmetric");
        int64_t x = 0; for (int i = 0; i < m; i++) x += (((symx_split(d[i] % p) + p) % p) * ((symx_split(e[i] % p) + p) % p));
        if ((x - r) % p != 0) symx_fail("dot-value", "dot product differs from the dense computation");
    }
    symx_flush("C18");
    symx_reached("spvec");
}
// a history of operations on three vectors over m coordinates against the dense computation
template<class P> static void hist_check(const Cfg &c) {
    int m = c.i("m", 3), steps = c.i("steps", 3), regs = 3;
    int64_t p = c.i("p", 5), A = c.i("A", 1000);
    typedef parmcb::SpVecFP<P> V;
    std::vector<int64_t> coord(m); for (int i = 0; i < m; i++) coord[i] = 3 * i * i + 1;
    unsigned z = 362436069u + 7919u * c.i("ws", 1); for (int i = 0; i < 9; i++) xs(z);
    std::vector<V> v; std::vector<std::vector<int64_t>> d(regs, std::vector<int64_t>(m, 0));
    int64_t sym = symx_int("coef", -A, A);
    for (int r = 0; r < regs; r++) {
        V x{P(p)};
        for (int i = m - 1; i >= 0; i--) {
            int64_t k = r == 0 && i == 0 ? sym : (int64_t)(xs(z) % 5) - 2;
            if (!(r == 0 && i == 0) && !k) continue;
            V u{P(p)}; u = (std::size_t)coord[i]; x += u * P(k); d[r][i] = k;
        }
        v.push_back(x);
    }
    for (int s = 0; s < steps; s++) {
        int op = symx_choice("op", 5), x = symx_choice("x", regs), y = symx_choice("y", regs);
        switch (op) {
        case 0: v[x] += v[y]; for (int i = 0, q = 0; i < m; i++, q++) d[x][i] += d[y][i]; break;
        case 1: { int k = (int)(xs(z) % 9) - 4; v[x] *= P(k); for (auto &t : d[x]) t *= k; break; }
        case 2: v[x] = v[y]; d[x] = d[y]; break;
        case 3: { V t = v[x] * P(-1) + v[y]; std::vector<int64_t> f(m); for (int i = 0; i < m; i++) f[i] = d[y][i] - d[x][i]; v[x] = std::move(t); d[x] = f; break; }
        case 4: v[x] = (std::size_t)coord[m - 1]; d[x].assign(m, 0); d[x][m - 1] = 1; break;
        }
        check_fp<P>(v[x], d[x], coord, p);
    }
    for (int x = 0; x < regs; x++) check_fp<P>(v[x], d[x], coord, p);
    symx_flush("hist");
    symx_reached("hist");
}
template<class T> static void harness18(const Cfg &c) {
    std::string f = c.s("f");
    if (f == "gcd") gcd_check<T>(c);
    else if (f == "inv") inv_check<T>(c);
    else if (f == "prime") prime_check<T>(c);
    else if (f == "wide") wide_check<T>(c);
    else if (f == "primewin") primewin_check<T>(c);
    else if (f == "hist") hist_check<T>(c);
    else spvec_check<T>(c);
}
extern "C" void symx_harness(const char *config) {
    Cfg c(config);
    if (c.i("prop") == 17) { harness17(c); return; }
    std::string t = c.s("t", "long");
    if (t == "long") harness18<int64_t>(c);
    else if (t == "int") harness18<int>(c);
    else harness18<Big>(c);
}
