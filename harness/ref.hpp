// The oracle: plane-based geometric algebra P(R*_{3,0,1}) over doubles, written
// from the definition (sixteen basis blades, products by bit arithmetic), with
// no code in common with the library.  Every coefficient carries, beside its
// value v, the value m the same formula has when every operand is replaced by
// its magnitude and every subtraction by an addition: single-precision
// evaluation in any order stays within a small multiple of 2^-24 * m.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>

namespace ref
{
struct D
{
    double v = 0, m = 0;
    D() = default;
    D(double x) : v(x), m(std::fabs(x)) {}
    D(double x, double mag) : v(x), m(mag) {}
};
inline D operator+(D a, D b) { return {a.v + b.v, a.m + b.m}; }
inline D operator-(D a, D b) { return {a.v - b.v, a.m + b.m}; }
inline D operator-(D a) { return {-a.v, a.m}; }
inline D operator*(D a, D b) { return {a.v * b.v, a.m * b.m}; }
// relative amplification of the denominator's own error is included
inline D operator/(D a, D b)
{
    double k = std::fabs(b.v) > 0 ? b.m / std::fabs(b.v) : 1;
    return {a.v / b.v, a.m / std::fabs(b.v) * k};
}
inline D sqrt(D a)
{
    double r = std::sqrt(a.v);
    return {r, r > 0 ? a.m / r : std::sqrt(a.m)};
}

// blade index: bit i set = e_i is a factor, in ascending order
inline int grade(int a) { return __builtin_popcount(a); }
// sign of e_a e_b brought to ascending order (without the metric)
inline int order_sign(int a, int b)
{
    int n = 0;
    for (int x = a >> 1; x; x >>= 1)
        n += __builtin_popcount(x & b);
    return n & 1 ? -1 : 1;
}
struct MV
{
    std::array<D, 16> c{};
    D& operator[](int i) { return c[i]; }
    D const& operator[](int i) const { return c[i]; }
};
struct Table
{
    int8_t gp[16][16];
    Table()
    {
        for (int a = 0; a != 16; ++a)
            for (int b = 0; b != 16; ++b)
                gp[a][b] = (a & b & 1) ? 0 : (int8_t)order_sign(a, b); // e0^2 = 0, ei^2 = 1
    }
};
inline const Table& table()
{
    static const Table t;
    return t;
}
enum Kind
{
    GP,
    EXT,
    DOT
};
inline MV product(MV const& a, MV const& b, Kind k)
{
    MV r;
    const Table& t = table();
    for (int i = 0; i != 16; ++i)
    {
        if (a[i].m == 0)
            continue;
        for (int j = 0; j != 16; ++j)
        {
            if (b[j].m == 0 || !t.gp[i][j])
                continue;
            int x = i ^ j;
            if (k == EXT && (i & j))
                continue;
            if (k == DOT && grade(x) != std::abs(grade(i) - grade(j)))
                continue;
            D p = a[i] * b[j];
            r[x] = t.gp[i][j] > 0 ? r[x] + p : r[x] - p;
        }
    }
    return r;
}
inline MV operator*(MV const& a, MV const& b) { return product(a, b, GP); }
inline MV operator^(MV const& a, MV const& b) { return product(a, b, EXT); }
inline MV operator|(MV const& a, MV const& b) { return product(a, b, DOT); }
inline MV operator+(MV a, MV const& b)
{
    for (int i = 0; i != 16; ++i)
        a[i] = a[i] + b[i];
    return a;
}
inline MV operator-(MV a, MV const& b)
{
    for (int i = 0; i != 16; ++i)
        a[i] = a[i] - b[i];
    return a;
}
inline MV scale(MV a, D s)
{
    for (int i = 0; i != 16; ++i)
        a[i] = a[i] * s;
    return a;
}
inline MV rev(MV a)
{
    for (int i = 0; i != 16; ++i)
        if ((grade(i) * (grade(i) - 1) / 2) & 1)
            a[i] = -a[i];
    return a;
}
// the blades of the library's documentation, with their sign against the
// ascending blade of the same index
struct Named
{
    int i, s;
};
constexpr Named ONE{0, 1}, E0{1, 1}, E1{2, 1}, E2{4, 1}, E3{8, 1}, E01{3, 1}, E02{5, 1}, E03{9, 1}, E23{12, 1},
    E31{10, -1}, E12{6, 1}, E123{14, 1}, E032{13, -1}, E013{11, 1}, E021{7, -1}, E0123{15, 1};
inline MV named(Named n, D x)
{
    MV r;
    r[n.i] = n.s > 0 ? x : -x;
    return r;
}
inline D get(MV const& a, Named n) { return n.s > 0 ? a[n.i] : -a[n.i]; }
// Poincare duality: exchanges the coefficients of complementary named blades
inline MV dual(MV const& a)
{
    static const Named p[8][2] = {{ONE, E0123}, {E0, E123}, {E1, E032}, {E2, E013}, {E3, E021}, {E01, E23}, {E02, E31}, {E03, E12}};
    MV r;
    for (auto& q : p)
    {
        r = r + named(q[0], get(a, q[1]));
        r = r + named(q[1], get(a, q[0]));
    }
    return r;
}
inline MV join(MV const& a, MV const& b) { return dual(dual(a) ^ dual(b)); }
inline MV sandwich(MV const& a, MV const& x) { return a * x * rev(a); }

// coefficient layout of each type letter of adapter_abi.h
inline std::vector<Named> const& layout(char t)
{
    static const std::vector<Named> P{E0, E1, E2, E3}, X{E123, E032, E013, E021}, L{E01, E02, E03, E23, E31, E12},
        I{E01, E02, E03}, B{E23, E31, E12}, R{ONE, E23, E31, E12}, M{ONE, E23, E31, E12, E01, E02, E03, E0123},
        U{ONE, E0123}, s{ONE}, none;
    switch (t)
    {
    case 'P': return P;
    case 'X':
    case 'D': return X;
    case 'L': return L;
    case 'I':
    case 'T': return I;
    case 'B': return B;
    case 'R': return R;
    case 'M': return M;
    case 'U': return U;
    case 's':
    case 'k': return s;
    }
    return none;
}
inline int width(char t)
{
    if (t >= '1' && t <= '9')
        return t - '0';
    return (int)layout(t).size();
}
inline MV lift(char t, const double* f)
{
    MV r;
    auto& l = layout(t);
    for (size_t i = 0; i != l.size(); ++i)
        r = r + named(l[i], D(f[i]));
    if (t == 'T')
        r[0] = D(1.0); // the scalar of a translator is the constant one
    return r;
}
inline MV lift(char t, const float* f)
{
    double d[16];
    for (int i = 0; i != width(t); ++i)
        d[i] = f[i];
    return lift(t, d);
}
// exponential of a bivector by scaling and squaring of its Taylor series
inline MV one()
{
    MV r;
    r[0] = D(1.0);
    return r;
}
inline MV exp_series(MV const& b)
{
    double n = 0;
    for (auto& d : b.c)
        n = std::max(n, std::fabs(d.v));
    int k = 0;
    while (n > 0.25)
    {
        n *= 0.5;
        ++k;
    }
    MV x = scale(b, D(std::ldexp(1.0, -k)));
    MV term = one(), sum = one();
    for (int i = 1; i <= 14; ++i)
    {
        term = scale(term * x, D(1.0 / i));
        sum  = sum + term;
    }
    for (int i = 0; i != k; ++i)
        sum = sum * sum;
    for (auto& d : sum.c)
        d.m = std::fabs(d.v);
    return sum;
}
} // namespace ref
