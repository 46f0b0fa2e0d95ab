// Generators.  All of them draw from the choice source only; choice 0 is the
// simplest value everywhere.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include <cfloat>

namespace gen
{
using pbt::Src;

// numeric literals harvested from the sources under test (see dict.py)
inline std::vector<float> g_dict;
inline std::vector<int> g_idict;

inline double unit(Src& s) // [-1, 1], 2^-20 steps, 0 first
{
    uint32_t k = s.draw(2097153);
    double x   = (double)((k + 1) / 2) / 1048576.0;
    return (k & 1) ? x : -x;
}
inline double pos(Src& s) { return s.draw(1048577) / 1048576.0; } // [0,1]

inline float any(Src& s)
{
    switch (s.draw(20))
    {
    case 0: return 0.f;
    case 1: return 1.f;
    case 2: return -1.f;
    case 3:
    case 4: return (float)s.range(-8, 8);
    case 5: return (float)s.range(-32, 32) * 0.25f;
    case 6:
    case 7:
    case 8:
    case 9: return (float)unit(s);
    case 10:
    case 11:
    case 12: return (float)(unit(s) * 10);
    case 13:
    case 14: return (float)(unit(s) * 1000);
    case 15:
    case 16: return (float)(unit(s) * std::ldexp(1.0, s.range(-10, 10)));
    case 17: return (float)(unit(s) * std::ldexp(1.0, s.range(-20, 17)));
    default:
        if (g_dict.empty())
            return 2.f;
        {
            float f = g_dict[s.draw((uint32_t)g_dict.size())];
            switch (s.draw(6))
            {
            case 1: f = -f; break;
            case 2: f = std::nextafterf(f, 1e30f); break;
            case 3: f = std::nextafterf(f, -1e30f); break;
            case 4: f = (float)(f * (1 + 0.25 * unit(s))); break;
            case 5: f = -(float)(f * (1 + 0.25 * unit(s))); break;
            }
            return f;
        }
    }
}
// moderate values: no magnitude under 2^-10 or over 1000 except zero
inline float mild(Src& s)
{
    switch (s.draw(8))
    {
    case 0: return 0.f;
    case 1: return (float)s.range(-4, 4);
    case 2: return (float)s.range(-16, 16) * 0.25f;
    case 3:
    case 4: return (float)unit(s);
    case 5:
    case 6: return (float)(unit(s) * 10);
    default: return (float)(unit(s) * 100);
    }
}
inline float nonzero(Src& s) // bounded away from 0
{
    float f;
    switch (s.draw(6))
    {
    case 0: return 1.f;
    case 1: return -1.f;
    case 2: f = (float)s.range(1, 8); break;
    case 3: f = (float)(0.1 + 0.9 * pos(s)); break;
    case 4: f = (float)(1 + 99 * pos(s)); break;
    default: f = (float)std::ldexp(1 + pos(s), s.range(-8, 8)); break;
    }
    return s.draw(2) ? -f : f;
}

// n coefficients with varied structure
inline void coefs(Src& s, float* f, int n)
{
    switch (s.draw(10))
    {
    case 0: // one basis element
    {
        for (int i = 0; i != n; ++i)
            f[i] = 0;
        int k = (int)s.draw(n);
        f[k]  = s.draw(2) ? any(s) : 1.f;
        break;
    }
    case 1: // sparse
        for (int i = 0; i != n; ++i)
            f[i] = s.draw(2) ? any(s) : 0.f;
        break;
    case 2: // all of one magnitude
    {
        float a = any(s);
        for (int i = 0; i != n; ++i)
            f[i] = s.draw(2) ? -a : a;
        break;
    }
    case 3: // small integers
        for (int i = 0; i != n; ++i)
            f[i] = (float)s.range(-5, 5);
        break;
    case 4:
    case 5: // uniform, one scale
    {
        float k = s.draw(2) ? std::ldexp(1.f, s.range(-12, 12)) : 1.f;
        for (int i = 0; i != n; ++i)
            f[i] = (float)(unit(s)) * k;
        break;
    }
    case 6: // one coefficient zero, the others generic
    {
        int k = (int)s.draw(n);
        for (int i = 0; i != n; ++i)
            f[i] = i == k ? 0.f : (float)(unit(s) * 4);
        break;
    }
    default:
        for (int i = 0; i != n; ++i)
            f[i] = any(s);
    }
}

inline void unit3(Src& s, double* v)
{
    switch (s.draw(8))
    {
    case 0:
    {
        int k = (int)s.draw(3);
        v[0] = v[1] = v[2] = 0;
        v[k]                = s.draw(2) ? -1 : 1;
        return;
    }
    case 1: // in a coordinate plane or diagonal
        for (int i = 0; i != 3; ++i)
            v[i] = s.range(-1, 1);
        break;
    case 2: // nearly axis-aligned
    {
        int k = (int)s.draw(3);
        for (int i = 0; i != 3; ++i)
            v[i] = unit(s) * std::ldexp(1.0, -s.range(3, 18));
        v[k] = s.draw(2) ? -1 : 1;
        break;
    }
    case 3: // two components alike
    {
        int a = (int)s.draw(3), b = (a + 1 + (int)s.draw(2)) % 3;
        for (int i = 0; i != 3; ++i)
            v[i] = unit(s);
        v[b] = s.draw(2) ? v[a] : -v[a];
        break;
    }
    case 4: // small integers, one of them often zero
        for (int i = 0; i != 3; ++i)
            v[i] = s.range(-4, 4);
        if (s.draw(2))
            v[s.draw(3)] = 0;
        break;
    default:
        for (int i = 0; i != 3; ++i)
            v[i] = unit(s);
    }
    double n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
    if (n < 0.05)
    {
        v[0] = v[1] = 0;
        v[2]        = 1;
        return;
    }
    for (int i = 0; i != 3; ++i)
        v[i] /= n;
}
// any axis direction with its magnitude, not zero
inline void axis3(Src& s, double* v)
{
    unit3(s, v);
    double k = std::fabs((double)nonzero(s));
    switch (s.draw(6))
    {
    case 0: k = std::ldexp(k, s.range(-36, 36)); break;
    case 1:
    {
        double d = std::fabs((double)any(s)); // a literal of the code among others
        if (d > 1e-12 && d < 1e12)
            k = d * (s.draw(2) ? 1 : 0.3 + pos(s));
        break;
    }
    }
    for (int i = 0; i != 3; ++i)
        v[i] *= k;
}
inline void vec3(Src& s, double* v, double range = 10)
{
    switch (s.draw(8))
    {
    case 0: v[0] = v[1] = v[2] = 0; return;
    case 1:
        for (int i = 0; i != 3; ++i)
            v[i] = s.range(-4, 4);
        return;
    case 2:
    {
        double k = range * std::ldexp(1.0, -s.range(0, 12));
        for (int i = 0; i != 3; ++i)
            v[i] = unit(s) * k;
        return;
    }
    case 3:
        for (int i = 0; i != 3; ++i)
            v[i] = s.draw(2) ? unit(s) * range : 0;
        return;
    case 4: // two components alike
    {
        int a = (int)s.draw(3), b = (a + 1 + (int)s.draw(2)) % 3;
        for (int i = 0; i != 3; ++i)
            v[i] = unit(s) * range;
        v[b] = s.draw(2) ? v[a] : -v[a];
        return;
    }
    case 5:
        if (s.draw(4) == 0) // far away
        {
            for (int i = 0; i != 3; ++i)
                v[i] = unit(s) * range * 600;
            return;
        }
        // fall through
    default:
        for (int i = 0; i != 3; ++i)
            v[i] = unit(s) * range;
    }
}
constexpr double PI = 3.14159265358979323846;
// half-angle in [0, lim]; special angles are frequent
inline double half_angle(Src& s, double lim)
{
    double a;
    switch (s.draw(9))
    {
    case 0: a = 0; break;
    case 1:
    {
        static const double k[] = {PI / 4, PI / 2, PI / 6, PI / 3, PI / 8, 3 * PI / 4, PI, 2 * PI / 3};
        a = k[s.draw(8)];
        break;
    }
    case 2: // near a quarter turn of the half angle
        a = PI / 2 + unit(s) * std::ldexp(1.0, -s.range(2, 24));
        break;
    case 3: // tiny
        a = (0.5 + 0.5 * pos(s)) * std::ldexp(1.0, -s.range(3, 22));
        break;
    case 4: // near the end of the range
        a = lim * (1 - pos(s) * std::ldexp(1.0, -s.range(3, 12)));
        break;
    default: a = pos(s) * lim;
    }
    return a < 0 ? 0 : a > lim ? lim : a;
}

// A rigid motion whose parameters are known: rotation by 2u about the line
// through c with direction n, translation 2w along it (or plain translation).
struct Screw
{
    double u = 0, n[3] = {0, 0, 1}, c[3] = {0, 0, 0}, w = 0, t[3] = {0, 0, 0};
    bool pure_translation = false;
    ref::MV log; // bivector in double, exp(log) = motor
};
inline ref::MV biv(double e01, double e02, double e03, double e23, double e31, double e12)
{
    double f[6] = {e01, e02, e03, e23, e31, e12};
    return ref::lift('L', f);
}
// now and then the figure lies far from the origin, or moves far
inline double spread(Src& s, double range)
{
    return s.chance(1, 10) ? std::ldexp(range, s.range(1, 10)) : range;
}
inline Screw screw(Src& s, double lim_u, double range = 10)
{
    Screw q;
    range    = spread(s, range);
    int kind = (int)s.draw(8);
    if (kind == 0)
    {
        q.pure_translation = true;
        vec3(s, q.t, range);
        q.log = biv(q.t[0], q.t[1], q.t[2], 0, 0, 0);
        return q;
    }
    q.u = half_angle(s, lim_u);
    unit3(s, q.n);
    if (kind != 1)
        vec3(s, q.c, range);
    if (kind != 1 && kind != 2)
        q.w = s.draw(3) == 0 ? 0 : unit(s) * range * (s.draw(2) ? 1 : std::ldexp(1.0, -s.range(1, 12)));
    // line through c with direction n: e23.. part n, ideal part from c: the
    // translation of the origin axis by c
    ref::MV axis = biv(0, 0, 0, q.n[0], q.n[1], q.n[2]);
    double tt[3] = {-0.5 * q.c[0], -0.5 * q.c[1], -0.5 * q.c[2]};
    ref::MV T    = ref::lift('T', tt);
    ref::MV l    = ref::sandwich(T, axis);
    ref::MV I    = ref::named(ref::E0123, 1.0);
    q.log        = ref::scale(l, q.u) + ref::scale(l * I, q.w);
    return q;
}
// closed-form motor of a screw
inline ref::MV motor_of(Screw const& q)
{
    if (q.pure_translation)
        return ref::lift('T', q.t);
    ref::MV axis = biv(0, 0, 0, q.n[0], q.n[1], q.n[2]);
    double tt[3] = {-0.5 * q.c[0], -0.5 * q.c[1], -0.5 * q.c[2]};
    ref::MV T    = ref::lift('T', tt);
    ref::MV l    = ref::sandwich(T, axis);
    ref::MV I    = ref::named(ref::E0123, 1.0);
    ref::MV r    = ref::scale(ref::one(), std::cos(q.u)) + ref::scale(l, std::sin(q.u));
    ref::MV t    = ref::one() + ref::scale(l * I, q.w);
    return r * t;
}
inline void values(ref::MV const& a, char t, float* f)
{
    auto& l = ref::layout(t);
    for (size_t i = 0; i != l.size(); ++i)
        f[i] = (float)ref::get(a, l[i]).v;
}
// the same for inputs: the cosine of a quarter turn and the like are zero
inline void lower(ref::MV const& a, char t, float* f)
{
    values(a, t, f);
    for (int i = 0; i != ref::width(t); ++i)
        if (std::fabs(f[i]) < 1e-14f)
            f[i] = 0;
}
inline ref::MV clean(ref::MV a) // magnitudes := |values|
{
    for (auto& d : a.c)
        d.m = std::fabs(d.v);
    return a;
}
// four values of which some are equal, opposite, zero or integers, made unit
inline void unit4_special(Src& s, double* f, double lim_u)
{
    bool ints = s.draw(2);
    for (int i = 0; i != 4; ++i)
        f[i] = ints ? s.range(-3, 3) : unit(s);
    for (int q = 1 + (int)s.draw(2); q--;)
    {
        int a = (int)s.draw(4), b = (int)s.draw(4);
        f[b] = a == b ? 0 : s.draw(2) ? f[a] : -f[a];
    }
    double n = std::sqrt(f[0] * f[0] + f[1] * f[1] + f[2] * f[2] + f[3] * f[3]);
    if (n < 0.05)
    {
        f[0] = f[1] = f[2] = f[3] = 0.5;
        n = 1;
    }
    if (f[0] / n < std::cos(lim_u))
        n = -n;
    for (int i = 0; i != 4; ++i)
        f[i] = f[i] / n + 0.0;
}
// A unit motor whose coefficients coincide in ways a random screw's do not.
inline bool unit_motor_special(Src& s, float* out, Screw& q, double lim_u)
{
    double f[8];
    unit4_special(s, f, lim_u);
    double sn = std::sqrt(f[1] * f[1] + f[2] * f[2] + f[3] * f[3]);
    double range = spread(s, 4);
    for (int i = 4; i != 8; ++i)
        switch (s.draw(7))
        {
        case 0: f[i] = 0; break;
        case 1: f[i] = f[s.draw(i)]; break;
        case 2: f[i] = -f[s.draw(i)]; break;
        case 3: f[i] = s.range(-4, 4); break;
        default: f[i] = unit(s) * range;
        }
    if (sn < 1e-3)
        return false;
    // one of the coefficients of the ideal part follows from the others
    int k = (int)s.draw(4);
    for (int j = 0; j != 4 && std::fabs(f[(k + 1) & 3]) < 0.1; ++j)
        k = (k + 1) & 3;
    const int ideal = 4 + k;
    f[ideal]        = 0;
    ref::MV m       = ref::lift('M', f);
    double g[8]     = {};
    for (int i = 0; i != 4; ++i)
        g[i] = f[i];
    g[ideal]     = 1;
    ref::MV unit = ref::lift('M', g);
    double c0 = (m * ref::rev(m))[15].v, c1 = (unit * ref::rev(unit))[15].v;
    if (std::fabs(c1) < 0.05)
        return false;
    f[ideal] = -c0 / c1;
    q        = Screw{};
    q.u      = std::atan2(sn, f[0]);
    for (int i = 0; i != 3; ++i)
        q.n[i] = f[1 + i] / sn;
    q.w          = -f[7] / sn;
    ref::MV l0   = biv(0, 0, 0, q.n[0], q.n[1], q.n[2]);
    ref::MV l0I  = l0 * ref::named(ref::E0123, 1.0);
    ref::MV idl  = ref::scale(biv(f[4], f[5], f[6], 0, 0, 0) + ref::scale(l0I, -q.w * f[0]), 1 / sn);
    q.log        = ref::scale(l0 + idl, q.u) + ref::scale(l0I, q.w);
    lower(ref::lift('M', f), 'M', out);
    return true;
}
// unit motor (either sign)
inline Screw unit_motor(Src& s, float* f, double lim_u = PI, double range = 10)
{
    Screw q;
    if (s.chance(1, 3) && unit_motor_special(s, f, q, lim_u))
        return q;
    q         = screw(s, lim_u, range);
    ref::MV m = motor_of(q);
    lower(m, 'M', f);
    return q;
}
inline void unit_rotor(Src& s, float* f, double lim_u = PI)
{
    double d[4];
    if (s.chance(1, 4))
        unit4_special(s, d, lim_u);
    else
    {
        double u = half_angle(s, lim_u), n[3];
        unit3(s, n);
        d[0] = std::cos(u);
        for (int i = 0; i != 3; ++i)
            d[1 + i] = std::sin(u) * n[i];
    }
    for (int i = 0; i != 4; ++i)
        f[i] = std::fabs(d[i]) < 1e-14 ? 0.f : (float)d[i];
}
// Euclidean line through a point, unit direction unless scaled
inline void euclid_line(Src& s, float* f, bool unit_len = true, double range = 10)
{
    double n[3], c[3];
    unit3(s, n);
    vec3(s, c, range);
    double tt[3] = {-0.5 * c[0], -0.5 * c[1], -0.5 * c[2]};
    ref::MV l    = ref::sandwich(ref::lift('T', tt), biv(0, 0, 0, n[0], n[1], n[2]));
    if (!unit_len)
        l = ref::scale(l, (double)nonzero(s));
    lower(l, 'L', f);
}
// Coincidences between coefficients which independent draws do not produce.
// three: offsets of the Euclidean vectors among the coefficients
inline float coincide(Src& s, const float* f, int n)
{
    float x = f[s.draw(n)];
    switch (s.draw(6))
    {
    case 0: return x;
    case 1: return -x;
    case 2: return x * 2;
    case 3: return x * -0.5f;
    case 4: return std::nextafterf(x, s.draw(2) ? 1e30f : -1e30f);
    default: return x + f[s.draw(n)];
    }
}
inline void special(Src& s, float* f, int n, std::vector<int> const& three)
{
    for (int q = 1 + (int)s.draw(3); q--;)
        switch (s.draw(12))
        {
        case 0:
        case 1: f[s.draw(n)] = 0; break;
        case 2: f[s.draw(n)] = s.draw(2) ? 1.f : -1.f; break;
        case 3:
        {
            float v      = coincide(s, f, n);
            f[s.draw(n)] = v;
            break;
        }
        case 4: // a vanishing vector
            if (!three.empty())
            {
                float* v = f + three[s.draw((uint32_t)three.size())];
                v[0] = v[1] = v[2] = 0;
            }
            break;
        case 5: // exactly orthogonal vectors
        case 6: // parallel or equal ones
            if (three.size() >= 2)
            {
                int a = (int)s.draw((uint32_t)three.size()), b = (int)s.draw((uint32_t)three.size() - 1);
                float *x = f + three[a], *y = f + three[b + (b >= a)];
                if (s.draw(2))
                {
                    float v[3];
                    for (int i = 0; i != 3; ++i)
                        x[i] = (float)s.range(-6, 6), v[i] = (float)s.range(-6, 6);
                    for (int i = 0; i != 3; ++i)
                        y[i] = x[(i + 1) % 3] * v[(i + 2) % 3] - x[(i + 2) % 3] * v[(i + 1) % 3];
                    if (s.draw(2)) // in either role, at another scale
                        for (int i = 0; i != 3; ++i)
                            std::swap(x[i], y[i]), y[i] *= 0.125f;
                }
                else
                {
                    float k = s.draw(2) ? (s.draw(2) ? 1.f : -1.f) : nonzero(s);
                    for (int i = 0; i != 3; ++i)
                        y[i] = x[i] * k;
                }
            }
            break;
        case 7: // one far smaller or larger than the rest
            f[s.draw(n)] *= std::ldexp(1.f, s.draw(3) ? -s.range(6, 24) : s.range(4, 12));
            break;
        case 8: // integers
            for (int i = 0; i != n; ++i)
                if (std::fabs(f[i]) < 1e6f)
                    f[i] = std::round(f[i]);
            break;
        case 9: // a vector almost of unit length
            if (!three.empty())
            {
                float* v = f + three[s.draw((uint32_t)three.size())];
                double k = std::sqrt((double)v[0] * v[0] + (double)v[1] * v[1] + (double)v[2] * v[2]);
                if (k > 1e-6 && k < 1e6)
                    for (int i = 0; i != 3; ++i)
                        v[i] = (float)(v[i] / k * (1 + unit(s) * std::ldexp(1.0, -s.range(5, 20))));
            }
            break;
        case 10: f[s.draw(n)] *= -1; break;
        default: // signs
        {
            int k = (int)s.draw(4);
            for (int i = 0; i != n; ++i)
                f[i] = k == 0 ? std::fabs(f[i]) : k == 1 ? -std::fabs(f[i]) : i ? f[i] : k == 2 ? -std::fabs(f[i]) : std::fabs(f[i]);
        }
        }
    for (int i = 0; i != n; ++i)
        if (std::fabs(f[i]) < 1e-30f)
            f[i] = 0;
}
// for operations that only move, negate or compare: any finite number at all
inline void extreme(Src& s, float* f, int n)
{
    if (!s.chance(1, 6))
        return;
    uint32_t which = 1 + s.draw((1u << n) - 1);
    for (int i = 0; i != n; ++i)
        if (which >> i & 1)
        {
            static const float odd[] = {FLT_MAX, -FLT_MAX, FLT_MIN, 1e-45f, -1e-45f, 1e-40f, 3e38f, -1e20f, 1e20f, -1e-30f, FLT_EPSILON, 16777216.f};
            if (s.draw(2))
                f[i] = odd[s.draw(12)];
            else
            {
                uint32_t b = s.draw(65536) << 16 | s.draw(65536);
                float v;
                std::memcpy(&v, &b, 4);
                if (std::isfinite(v))
                    f[i] = v;
            }
        }
}
// third powers of the coefficients stay finite
inline void bounded(float* f, int n)
{
    float m = 0;
    for (int i = 0; i != n; ++i)
        m = std::max(m, std::fabs(f[i]));
    if (!(m > 1e11f))
        return;
    const float k = std::ldexp(1.f, 36 - std::ilogb(m));
    for (int i = 0; i != n; ++i)
        f[i] = std::fabs(f[i] * k) < 1e-30f ? 0.f : f[i] * k;
}
// offsets of the Euclidean vectors of a type
inline void vectors(char t, int base, std::vector<int>& v)
{
    switch (t)
    {
    case 'P':
    case 'X':
    case 'D':
    case 'R': v.push_back(base + 1); break;
    case 'L':
    case 'M':
        v.push_back(base + (t == 'M'));
        v.push_back(base + 3 + (t == 'M'));
        break;
    case 'I':
    case 'B':
    case 'T': v.push_back(base); break;
    }
}
inline void special(Src& s, char t, float* f)
{
    if (!std::strchr("PXDLIBTRM", t))
        return;
    std::vector<int> v;
    vectors(t, 0, v);
    if ((t == 'R' || t == 'M') && s.draw(4) == 0) // almost a unit
    {
        double k = 0;
        for (int i = 0; i != 4; ++i)
            k += (double)f[i] * f[i];
        k = std::sqrt(k);
        if (k > 1e-6 && k < 1e6)
        {
            k = (1 + unit(s) * std::ldexp(1.0, -s.range(5, 20))) / k;
            for (int i = 0; i != ref::width(t); ++i)
                f[i] = (float)(f[i] * k);
            return;
        }
    }
    if (t == 'D')
        special(s, f + 1, 3, {0});
    else
        special(s, f, ref::width(t), v);
}
void operand1(Src& s, char t, float* f);
// An operand of type t, any coefficients (the polynomial operations are total)
inline void operand(Src& s, char t, float* f)
{
    operand1(s, t, f);
    if (s.chance(1, 5))
        special(s, t, f);
    if (s.chance(1, 16)) // the whole operand at another scale
    {
        const int w = ref::width(t);
        float mx = 0, mn = 1e30f;
        for (int i = 0; i != w; ++i)
            if (f[i] != 0)
                mx = std::max(mx, std::fabs(f[i])), mn = std::min(mn, std::fabs(f[i]));
        const int lim = s.draw(3) ? 20 : 38;
        const float k = std::ldexp(1.f, s.range(-lim, lim));
        if (mx * k < (lim == 20 ? 1.6e7f : 1e11f) && mn * k > (lim == 20 ? 1e-9f : 1e-11f))
            for (int i = 0; i != w; ++i)
                f[i] *= k;
    }
}
inline void operand1(Src& s, char t, float* f)
{
    switch (t)
    {
    case 'P':
        switch (s.draw(3))
        {
        case 0:
        {
            double n[3];
            unit3(s, n);
            f[0] = mild(s);
            for (int i = 0; i != 3; ++i)
                f[1 + i] = (float)n[i];
            return;
        }
        default: coefs(s, f, 4); return;
        }
    case 'X':
        switch (s.draw(3))
        {
        case 0:
            f[0] = 1;
            for (int i = 0; i != 3; ++i)
                f[1 + i] = mild(s);
            return;
        case 1:
            f[0] = 1;
            coefs(s, f + 1, 3);
            return;
        default: coefs(s, f, 4); return;
        }
    case 'D':
        f[0] = 0;
        if (s.draw(2))
            coefs(s, f + 1, 3);
        else
        {
            double n[3];
            unit3(s, n);
            for (int i = 0; i != 3; ++i)
                f[1 + i] = (float)n[i];
        }
        return;
    case 'L':
        switch (s.draw(5))
        {
        case 0: euclid_line(s, f); return;
        case 1: euclid_line(s, f, false); return;
        case 2:
            coefs(s, f, 3);
            f[3] = f[4] = f[5] = 0;
            return;
        default: coefs(s, f, 6); return;
        }
    case 'I':
    case 'B':
    case 'T': coefs(s, f, 3); return;
    case 'R':
        if (s.draw(2))
            coefs(s, f, 4);
        else
            unit_rotor(s, f);
        return;
    case 'M':
        switch (s.draw(4))
        {
        case 0:
        case 1: unit_motor(s, f); return;
        case 2:
        {
            unit_motor(s, f);
            float k = nonzero(s);
            for (int i = 0; i != 8; ++i)
                f[i] *= k;
            return;
        }
        default: coefs(s, f, 8); return;
        }
    case 'U': coefs(s, f, 2); return;
    case 's': f[0] = any(s); return;
    case 'k': f[0] = (float)s.range(-40, 40); return;
    default: // digits: plain floats
        coefs(s, f, t - '0');
    }
}
// related operands: equal, opposite or parallel to an earlier one
inline void related(Src& s, char t, float* f, const float* prev)
{
    int n = ref::width(t);
    switch (s.draw(5))
    {
    case 0:
        for (int i = 0; i != n; ++i)
            f[i] = prev[i];
        break;
    case 1:
        for (int i = 0; i != n; ++i)
            f[i] = -prev[i];
        break;
    case 2:
    {
        float k = nonzero(s);
        for (int i = 0; i != n; ++i)
            f[i] = prev[i] * k;
        break;
    }
    case 3: // reversed
        for (int i = 0; i != n; ++i)
            f[i] = (i == 0 && n > 3) ? prev[i] : -prev[i];
        break;
    default: // one coefficient differs
    {
        for (int i = 0; i != n; ++i)
            f[i] = prev[i];
        f[s.draw(n)] = any(s);
    }
    }
}
} // namespace gen
