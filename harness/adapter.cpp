// Exposes the public C++ API of the library under test through adapter_abi.h.
// Compiled once per build configuration; must stay valid C++11.  Only public
// constructors, accessors, methods and operators are used.
// The standard headers come first so that, as in the project's own test programs,
// the library compiles whichever of them it relies on.
#include "adapter_abi.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <klein/klein.hpp>

#ifndef KV_CONFIG
#    define KV_CONFIG "?"
#endif

using namespace kln;

namespace
{
struct Rd
{
    const float* p;
    float s() { return *p++; }
    int k() { return (int)*p++; }
    plane P()
    {
        float a[4] = {p[0], p[1], p[2], p[3]};
        p += 4;
        return plane(a[1], a[2], a[3], a[0]);
    }
    point X()
    {
        float a[4] = {p[0], p[1], p[2], p[3]};
        p += 4;
        point q;
        q.load(a);
        return q;
    }
    direction D()
    {
        float a[4] = {p[0], p[1], p[2], p[3]};
        p += 4;
        return direction(a);
    }
    line L()
    {
        const float* q = p;
        p += 6;
        return line(q[0], q[1], q[2], q[3], q[4], q[5]);
    }
    ideal_line I()
    {
        const float* q = p;
        p += 3;
        return ideal_line(q[0], q[1], q[2]);
    }
    branch B()
    {
        const float* q = p;
        p += 3;
        return branch(q[0], q[1], q[2]);
    }
    rotor R()
    {
        float a[4] = {p[0], p[1], p[2], p[3]};
        p += 4;
        rotor r;
        r.load_normalized(a);
        return r;
    }
    translator T()
    {
        float a[4] = {0.f, p[0], p[1], p[2]};
        p += 3;
        translator t;
        t.load_normalized(a);
        return t;
    }
    motor M()
    {
        const float* q = p;
        p += 8;
        return motor(q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]);
    }
    dual U()
    {
        dual d;
        d.p = p[0];
        d.q = p[1];
        p += 2;
        return d;
    }
    euler_angles E()
    {
        euler_angles e;
        e.roll  = p[0];
        e.pitch = p[1];
        e.yaw   = p[2];
        p += 3;
        return e;
    }
};
// 0: an operation's result is written as its coefficients.  Otherwise, results
// of the types with fewer coefficients than they have storage for are used in
// further operations (group k of them), either as they are (mode 2k+1) or
// rebuilt from their coefficients (mode 2k+2); what those give is written.
thread_local int g_mode = 0;
struct Wr
{
    float* o;
    bool follow(line a);
    bool follow(ideal_line a);
    bool follow(branch a);
    bool follow(translator a);
    // the object as it lies in memory (what a user copies to a GPU buffer)
    template <class T> void raw(T const& t)
    {
        std::memcpy(o, &t, sizeof(T));
        o += sizeof(T) / sizeof(float);
    }
    void put(float f) { *o++ = f; }
    void put(bool b) { *o++ = b ? 1.f : 0.f; }
    void put(plane a)
    {
        put(a.e0());
        put(a.e1());
        put(a.e2());
        put(a.e3());
    }
    void put(point a)
    {
        put(a.e123());
        put(a.e032());
        put(a.e013());
        put(a.e021());
    }
    void put(direction a)
    {
        float f[4];
        std::memcpy(f, &a, 16);
        put(f[0]);
        put(a.x());
        put(a.y());
        put(a.z());
    }
    void put(line a)
    {
        if (g_mode && follow(a))
            return;
        put(a.e01());
        put(a.e02());
        put(a.e03());
        put(a.e23());
        put(a.e31());
        put(a.e12());
    }
    void put(ideal_line a)
    {
        if (g_mode && follow(a))
            return;
        put(a.e01());
        put(a.e02());
        put(a.e03());
    }
    void put(branch a)
    {
        if (g_mode && follow(a))
            return;
        put(a.e23());
        put(a.e31());
        put(a.e12());
    }
    void put(rotor a)
    {
        put(a.scalar());
        put(a.e23());
        put(a.e31());
        put(a.e12());
    }
    void put(translator a)
    {
        if (g_mode && follow(a))
            return;
        put(a.e01());
        put(a.e02());
        put(a.e03());
    }
    void put(motor a)
    {
        put(a.scalar());
        put(a.e23());
        put(a.e31());
        put(a.e12());
        put(a.e01());
        put(a.e02());
        put(a.e03());
        put(a.e0123());
    }
    void put(dual a)
    {
        put(a.scalar());
        put(a.e0123());
    }
    void put(euler_angles e)
    {
        put(e.roll);
        put(e.pitch);
        put(e.yaw);
    }
    void put(mat3x4 const& m)
    {
        for (int i = 0; i != 16; ++i)
            put(m.data[i]);
    }
    void put(mat4x4 const& m)
    {
        for (int i = 0; i != 16; ++i)
            put(m.data[i]);
    }
    void put(__m128 v)
    {
        float f[4];
        _mm_storeu_ps(f, v);
        for (int i = 0; i != 4; ++i)
            put(f[i]);
    }
};

// The follow-up operations.  `both` holds the operation's result and the object
// with the same coefficients.
#define FOLLOW_BEGIN(T, ...)            \
    bool Wr::follow(T a)                \
    {                                   \
        int m = g_mode;                 \
        g_mode = 0;                     \
        T b(__VA_ARGS__);               \
        T x = (m & 1) ? a : b;          \
        (void)x;                        \
        switch ((m - 1) / 2)            \
        {
#define FOLLOW_END  \
        default:    \
            break;  \
        }           \
        g_mode = m; \
        return true; \
    }
const float kP[4] = {0.75f, -1.25f, 2.f, 0.5f};
plane fp() { return plane(kP[0], kP[1], kP[2], kP[3]); }
point fx() { return point(1.5f, -0.25f, 2.f); }
line fl() { return line(0.5f, 2.f, -1.f, 1.f, -0.75f, 0.25f); }
ideal_line fi() { return ideal_line(0.5f, 2.f, -1.f); }
branch fb() { return branch(1.f, -0.75f, 0.25f); }
rotor fr() { return rotor(1.25f, 1.f, 2.f, -1.f); }
translator ft() { return translator(2.5f, 1.f, -1.f, 0.5f); }
motor fm() { return fr() * ft(); }

FOLLOW_BEGIN(line, a.e01(), a.e02(), a.e03(), a.e23(), a.e31(), a.e12())
case 0: put(x == b); put(b == x); put(x.approx_eq(b, 1e-30f)); break;
case 1: put(exp(x)); break;
case 2: put(x * fl()); put(fl() * x); break;
case 3: put(x ^ fl()); put(fp() ^ x); put(x ^ fi()); put(x ^ fb()); break;
case 4: put(x | fl()); put(fp() | x); put(fx() | x); break;
case 5: put(x.squared_norm()); put(x.norm()); put(x.inverse()); break;
case 6: put(fm()(x)); put(fp()(x)); break;
case 7: put(fr()(x)); put(ft()(x)); break;
case 8: put(fx() & x); put(!x); put(x.normalized()); break;
case 9: put((x + x * 2.f) == (b + b * 2.f)); put(-x == -b); put(~x == ~b); put(x / 2.f == b / 2.f); put((x -= fl()) == (b -= fl())); break;
case 10: put(fm()(x) == fm()(b)); put(fr()(x) == fr()(b)); put(fp()(x) == fp()(b)); put(!x == !b); put(x.normalized() == b.normalized()); break;
case 11: put(project(fx(), x)); put(project(x, fp())); break;
FOLLOW_END

FOLLOW_BEGIN(ideal_line, a.e01(), a.e02(), a.e03())
case 0: put(line(x) == line(b)); break;
case 1: put(exp(x)); put(motor(exp(x))); break;
case 2: put(x.squared_ideal_norm()); put(x.ideal_norm()); break;
case 3: put(fp() ^ x); put(fp() | x); put(x ^ fl()); put(x ^ fb()); break;
case 4: put(fx() & x); put(!x); break;
case 5: put(line(x + x * 3.f) == line(b + b * 3.f)); put(line(-x) == line(-b)); put(line(~x) == line(~b)); put(line(!!x) == line(!!b)); break;
case 6: put(line(x) * fl()); put(exp(line(x))); break;
FOLLOW_END

FOLLOW_BEGIN(branch, a.e23(), a.e31(), a.e12())
case 0: put(line(x) == line(b)); break;
case 1: put(exp(x)); put(sqrt(x)); break;
case 2: put(x.squared_norm()); put(x.norm()); break;
case 3: put(fp() ^ x); put(fi() ^ x); put(x ^ fl()); break;
case 4: put(x * fb()); put(fb() * x); put(x / fb()); break;
case 5: put(x.inverse()); put(x.normalized()); put(line(x.normalized()) == line(b.normalized())); break;
case 6: put(fx() & x); put(!x); put(line(!!x) == line(!!b)); break;
case 7: put(fr()(x)); put(line(fr()(x)) == line(fr()(b))); put(fm()(line(x))); break;
case 8: put(line(x + x * 3.f) == line(b + b * 3.f)); put(line(-x) == line(-b)); put(line(~x) == line(~b)); break;
case 9:
{
    float f[4];
    x.store(f);
    for (int i = 0; i != 4; ++i)
        put(f[i]);
    break;
}
FOLLOW_END

translator tr(float x, float y, float z)
{
    float f[4] = {0.f, x, y, z};
    translator t;
    t.load_normalized(f);
    return t;
}
FOLLOW_BEGIN(translator, tr(a.e01(), a.e02(), a.e03()))
case 0: put(motor(x) == motor(b)); break;
case 1: put(motor(x)); break;
case 2: put(x * fr()); put(fr() * x); break;
case 3: put(x * fm()); put(fm() * x); break;
case 4: put(motor(x * ft())); put(motor(ft() * x)); break;
case 5: put(x(fp())); put(x(fx())); put(x(fl())); break;
case 6: put(motor(x.inverse())); put(line(log(x)) == line(log(b))); put(motor(sqrt(x))); break;
case 7: put(fm() / x); put(motor(ft() / x)); break;
case 8: put(motor(x + x * 3.f) == motor(b + b * 3.f)); break;
FOLLOW_END
} // namespace

#define OP(name, sig, ...)                       \
    {                                            \
        name, sig, [](const float* in, float* out) { \
            Rd r{in};                            \
            Wr w{out};                           \
            (void)r;                             \
            __VA_ARGS__;                         \
        }                                        \
    }
#define OP1(name, A, O, ...)  \
    OP(name, #A ">" #O, auto a = r.A(); w.put(__VA_ARGS__))
#define OP2(name, A, B, O, ...) \
    OP(name, #A #B ">" #O, auto a = r.A(); auto b = r.B(); w.put(__VA_ARGS__))
#define OP3(name, A, B, C, O, ...) \
    OP(name, #A #B #C ">" #O, auto a = r.A(); auto b = r.B(); auto c = r.C(); w.put(__VA_ARGS__))

// vector-space arithmetic common to all the types
#define ARITH(T)                                                          \
    OP2("add_" #T, T, T, T, a + b), OP2("sub_" #T, T, T, T, a - b),       \
    OP2("addeq_" #T, T, T, T, a += b), OP2("subeq_" #T, T, T, T, a -= b), \
    OP2("mulf_" #T, T, s, T, a * b), OP2("fmul_" #T, T, s, T, b * a),     \
    OP2("muli_" #T, T, k, T, a * b), OP2("imul_" #T, T, k, T, b * a),     \
    OP2("mulfeq_" #T, T, s, T, a *= b), OP2("mulieq_" #T, T, k, T, a *= b), \
    OP2("divf_" #T, T, s, T, a / b), OP2("divi_" #T, T, k, T, a / b),     \
    OP2("divfeq_" #T, T, s, T, a /= b), OP2("divieq_" #T, T, k, T, a /= b)

// in-place and copying variants of a unary method
#define INPLACE(name, T, copying, inplace)                       \
    OP1(name "_" #T, T, T, a.copying()),                         \
    OP(name "i_" #T, #T ">" #T, auto a = r.T(); a.inplace(); w.put(a)), \
    /* the copying form must not touch the object */             \
    OP(name "k_" #T, #T ">" #T, auto a = r.T(); auto b = a.copying(); (void)b; w.put(a))

static const kv_op g_ops[] = {
    // geometric product
    OP2("gp_PP", P, P, M, a * b), OP2("gp_PX", P, X, M, a * b), OP2("gp_XP", X, P, M, a * b),
    OP2("gp_BB", B, B, R, a * b), OP2("gp_LL", L, L, M, a * b), OP2("gp_XX", X, X, T, a * b),
    OP2("gp_RR", R, R, R, a * b), OP2("gp_UL", U, L, L, a * b), OP2("gp_LU", L, U, L, a * b),
    OP2("gp_RT", R, T, M, a * b), OP2("gp_TR", T, R, M, a * b), OP2("gp_TT", T, T, T, a * b),
    OP2("gp_RM", R, M, M, a * b), OP2("gp_MR", M, R, M, a * b), OP2("gp_TM", T, M, M, a * b),
    OP2("gp_MT", M, T, M, a * b), OP2("gp_MM", M, M, M, a * b),
    // meet
    OP2("ext_PP", P, P, L, a ^ b), OP2("ext_PB", P, B, X, a ^ b), OP2("ext_BP", B, P, X, a ^ b),
    OP2("ext_PI", P, I, X, a ^ b), OP2("ext_IP", I, P, X, a ^ b), OP2("ext_PL", P, L, X, a ^ b),
    OP2("ext_LP", L, P, X, a ^ b), OP2("ext_PX", P, X, U, a ^ b), OP2("ext_XP", X, P, U, a ^ b),
    OP2("ext_BI", B, I, U, a ^ b), OP2("ext_IB", I, B, U, a ^ b), OP2("ext_LL", L, L, U, a ^ b),
    OP2("ext_LI", L, I, U, a ^ b), OP2("ext_IL", I, L, U, a ^ b), OP2("ext_LB", L, B, U, a ^ b),
    OP2("ext_BL", B, L, U, a ^ b),
    // dual and join
    OP1("not_P", P, X, !a), OP1("not_X", X, P, !a), OP1("not_L", L, L, !a), OP1("not_I", I, B, !a),
    OP1("not_B", B, I, !a), OP1("not_U", U, U, !a),
    OP2("join_XX", X, X, L, a & b), OP2("join_XL", X, L, P, a & b), OP2("join_LX", L, X, P, a & b),
    OP2("join_XB", X, B, P, a & b), OP2("join_BX", B, X, P, a & b), OP2("join_XI", X, I, P, a & b),
    OP2("join_IX", I, X, P, a & b), OP2("join_PX", P, X, U, a & b), OP2("join_XP", X, P, U, a & b),
    // inner product
    OP2("dot_PP", P, P, s, a | b), OP2("dot_PL", P, L, P, a | b), OP2("dot_LP", L, P, P, a | b),
    OP2("dot_PI", P, I, P, a | b), OP2("dot_IP", I, P, P, a | b), OP2("dot_PX", P, X, L, a | b),
    OP2("dot_XP", X, P, L, a | b), OP2("dot_LL", L, L, s, a | b), OP2("dot_XL", X, L, P, a | b),
    OP2("dot_LX", L, X, P, a | b), OP2("dot_XX", X, X, s, a | b),
    // reflections
    OP2("refl_PP", P, P, P, a(b)), OP2("refl_PL", P, L, L, a(b)), OP2("refl_PX", P, X, X, a(b)),
    // group action
    OP2("act_RP", R, P, P, a(b)), OP2("act_RB", R, B, B, a(b)), OP2("act_RL", R, L, L, a(b)),
    OP2("act_RX", R, X, X, a(b)), OP2("act_RD", R, D, D, a(b)), OP2("act_TP", T, P, P, a(b)),
    OP2("act_TL", T, L, L, a(b)), OP2("act_TX", T, X, X, a(b)), OP2("act_MP", M, P, P, a(b)),
    OP2("act_ML", M, L, L, a(b)), OP2("act_MX", M, X, X, a(b)), OP2("act_MD", M, D, D, a(b)),
    OP1("act_MO", M, X, a(origin{})),
    // inverses and division
    INPLACE("inv", P, inverse, invert), INPLACE("inv", X, inverse, invert),
    INPLACE("inv", B, inverse, invert), INPLACE("inv", L, inverse, invert),
    INPLACE("inv", R, inverse, invert), INPLACE("inv", T, inverse, invert),
    INPLACE("inv", M, inverse, invert),
    OP2("div_PP", P, P, M, a / b), OP2("div_XX", X, X, T, a / b), OP2("div_BB", B, B, R, a / b),
    OP2("div_RR", R, R, R, a / b), OP2("div_TT", T, T, T, a / b), OP2("div_LL", L, L, M, a / b),
    OP2("div_MR", M, R, M, a / b), OP2("div_MT", M, T, M, a / b), OP2("div_MM", M, M, M, a / b),
    // normalisation
    INPLACE("nrm", P, normalized, normalize), INPLACE("nrm", X, normalized, normalize),
    INPLACE("nrm", D, normalized, normalize), INPLACE("nrm", B, normalized, normalize),
    INPLACE("nrm", L, normalized, normalize), INPLACE("nrm", R, normalized, normalize),
    INPLACE("nrm", M, normalized, normalize),
    INPLACE("con", R, constrained, constrain), INPLACE("con", M, constrained, constrain),
    // exponential, logarithm, square root
    OP1("exp_L", L, M, exp(a)), OP1("log_M", M, L, log(a)), OP1("exp_B", B, R, exp(a)),
    OP1("log_R", R, B, log(a)), OP1("exp_I", I, T, exp(a)), OP1("log_T", T, I, log(a)),
    OP1("sqrt_R", R, R, sqrt(a)), OP1("sqrt_B", B, R, sqrt(a)), OP1("sqrt_T", T, T, sqrt(a)),
    OP1("sqrt_M", M, M, sqrt(a)),
    OP2("explog_M", M, s, M, exp(log(a) * b)), OP2("explog_R", R, s, R, exp(log(a) * b)),
    OP2("explog_T", T, s, T, exp(log(a) * b)),
    // matrices
    OP1("mat34_R", R, 16, a.as_mat3x4()), OP1("mat44_R", R, 16, a.as_mat4x4()),
    OP1("mat34_M", M, 16, a.as_mat3x4()), OP1("mat44_M", M, 16, a.as_mat4x4()),
    OP("matv34_R", "R4>4", auto a = r.R(); w.put(a.as_mat3x4()(_mm_set_ps(r.p[3], r.p[2], r.p[1], r.p[0])))),
    OP("matv44_R", "R4>4", auto a = r.R(); w.put(a.as_mat4x4()(_mm_set_ps(r.p[3], r.p[2], r.p[1], r.p[0])))),
    OP("matv34_M", "M4>4", auto a = r.M(); w.put(a.as_mat3x4()(_mm_set_ps(r.p[3], r.p[2], r.p[1], r.p[0])))),
    OP("matv44_M", "M4>4", auto a = r.M(); w.put(a.as_mat4x4()(_mm_set_ps(r.p[3], r.p[2], r.p[1], r.p[0])))),
    OP("matapply34", "{16}4>4", mat3x4 m; std::memcpy(m.data, r.p, 64); r.p += 16;
       w.put(m(_mm_set_ps(r.p[3], r.p[2], r.p[1], r.p[0])))),
    OP("matapply44", "{16}4>4", mat4x4 m; std::memcpy(m.data, r.p, 64); r.p += 16;
       w.put(m(_mm_set_ps(r.p[3], r.p[2], r.p[1], r.p[0])))),
    // Euler angles
    OP1("euler_R", R, 3, a.as_euler_angles()), OP("rot_E", "3>R", auto a = r.E(); w.put(rotor(a))),
    // projections
    OP2("proj_XL", X, L, X, project(a, b)), OP2("proj_XP", X, P, X, project(a, b)),
    OP2("proj_LP", L, P, L, project(a, b)), OP2("proj_PX", P, X, P, project(a, b)),
    OP2("proj_LX", L, X, L, project(a, b)), OP2("proj_PL", P, L, P, project(a, b)),
    // norms
    OP1("norm_P", P, s, a.norm()), OP1("norm_L", L, s, a.norm()), OP1("sqnorm_L", L, s, a.squared_norm()),
    OP1("norm_B", B, s, a.norm()), OP1("sqnorm_B", B, s, a.squared_norm()),
    OP1("norm_I", I, s, a.ideal_norm()), OP1("sqnorm_I", I, s, a.squared_ideal_norm()),
    // compound metric expressions of the documentation
    OP2("dist_XX", X, X, s, (a & b).norm()), OP2("dist_XL", X, L, s, (a & b).norm()),
    OP2("dist_XXn", X, X, s, std::sqrt((a & b).squared_norm())),
    OP2("dist_XP", X, P, s, (a & b).scalar()), OP2("dist_XPe", X, P, s, (a ^ b).e0123()),
    OP2("dist_PP", P, P, s, ideal_line((a ^ b).e01(), (a ^ b).e02(), (a ^ b).e03()).ideal_norm()),
    // construction, conversion, access
    OP("ctor_P", "4>P", w.put(plane(r.p[0], r.p[1], r.p[2], r.p[3]))),
    OP("ctorp_P", "4>P", float u[5]; std::memcpy(u + 1, r.p, 16); w.put(plane(u + 1))),
    OP("ctorx_P", "4>P", w.put(plane(_mm_set_ps(r.p[3], r.p[2], r.p[1], r.p[0])))),
    OP("load_P", "P>P", float u[5]; std::memcpy(u + 1, r.p, 16); plane a; a.load(u + 1); w.put(a)),
    OP("ctor_X", "3>X", w.put(point(r.p[0], r.p[1], r.p[2]))),
    OP("ctorx_X", "4>X", w.put(point(_mm_set_ps(r.p[3], r.p[2], r.p[1], r.p[0])))),
    OP("load_X", "X>X", float u[5]; std::memcpy(u + 1, r.p, 16); point a; a.load(u + 1); w.put(a)),
    OP("ctor_D", "3>D", w.put(direction(r.p[0], r.p[1], r.p[2]))),
    OP("ctorx_D", "4>D", w.put(direction(_mm_set_ps(r.p[3], r.p[2], r.p[1], r.p[0])))),
    OP("ctorp_D", "D>D", float u[5]; std::memcpy(u + 1, r.p, 16); w.put(direction(u + 1))),
    OP("ctor_L", "6>L", w.put(line(r.p[0], r.p[1], r.p[2], r.p[3], r.p[4], r.p[5]))),
    OP("ctorx_L", "8>L", w.put(line(_mm_set_ps(r.p[3], r.p[2], r.p[1], r.p[0]), _mm_set_ps(r.p[7], r.p[6], r.p[5], r.p[4])))),
    OP1("line_I", I, L, line(a)), OP1("line_B", B, L, line(a)),
    OP("ctor_I", "3>I", w.put(ideal_line(r.p[0], r.p[1], r.p[2]))),
    OP("ctor_B", "3>B", w.put(branch(r.p[0], r.p[1], r.p[2]))),
    OP("ctorx_I", "4>I", w.put(ideal_line(_mm_set_ps(r.p[3], r.p[2], r.p[1], r.p[0])))),
    OP("ctorx_B", "4>B", w.put(branch(_mm_set_ps(r.p[3], r.p[2], r.p[1], r.p[0])))),
    OP("ctor_M", "8>M", w.put(motor(r.p[0], r.p[1], r.p[2], r.p[3], r.p[4], r.p[5], r.p[6], r.p[7]))),
    OP("ctorx_M", "8>M", w.put(motor(_mm_set_ps(r.p[3], r.p[2], r.p[1], r.p[0]), _mm_set_ps(r.p[7], r.p[6], r.p[5], r.p[4])))),
    OP("ctorx_R", "4>R", w.put(rotor(_mm_set_ps(r.p[3], r.p[2], r.p[1], r.p[0])))),
    OP("load_M", "8>M", float u[9]; std::memcpy(u + 1, r.p, 32); motor a; a.load(u + 1); w.put(a)),
    OP("load_R", "R>R", float u[5]; std::memcpy(u + 1, r.p, 16); rotor a; a.load_normalized(u + 1); w.put(a)),
    OP("load_T", "T>T", float u[5]; u[1] = 0.f; std::memcpy(u + 2, r.p, 12); translator a; a.load_normalized(u + 1); w.put(a)),
    OP1("motor_R", R, M, motor(a)), OP1("motor_T", T, M, motor(a)),
    OP2("assign_MR", M, R, M, a = b), OP2("assign_MT", M, T, M, a = b),
    OP("origin", "1>X", point a = origin{}; w.put(a)),
    OP("store_X", "1X>5", int k = 1 + ((int)r.s() & 3); auto a = r.X(); alignas(16) float u[9];
       for (int i = 0; i != 9; ++i) u[i] = 777.f; a.store(u + k);
       for (int i = 0; i != 4; ++i) w.put(u[k + i]);
       float z = 0; for (int i = 0; i != 9; ++i) if ((i < k || i >= k + 4) && u[i] != 777.f) z = 1; w.put(z)),
    OP("store_B", "1B>5", int k = 1 + ((int)r.s() & 3); auto a = r.B(); alignas(16) float u[9];
       for (int i = 0; i != 9; ++i) u[i] = 777.f; a.store(u + k);
       for (int i = 0; i != 4; ++i) w.put(u[k + i]);
       float z = 0; for (int i = 0; i != 9; ++i) if ((i < k || i >= k + 4) && u[i] != 777.f) z = 1; w.put(z)),
    OP("store_R", "1R>5", int k = 1 + ((int)r.s() & 3); auto a = r.R(); alignas(16) float u[9];
       for (int i = 0; i != 9; ++i) u[i] = 777.f; a.store(u + k);
       for (int i = 0; i != 4; ++i) w.put(u[k + i]);
       float z = 0; for (int i = 0; i != 9; ++i) if ((i < k || i >= k + 4) && u[i] != 777.f) z = 1; w.put(z)),
    OP("acc_P", "P>8", auto a = r.P(); w.put(a.x()); w.put(a.y()); w.put(a.z()); w.put(a.d());
       w.put(a.e1()); w.put(a.e2()); w.put(a.e3()); w.put(a.e0())),
    OP("acc_X", "X>8", auto a = r.X(); w.put(a.x()); w.put(a.y()); w.put(a.z()); w.put(a.w());
       w.put(a.e032()); w.put(a.e013()); w.put(a.e021()); w.put(a.e123())),
    OP("acc_D", "D>3", auto a = r.D(); w.put(a.x()); w.put(a.y()); w.put(a.z())),
    OP("acc_L", "L>12", auto a = r.L(); w.put(a.e01()); w.put(a.e02()); w.put(a.e03()); w.put(a.e23());
       w.put(a.e31()); w.put(a.e12()); w.put(a.e10()); w.put(a.e20()); w.put(a.e30()); w.put(a.e32());
       w.put(a.e13()); w.put(a.e21())),
    OP("acc_I", "I>6", auto a = r.I(); w.put(a.e01()); w.put(a.e02()); w.put(a.e03()); w.put(a.e10());
       w.put(a.e20()); w.put(a.e30())),
    OP("acc_B", "B>9", auto a = r.B(); w.put(a.e23()); w.put(a.e31()); w.put(a.e12()); w.put(a.e32());
       w.put(a.e13()); w.put(a.e21()); w.put(a.x()); w.put(a.y()); w.put(a.z())),
    OP("acc_R", "R>7", auto a = r.R(); w.put(a.scalar()); w.put(a.e23()); w.put(a.e31()); w.put(a.e12());
       w.put(a.e32()); w.put(a.e13()); w.put(a.e21())),
    OP("acc_T", "T>7", auto a = r.T(); w.put(a.scalar()); w.put(a.e01()); w.put(a.e02()); w.put(a.e03());
       w.put(a.e10()); w.put(a.e20()); w.put(a.e30())),
    OP("acc_M", "M>14", auto a = r.M(); w.put(a.scalar()); w.put(a.e23()); w.put(a.e31()); w.put(a.e12());
       w.put(a.e32()); w.put(a.e13()); w.put(a.e21()); w.put(a.e01()); w.put(a.e02()); w.put(a.e03());
       w.put(a.e10()); w.put(a.e20()); w.put(a.e30()); w.put(a.e0123())),
    OP("raw_P", "P>4", w.raw(r.P())), OP("raw_X", "X>4", w.raw(r.X())), OP("raw_D", "D>4", w.raw(r.D())),
    OP("raw_L", "L>8", w.raw(r.L())), OP("raw_I", "I>4", w.raw(r.I())), OP("raw_B", "B>4", w.raw(r.B())),
    OP("raw_R", "R>4", w.raw(r.R())), OP("raw_T", "T>4", w.raw(r.T())), OP("raw_M", "M>8", w.raw(r.M())),
    // angle/axis constructors
    OP("mk_R", "13>R", w.put(rotor(r.p[0], r.p[1], r.p[2], r.p[3]))),
    OP("mk_T", "13>T", w.put(translator(r.p[0], r.p[1], r.p[2], r.p[3]))),
    OP("mk_M", "2L>M", float ang = r.s(); float d = r.s(); auto l = r.L(); w.put(motor(ang, d, l))),
    // arithmetic
    ARITH(P), ARITH(X), ARITH(D), ARITH(L), ARITH(I), ARITH(B), ARITH(R), ARITH(T), ARITH(M),
    OP2("add_U", U, U, U, a + b), OP2("sub_U", U, U, U, a - b), OP2("addeq_U", U, U, U, a += b),
    OP2("subeq_U", U, U, U, a -= b), OP2("mulf_U", U, s, U, a * b), OP2("fmul_U", U, s, U, b * a),
    OP2("mulfeq_U", U, s, U, a *= b), OP2("divf_U", U, s, U, a / b), OP2("divfeq_U", U, s, U, a /= b),
    OP1("neg_P", P, P, -a), OP1("neg_X", X, X, -a), OP1("neg_D", D, D, -a), OP1("neg_L", L, L, -a),
    OP1("neg_I", I, I, -a), OP1("neg_B", B, B, -a), OP1("neg_R", R, R, -a), OP1("neg_M", M, M, -a),
    OP1("rev_X", X, X, ~a), OP1("rev_I", I, I, ~a), OP1("rev_B", B, B, ~a), OP1("rev_L", L, L, ~a),
    OP1("rev_R", R, R, ~a), OP1("rev_M", M, M, ~a),
    // comparison
    OP2("eq_P", P, P, s, a == b), OP2("eq_L", L, L, s, a == b), OP2("eq_R", R, R, s, a == b),
    OP2("eq_M", M, M, s, a == b),
    OP3("apx_P", P, P, s, s, a.approx_eq(b, c)), OP3("apx_L", L, L, s, s, a.approx_eq(b, c)),
    OP3("apx_R", R, R, s, s, a.approx_eq(b, c)), OP3("apx_M", M, M, s, s, a.approx_eq(b, c)),
};

#define BT(name, motion, elem, cls, mot)                                            \
    {                                                                               \
        name, motion, elem, sizeof(cls), [](const float* m, void* in, void* out, size_t n) { \
            Rd r{m};                                                                \
            auto a = r.mot();                                                       \
            a(static_cast<cls*>(in), static_cast<cls*>(out), n);                    \
        }                                                                           \
    }
static const kv_batch g_batches[] = {
    BT("batch_RP", 'R', 'P', plane, R),     BT("batch_RL", 'R', 'L', line, R),
    BT("batch_RX", 'R', 'X', point, R),     BT("batch_RD", 'R', 'D', direction, R),
    BT("batch_MP", 'M', 'P', plane, M),     BT("batch_ML", 'M', 'L', line, M),
    BT("batch_MX", 'M', 'X', point, M),     BT("batch_MD", 'M', 'D', direction, M),
};

static const kv_table g_table = {KV_CONFIG, g_ops, sizeof g_ops / sizeof g_ops[0], g_batches,
                                 sizeof g_batches / sizeof g_batches[0]};

extern "C" __attribute__((visibility("default"))) void kv_set_mode(int m) { g_mode = m; }

extern "C" __attribute__((visibility("default"))) const kv_table* kv_get_table(void)
{
    return &g_table;
}
