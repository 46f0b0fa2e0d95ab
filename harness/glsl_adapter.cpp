// Compiles the shader file as C++ through a vec4 with swizzles (a copy of the
// repository's own test shim) and exposes its functions through adapter_abi.h.
#include "adapter_abi.h"
#include <cstring>
#include "glsl_shim.hpp"
#include <klein.glsl>
#undef in
#undef out
#ifndef KV_CONFIG
#    define KV_CONFIG "?"
#endif
namespace
{
struct Rd
{
    const float* p;
    vec4 v4()
    {
        vec4 v;
        for (int i = 0; i != 4; ++i)
            v.data[i] = p[i];
        p += 4;
        return v;
    }
    kln_plane P()
    {
        kln_plane a;
        a.p0 = v4();
        return a;
    }
    kln_point X()
    {
        kln_point a;
        a.p3 = v4();
        return a;
    }
    kln_rotor R()
    {
        kln_rotor a;
        a.p1 = v4();
        return a;
    }
    kln_translator T()
    {
        kln_translator a;
        a.p2 = vec4(0.f, p[0], p[1], p[2]);
        p += 3;
        return a;
    }
    kln_motor M()
    {
        kln_motor a;
        a.p1 = v4();
        a.p2 = vec4(p[3], p[0], p[1], p[2]);
        p += 4;
        return a;
    }
};
struct Wr
{
    float* o;
    void put(vec4 const& v)
    {
        for (int i = 0; i != 4; ++i)
            *o++ = v.data[i];
    }
    void put(kln_plane const& a) { put(a.p0); }
    void put(kln_point const& a) { put(a.p3); }
    void put(kln_rotor const& a) { put(a.p1); }
    void put(kln_translator const& a)
    {
        for (int i = 1; i != 4; ++i)
            *o++ = a.p2.data[i];
    }
    void put(kln_motor const& a)
    {
        put(a.p1);
        for (int i = 1; i != 4; ++i)
            *o++ = a.p2.data[i];
        *o++ = a.p2.data[0];
    }
};
} // namespace
#define OP2(name, A, B, O, f)                                       \
    {                                                               \
        name, #A #B ">" #O, [](const float* src, float* dst) {      \
            Rd r{src};                                              \
            Wr w{dst};                                              \
            auto a = r.A();                                         \
            auto b = r.B();                                         \
            w.put(f(a, b));                                         \
        }                                                           \
    }
static const kv_op g_ops[] = {
    OP2("glsl_mul_RR", R, R, R, kln_mul), OP2("glsl_mul_TT", T, T, T, kln_mul), OP2("glsl_mul_MM", M, M, M, kln_mul),
    OP2("glsl_apply_RP", R, P, P, kln_apply), OP2("glsl_apply_MP", M, P, P, kln_apply),
    OP2("glsl_apply_RX", R, X, X, kln_apply), OP2("glsl_apply_MX", M, X, X, kln_apply),
    {"glsl_apply_M", "M>X", [](const float* src, float* dst) {
         Rd r{src};
         Wr w{dst};
         auto a = r.M();
         w.put(kln_apply(a));
     }},
};
static const kv_table g_table = {KV_CONFIG, g_ops, sizeof g_ops / sizeof g_ops[0], nullptr, 0};
extern "C" __attribute__((visibility("default"))) const kv_table* kv_get_table(void) { return &g_table; }
