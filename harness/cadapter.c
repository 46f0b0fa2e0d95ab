/* Exposes the C bindings through adapter_abi.h.  Written in C, so that the
   header itself is consumed the way C programs (and binding generators) do. */
#include "adapter_abi.h"
#include <klein.h>
#include <string.h>
#ifndef KV_CONFIG
#    define KV_CONFIG "?"
#endif
static __m128 ld4(const float* f) { return _mm_set_ps(f[3], f[2], f[1], f[0]); }
static const float* rd_P(const float* f, kln_plane* o)
{
    o->p0 = ld4(f);
    return f + 4;
}
static const float* rd_X(const float* f, kln_point* o)
{
    o->p3 = ld4(f);
    return f + 4;
}
static const float* rd_L(const float* f, kln_line* o)
{
    o->p1 = _mm_set_ps(f[5], f[4], f[3], 0.f);
    o->p2 = _mm_set_ps(f[2], f[1], f[0], 0.f);
    return f + 6;
}
static const float* rd_R(const float* f, kln_rotor* o)
{
    o->p1 = ld4(f);
    return f + 4;
}
static const float* rd_T(const float* f, kln_translator* o)
{
    o->p2 = _mm_set_ps(f[2], f[1], f[0], 0.f);
    return f + 3;
}
static const float* rd_M(const float* f, kln_motor* o)
{
    o->p1 = ld4(f);
    o->p2 = _mm_set_ps(f[6], f[5], f[4], f[7]);
    return f + 8;
}
static void wr_P(float* o, kln_plane a) { memcpy(o, &a, 16); }
static void wr_X(float* o, kln_point a) { memcpy(o, &a, 16); }
static void wr_R(float* o, kln_rotor a) { memcpy(o, &a, 16); }
static void wr_L(float* o, kln_line a)
{
    float f[8];
    memcpy(f, &a, 32);
    o[0] = f[5];
    o[1] = f[6];
    o[2] = f[7];
    o[3] = f[1];
    o[4] = f[2];
    o[5] = f[3];
}
static void wr_T(float* o, kln_translator a)
{
    float f[4];
    memcpy(f, &a, 16);
    o[0] = f[1];
    o[1] = f[2];
    o[2] = f[3];
}
static void wr_M(float* o, kln_motor a)
{
    float f[8];
    memcpy(f, &a, 32);
    o[0] = f[0];
    o[1] = f[1];
    o[2] = f[2];
    o[3] = f[3];
    o[4] = f[5];
    o[5] = f[6];
    o[6] = f[7];
    o[7] = f[4];
}
static void c_plane_init(const float* in, float* out)
{
    kln_plane p;
    kln_plane_init(&p, in[0], in[1], in[2], in[3]);
    wr_P(out, p);
}
static void c_line_init(const float* in, float* out)
{
    kln_line p;
    kln_line_init(&p, in[0], in[1], in[2], in[3], in[4], in[5]);
    wr_L(out, p);
}
static void c_point_init(const float* in, float* out)
{
    kln_point p;
    kln_point_init(&p, in[0], in[1], in[2]);
    wr_X(out, p);
}
#define TY_P kln_plane
#define TY_X kln_point
#define TY_L kln_line
#define TY_R kln_rotor
#define TY_T kln_translator
#define TY_M kln_motor
#define F1(n, fn, A, O)                             \
    static void n(const float* in, float* out)      \
    {                                               \
        TY_##A a;                                   \
        rd_##A(in, &a);                             \
        wr_##O(out, fn(&a));                        \
    }
#define F2(n, fn, A, B, O)                          \
    static void n(const float* in, float* out)      \
    {                                               \
        TY_##A a;                                   \
        TY_##B b;                                   \
        rd_##B(rd_##A(in, &a), &b);                 \
        wr_##O(out, fn(&a, &b));                    \
    }
F2(c_reflect_point, kln_reflect_point, P, X, X)
F2(c_reflect_line, kln_reflect_line, P, L, L)
F2(c_reflect_plane, kln_reflect_plane, P, P, P)
F2(c_rotate_point, kln_rotate_point, R, X, X)
F2(c_rotate_line, kln_rotate_line, R, L, L)
F2(c_rotate_plane, kln_rotate_plane, R, P, P)
F2(c_translate_point, kln_translate_point, T, X, X)
F2(c_translate_line, kln_translate_line, T, L, L)
F2(c_translate_plane, kln_translate_plane, T, P, P)
F2(c_motor_point, kln_motor_point, M, X, X)
F2(c_motor_line, kln_motor_line, M, L, L)
F2(c_motor_plane, kln_motor_plane, M, P, P)
F2(c_compose_rotors, kln_compose_rotors, R, R, R)
F2(c_compose_translators, kln_compose_translators, T, T, T)
F2(c_compose_rotor_translator, kln_compose_rotor_translator, R, T, M)
F2(c_compose_translator_rotor, kln_compose_translator_rotor, T, R, M)
F2(c_compose_motors, kln_compose_motors, M, M, M)
F1(c_motor_log, motor_log, M, L)
F1(c_line_exp, line_exp, L, M)
#define E(n, sig) {#n, sig, n}
static const kv_op g_ops[] = {
    E(c_plane_init, "4>P"), E(c_line_init, "6>L"), E(c_point_init, "3>X"),
    E(c_reflect_point, "PX>X"), E(c_reflect_line, "PL>L"), E(c_reflect_plane, "PP>P"),
    E(c_rotate_point, "RX>X"), E(c_rotate_line, "RL>L"), E(c_rotate_plane, "RP>P"),
    E(c_translate_point, "TX>X"), E(c_translate_line, "TL>L"), E(c_translate_plane, "TP>P"),
    E(c_motor_point, "MX>X"), E(c_motor_line, "ML>L"), E(c_motor_plane, "MP>P"),
    E(c_compose_rotors, "RR>R"), E(c_compose_translators, "TT>T"),
    E(c_compose_rotor_translator, "RT>M"), E(c_compose_translator_rotor, "TR>M"),
    E(c_compose_motors, "MM>M"), E(c_motor_log, "M>L"), E(c_line_exp, "L>M"),
};
static const kv_table g_table = {KV_CONFIG, g_ops, sizeof g_ops / sizeof g_ops[0], 0, 0};
__attribute__((visibility("default"))) const kv_table* kv_get_table(void) { return &g_table; }
