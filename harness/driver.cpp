// Property driver for the numeric library: every property is a function over a
// choice source; see DESIGN.md for what each one states.
#include "adapter_abi.h"
#include "gen.hpp"
#include "pbt.hpp"
#include "ref.hpp"
#include <dlfcn.h>
#include <sys/mman.h>
#include <alloca.h>
#include <cfloat>

using namespace pbt;
using gen::PI;
using ref::D;
using ref::MV;

namespace
{
struct Adapter
{
    const kv_table* t;
    std::string name;
    std::map<std::string, const kv_op*> ops;
    std::map<std::string, const kv_batch*> batches;
    void (*mode)(int) = nullptr; // see adapter.cpp
};
std::vector<Adapter> g_ad;     // builds of the C++ API
std::vector<Adapter> g_c;      // the C bindings (same order of configurations)
std::vector<Adapter> g_glsl;

constexpr float kPoison = 12345.678f;

__attribute__((noinline)) void poison_stack()
{
    volatile char* p = (volatile char*)alloca(3072);
    std::memset((void*)p, 0xCB, 3072);
    asm volatile("" : : "r"(p) : "memory");
}

std::string fmt(const float* f, int n)
{
    std::string s = "[";
    char b[40];
    for (int i = 0; i != n; ++i)
    {
        snprintf(b, sizeof b, "%s%.9g", i ? "," : "", (double)f[i]);
        s += b;
    }
    return s + "]";
}

void call(Adapter const& a, const char* op, const float* in, float* out)
{
    auto it = a.ops.find(op);
    if (it == a.ops.end())
    {
        fprintf(stderr, "internal: no operation %s in %s\n", op, a.name.c_str());
        _exit(70);
    }
    kv_fn f = it->second->fn;
    poison_stack();
    guarded(op, [&] { f(in, out); });
}

// ---------------------------------------------------------------- comparison
constexpr double REL = 4e-6;  // 64 half-ulps of the magnitude bound
constexpr double TINY = 1e-30;

[[noreturn]] void fail(std::string m) { throw Fail{std::move(m)}; }

// With KV_MARGIN set: the largest error met, as a fraction of the tolerance, per
// comparison (to judge whether the tolerances are neither tight nor loose).
const bool g_margin = std::getenv("KV_MARGIN") != nullptr;
std::map<std::string, double> g_worst;
void margin(std::string const& what, double err, double tol)
{
    static std::mutex mx;
    thread_local std::map<std::string, double> mine;
    if (!(tol > 0))
        return;
    double& m = mine[what];
    if (err / (tol + TINY) > m)
    {
        m = err / (tol + TINY);
        std::lock_guard<std::mutex> l(mx);
        double& w = g_worst[what];
        w = std::max(w, m);
    }
}
void cmp(const char* what, Adapter const& a, float got, double want, double tol)
{
    if (g_margin)
        margin(what, std::fabs((double)got - want), tol);
    if (!(std::fabs((double)got - want) <= tol + TINY))
    {
        char b[400];
        snprintf(b, sizeof b, "%s [%s]: got %.9g, expected %.9g, tolerance %.3g", what, a.name.c_str(), (double)got, want,
                 tol);
        fail(b);
    }
}
static const char* coef_name(char t, int i)
{
    static const char* P[] = {"e0", "e1", "e2", "e3"};
    static const char* X[] = {"e123", "e032", "e013", "e021"};
    static const char* L[] = {"e01", "e02", "e03", "e23", "e31", "e12"};
    static const char* B[] = {"e23", "e31", "e12"};
    static const char* M[] = {"1", "e23", "e31", "e12", "e01", "e02", "e03", "e0123"};
    static const char* U[] = {"1", "e0123"};
    switch (t)
    {
    case 'P': return P[i];
    case 'X':
    case 'D': return X[i];
    case 'L':
    case 'I':
    case 'T': return L[i];
    case 'B': return B[i];
    case 'R':
    case 'M': return M[i];
    case 'U': return U[i];
    }
    return "value";
}
void cmp_mv(const char* op, Adapter const& a, char t, const float* got, MV const& want, double rel = REL, double absol = 0)
{
    auto& l = ref::layout(t);
    for (size_t i = 0; i != l.size(); ++i)
    {
        D w = ref::get(want, l[i]);
        if (g_margin)
            margin(std::string(op) + " " + coef_name(t, (int)i), std::fabs((double)got[i] - w.v), rel * w.m + absol);
        if (!(std::fabs((double)got[i] - w.v) <= rel * w.m + absol + TINY))
        {
            char b[500];
            snprintf(b, sizeof b, "%s [%s]: coefficient %s is %.9g, expected %.9g (tolerance %.3g); result %s", op,
                     a.name.c_str(), coef_name(t, (int)i), (double)got[i], w.v, rel * w.m + absol,
                     fmt(got, (int)l.size()).c_str());
            fail(b);
        }
    }
}
int nonzeros(const float* f, int n)
{
    int k = 0;
    for (int i = 0; i != n; ++i)
        k += f[i] != 0;
    return k;
}
// With KV_TRIGGERS set: how often each coefficient, pair and triple of inputs met
// the conditions special cases tend to ask for (to find gaps of the generators).
const bool g_trig = std::getenv("KV_TRIGGERS") != nullptr;
std::map<std::pair<uint32_t, std::string>, uint64_t> g_hits;
void triggers(uint32_t tag, const float* f, int n)
{
    static std::mutex mx;
    std::lock_guard<std::mutex> l(mx);
    auto hit = [&](const char* k, int i, int j, bool b) { g_hits[{tag, std::string(k) + " " + std::to_string(i) + (j >= 0 ? "," + std::to_string(j) : "")}] += b; };
    for (int i = 0; i != n; ++i)
    {
        hit("zero", i, -1, f[i] == 0 && nonzeros(f, n) == n - 1);
        hit("one", i, -1, f[i] == 1);
        hit("minus one", i, -1, f[i] == -1);
        hit("big", i, -1, std::fabs(f[i]) > 5000);
        hit("tiny", i, -1, f[i] != 0 && std::fabs(f[i]) < 1e-5);
        hit("integer", i, -1, f[i] == std::floor(f[i]) && std::fabs(f[i]) > 10);
        for (int j = i + 1; j != n; ++j)
        {
            hit("equal", i, j, f[i] == f[j] && f[i] != 0 && std::fabs(f[i]) != 1 && nonzeros(f, n) == n);
            hit("opposite", i, j, f[i] == -f[j] && f[i] != 0 && std::fabs(f[i]) != 1 && nonzeros(f, n) == n);
        }
    }
    for (int i = 0; i + 2 < n; ++i)
    {
        double q = (double)f[i] * f[i] + (double)f[i + 1] * f[i + 1] + (double)f[i + 2] * f[i + 2];
        hit("unit", i, -1, std::fabs(q - 1) < 3e-7 && nonzeros(f + i, 3) > 1);
        hit("near unit", i, -1, std::fabs(q - 1) < 3e-2 && std::fabs(q - 1) > 1e-5);
        hit("no vector", i, -1, q == 0 && nonzeros(f, n) >= n - 4);
        for (int j = i + 3; j + 2 < n; ++j)
        {
            const float *x = f + i, *y = f + j;
            bool many = nonzeros(x, 3) > 1 && nonzeros(y, 3) > 1;
            hit("orthogonal", i, j, many && x[0] * y[0] + x[1] * y[1] + x[2] * y[2] == 0);
            hit("parallel", i, j, many && x[0] * y[1] == x[1] * y[0] && x[1] * y[2] == x[2] * y[1] && x[2] * y[0] == x[0] * y[2]);
        }
    }
}
void hash_in(Ctx& c, uint32_t tag, const float* f, int n)
{
    if (g_trig)
        triggers(tag, f, n);
    c.h(tag + 1);
    for (int i = 0; i != n; ++i)
        c.hf(f[i]);
}
bool nonzero_mv(MV const& m)
{
    for (auto& d : m.c)
        if (d.v != 0)
            return true;
    return false;
}

// ------------------------------------------- results used in further operations
// What follows from a result must follow from the object with the same
// coefficients.  Group g of the follow-up operations in adapter.cpp.
int follow_groups(char t) { return t == 'L' ? 12 : t == 'I' ? 7 : t == 'B' ? 10 : t == 'T' ? 9 : 0; }
struct Mode
{
    Adapter const& a;
    Mode(Adapter const& x, int m) : a(x) { a.mode(m); }
    ~Mode() { a.mode(0); }
};
std::string hidden(Adapter const& a, const char* op, const float* in, int g)
{
    float o[2][48];
    for (int k = 0; k != 2; ++k)
    {
        for (auto& f : o[k])
            f = kPoison;
        Mode m(a, 2 * g + 1 + k);
        call(a, op, in, o[k]);
    }
    double mx = 0;
    for (auto& r : o)
        for (float f : r)
            if (f != kPoison && std::isfinite(f))
                mx = std::max(mx, (double)std::fabs(f));
    for (int i = 0; i != 48; ++i)
    {
        float x = o[0][i], y = o[1][i];
        if (x == y || (std::isnan(x) && std::isnan(y)))
            continue;
        bool flag = (x == 0 && y == 1) || (x == 1 && y == 0);
        if (!flag && std::fabs((double)x - y) <= 1e-6 * mx + 1e-4 * std::fabs((double)y) + TINY)
            continue;
        char b[300];
        snprintf(b, sizeof b, "%s [%s]: value %d of the operations of group %d is %.9g on its result and %.9g on the object of the same coefficients",
                 op, a.name.c_str(), i, g, (double)x, (double)y);
        return b;
    }
    return "";
}
void no_hidden(Adapter const& a, const char* op, const float* in, char t, int g)
{
    if (!follow_groups(t))
        return;
    std::string m = hidden(a, op, in, g);
    if (!m.empty())
        fail(m);
}
int draw_group(Src& s, char t) // -1: none this time
{
    int n = follow_groups(t);
    if (!n || s.draw(4))
        return -1;
    return s.draw(2) ? 0 : (int)s.draw(n);
}

// ------------------------------------------------- polynomial operations
using V = std::vector<MV>;
struct Poly
{
    const char* name;
    const char* in;
    char out;
    MV (*f)(V const&);
    double rel = REL;
};
MV f_gp(V const& v) { return v[0] * v[1]; }
MV f_ext(V const& v) { return v[0] ^ v[1]; }
MV f_dot(V const& v) { return v[0] | v[1]; }
MV f_join(V const& v) { return ref::join(v[0], v[1]); }
MV f_dual(V const& v) { return ref::dual(v[0]); }
MV f_refl(V const& v) { return v[0] * v[1] * v[0]; }
MV f_act(V const& v) { return ref::sandwich(v[0], v[1]); }
MV f_origin(V const& v) { return ref::sandwich(v[0], ref::named(ref::E123, 1.0)); }
MV f_proj_up(V const& v) { return (v[0] | v[1]) ^ v[1]; }   // grade of a above grade of b
MV f_proj_down(V const& v) { return (v[0] | v[1]) | v[1]; } // grade of a below grade of b

const std::vector<Poly> C01 = {{"gp_PP", "PP", 'M', f_gp}, {"gp_PX", "PX", 'M', f_gp}, {"gp_XP", "XP", 'M', f_gp},
    {"gp_BB", "BB", 'R', f_gp}, {"gp_LL", "LL", 'M', f_gp}, {"gp_RR", "RR", 'R', f_gp}, {"gp_UL", "UL", 'L', f_gp},
    {"gp_LU", "LU", 'L', f_gp}, {"gp_RT", "RT", 'M', f_gp}, {"gp_TR", "TR", 'M', f_gp}, {"gp_TT", "TT", 'T', f_gp},
    {"gp_RM", "RM", 'M', f_gp}, {"gp_MR", "MR", 'M', f_gp}, {"gp_TM", "TM", 'M', f_gp}, {"gp_MT", "MT", 'M', f_gp},
    {"gp_MM", "MM", 'M', f_gp}};
const std::vector<Poly> C02 = {{"ext_PP", "PP", 'L', f_ext}, {"ext_PB", "PB", 'X', f_ext}, {"ext_BP", "BP", 'X', f_ext},
    {"ext_PI", "PI", 'X', f_ext}, {"ext_IP", "IP", 'X', f_ext}, {"ext_PL", "PL", 'X', f_ext}, {"ext_LP", "LP", 'X', f_ext},
    {"ext_PX", "PX", 'U', f_ext}, {"ext_XP", "XP", 'U', f_ext}, {"ext_BI", "BI", 'U', f_ext}, {"ext_IB", "IB", 'U', f_ext},
    {"ext_LL", "LL", 'U', f_ext}, {"ext_LI", "LI", 'U', f_ext}, {"ext_IL", "IL", 'U', f_ext}, {"ext_LB", "LB", 'U', f_ext},
    {"ext_BL", "BL", 'U', f_ext}};
const std::vector<Poly> C03 = {{"join_XX", "XX", 'L', f_join}, {"join_XL", "XL", 'P', f_join}, {"join_LX", "LX", 'P', f_join},
    {"join_XB", "XB", 'P', f_join}, {"join_BX", "BX", 'P', f_join}, {"join_XI", "XI", 'P', f_join},
    {"join_IX", "IX", 'P', f_join}, {"join_PX", "PX", 'U', f_join}, {"join_XP", "XP", 'U', f_join},
    {"not_P", "P", 'X', f_dual}, {"not_X", "X", 'P', f_dual}, {"not_L", "L", 'L', f_dual}, {"not_I", "I", 'B', f_dual},
    {"not_B", "B", 'I', f_dual}, {"not_U", "U", 'U', f_dual}};
const std::vector<Poly> C04 = {{"dot_PP", "PP", 's', f_dot}, {"dot_PL", "PL", 'P', f_dot}, {"dot_LP", "LP", 'P', f_dot},
    {"dot_PI", "PI", 'P', f_dot}, {"dot_IP", "IP", 'P', f_dot}, {"dot_PX", "PX", 'L', f_dot}, {"dot_XP", "XP", 'L', f_dot},
    {"dot_LL", "LL", 's', f_dot}, {"dot_XL", "XL", 'P', f_dot}, {"dot_LX", "LX", 'P', f_dot}, {"dot_XX", "XX", 's', f_dot}};
const std::vector<Poly> C05 = {{"refl_PP", "PP", 'P', f_refl}, {"refl_PL", "PL", 'L', f_refl}, {"refl_PX", "PX", 'X', f_refl}};
const std::vector<Poly> C06 = {{"act_RP", "RP", 'P', f_act}, {"act_RB", "RB", 'B', f_act}, {"act_RL", "RL", 'L', f_act},
    {"act_RX", "RX", 'X', f_act}, {"act_RD", "RD", 'D', f_act}, {"act_TP", "TP", 'P', f_act}, {"act_TL", "TL", 'L', f_act},
    {"act_TX", "TX", 'X', f_act}, {"act_MP", "MP", 'P', f_act}, {"act_ML", "ML", 'L', f_act}, {"act_MX", "MX", 'X', f_act},
    {"act_MD", "MD", 'D', f_act}};
const std::vector<Poly> C15 = {{"proj_XL", "XL", 'X', f_proj_up}, {"proj_XP", "XP", 'X', f_proj_up},
    {"proj_LP", "LP", 'L', f_proj_up}, {"proj_PX", "PX", 'P', f_proj_down}, {"proj_LX", "LX", 'L', f_proj_down},
    {"proj_PL", "PL", 'P', f_proj_down}};

int gen_operands(Src& s, const char* sig, float* f)
{
    int off[4] = {0, 0, 0, 0}, n = 0;
    for (int i = 0; sig[i] && sig[i] != '>'; ++i)
    {
        off[i]    = n;
        int w     = ref::width(sig[i]);
        bool done = false;
        if (s.chance(1, 5))
            for (int j = 0; j < i; ++j)
                if (ref::width(sig[j]) == w && sig[j] == sig[i])
                {
                    gen::related(s, sig[i], f + n, f + off[j]);
                    done = true;
                }
        if (!done)
            gen::operand(s, sig[i], f + n);
        n += w;
    }
    if (sig[1] && s.chance(1, 6)) // coincidences between operands
    {
        std::vector<int> v;
        int m = 0;
        bool floats = true;
        for (int i = 0; sig[i] && sig[i] != '>'; ++i)
        {
            if (!std::strchr("PXLIBTRMU", sig[i]))
                floats = false;
            gen::vectors(sig[i], off[i], v), ++m;
        }
        if (m == 2 && floats)
            gen::special(s, f, n, v);
    }
    gen::bounded(f, n);
    return n;
}
void poly_case(std::vector<Poly> const& ops, uint32_t k, Src& s, Ctx& c)
{
    Poly const& p = ops[k];
    float in[24], out[24];
    int n = gen_operands(s, p.in, in);
    V v;
    for (int i = 0, o = 0; p.in[i]; o += ref::width(p.in[i]), ++i)
        v.push_back(ref::lift(p.in[i], in + o));
    MV want = p.f(v);
    hash_in(c, k, in, n);
    c.label(p.name);
    c.nontrivial = nonzeros(in, n) >= 3 && nonzero_mv(want);
    if (c.verbose)
        c.note(std::string(p.name) + " " + fmt(in, n));
    const int grp = draw_group(s, p.out);
    for (auto& a : g_ad)
    {
        for (auto& o : out)
            o = kPoison;
        call(a, p.name, in, out);
        cmp_mv(p.name, a, p.out, out, want, p.rel);
        if (grp >= 0)
            no_hidden(a, p.name, in, p.out, grp);
    }
}
void poly_prop(std::vector<Poly> const& ops, Src& s, Ctx& c)
{
    uint32_t k = s.draw((uint32_t)ops.size());
    poly_case(ops, k, s, c);
}

// generic helpers --------------------------------------------------------
struct Case
{
    Ctx& c;
    const char* name;
    Case(Ctx& cc, const char* n, const float* in, int k, uint32_t tag) : c(cc), name(n)
    {
        hash_in(c, tag, in, k);
        c.label(n);
        if (c.verbose)
            c.note(std::string(n) + " " + fmt(in, k));
    }
};
template <class F> void each(F&& f)
{
    for (auto& a : g_ad)
        f(a);
}
double norm3(const double* v) { return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }

// ------------------------------------------------------------ C01 extras
void prop_C01(Src& s, Ctx& c)
{
    uint32_t k = s.draw((uint32_t)C01.size() + 1);
    if (k < C01.size())
        return poly_case(C01, k, s, c);
    // point * point: the translator whose coefficients are the product divided
    // by its scalar part
    float in[8], out[8];
    for (int i = 0; i != 2; ++i)
    {
        gen::operand(s, 'X', in + 4 * i);
        in[4 * i] = gen::nonzero(s);
    }
    if (s.chance(1, 5))
        gen::related(s, 'X', in + 4, in);
    if (std::fabs(in[4]) < 1e-3f)
        in[4] = 1;
    Case k2(c, "gp_XX", in, 8, 100);
    MV p = ref::lift('X', in) * ref::lift('X', in + 4);
    MV w = ref::scale(p, D(1.0) / D(p[0].v, std::fabs(p[0].v)));
    c.nontrivial = nonzeros(in, 8) >= 4;
    each([&](Adapter const& a) {
        call(a, "gp_XX", in, out);
        cmp_mv("gp_XX", a, 'T', out, w);
    });
}
void prop_C02(Src& s, Ctx& c) { poly_prop(C02, s, c); }
void prop_C03(Src& s, Ctx& c)
{
    if (s.draw(6) == 5)
    {
        // geometric meaning: the line through two points contains both, the
        // plane through a line and a point contains both
        float in[8], l[6], x[8], pl[4], z[4];
        for (int i = 0; i != 2; ++i)
        {
            double v[3];
            gen::vec3(s, v);
            in[4 * i] = 1;
            for (int j = 0; j != 3; ++j)
                in[4 * i + 1 + j] = (float)v[j];
        }
        double v[3];
        gen::vec3(s, v);
        x[0] = 1;
        for (int j = 0; j != 3; ++j)
            x[1 + j] = (float)v[j];
        Case k(c, "join incidence", in, 8, 200);
        hash_in(c, 201, x, 4);
        c.nontrivial = true;
        double S = 1;
        for (float f : in)
            S = std::max(S, (double)std::fabs(f));
        for (float f : x)
            S = std::max(S, (double)std::fabs(f));
        each([&](Adapter const& a) {
            call(a, "join_XX", in, l);
            // P v l = 0 for both defining points
            for (int i = 0; i != 2; ++i)
            {
                float t[10];
                std::memcpy(t, in + 4 * i, 16);
                std::memcpy(t + 4, l, 24);
                call(a, "join_XL", t, pl);
                for (int j = 0; j != 4; ++j)
                    cmp("a point does not lie on the line joining it to another", a, pl[j], 0, 4e-6 * S * S * S);
            }
            float t[10], u[8];
            std::memcpy(t, x, 16);
            std::memcpy(t + 4, l, 24);
            call(a, "join_XL", t, pl);
            const float* pts[3] = {in, in + 4, x};
            for (auto q : pts)
            {
                std::memcpy(u, q, 16);
                std::memcpy(u + 4, pl, 16);
                call(a, "join_XP", u, z);
                cmp("a point does not lie on the plane joining it to a line", a, z[0], 0, 1e-5 * S * S * S);
            }
        });
        return;
    }
    poly_prop(C03, s, c);
}
void prop_C04(Src& s, Ctx& c) { poly_prop(C04, s, c); }
void prop_C05(Src& s, Ctx& c)
{
    uint32_t k = s.draw(5);
    if (k < 3)
        return poly_case(C05, k, s, c);
    // reflecting twice in a unit plane restores the object
    char t = "PLX"[s.draw(3)];
    const char* op = t == 'P' ? "refl_PP" : t == 'L' ? "refl_PL" : "refl_PX";
    float in[10], o1[10], o2[10];
    double n[3];
    gen::unit3(s, n);
    in[0] = gen::mild(s);
    for (int i = 0; i != 3; ++i)
        in[1 + i] = (float)n[i];
    gen::operand(s, t, in + 4);
    int w = ref::width(t);
    Case kk(c, "reflect twice", in, 4 + w, 300 + t);
    double S = 0, d = 1 + std::fabs(in[0]);
    for (int i = 0; i != w; ++i)
        S = std::max(S, (double)std::fabs(in[4 + i]));
    c.nontrivial = S > 0;
    each([&](Adapter const& a) {
        call(a, op, in, o1);
        float in2[10];
        std::memcpy(in2, in, 16);
        std::memcpy(in2 + 4, o1, 4 * w);
        call(a, op, in2, o2);
        for (int i = 0; i != w; ++i)
            cmp("reflecting twice in a unit plane", a, o2[i] * (t == 'X' ? 1 : 1), in[4 + i], 2e-5 * S * d * d);
    });
}
void prop_C06(Src& s, Ctx& c)
{
    uint32_t k = s.draw((uint32_t)C06.size() + 1);
    if (k < C06.size())
        return poly_case(C06, k, s, c);
    float in[8], out[4];
    gen::unit_motor(s, in);
    Case kk(c, "act_MO", in, 8, 400);
    c.nontrivial = nonzeros(in, 8) >= 3;
    MV m = ref::lift('M', in), w = ref::sandwich(m, ref::named(ref::E123, 1.0));
    each([&](Adapter const& a) {
        call(a, "act_MO", in, out);
        cmp_mv("act_MO", a, 'X', out, w);
    });
}

// --------------------------------------------------------------- C07 batches
struct Arena // memory with an inaccessible page on either side
{
    static constexpr size_t N = 70400 * 32 / 4096 * 4096; // room for arrays of more than 65536 lines
    char* base;
    Arena()
    {
        base = (char*)mmap(nullptr, N + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(base + 4096, N, PROT_READ | PROT_WRITE);
    }
    char* lo() { return base + 4096; }
    char* hi() { return base + 4096 + N; }
};
void prop_C07(Src& s, Ctx& c)
{
    static thread_local Arena A, B;
    const kv_table* t0 = g_ad[0].t;
    uint32_t bi        = s.draw((uint32_t)t0->n_batches);
    const kv_batch& b0 = t0->batches[bi];
    uint32_t count;
    switch (s.draw(12))
    {
    case 0: count = s.draw(3); break;
    case 1:
    case 2:
    case 3:
    case 4:
    case 5: count = 1 + s.draw(9); break;
    case 6:
    case 7:
    case 8: count = 1 + s.draw(40); break;
    case 9: count = 1 + s.draw(140); break;
    case 10: count = 1 + s.draw(600); break;
    default:
        count = 1 + s.draw(16);
        if (!gen::g_idict.empty() && s.draw(4))
        {
            int d = gen::g_idict[s.draw((uint32_t)gen::g_idict.size())] + s.range(-1, 2);
            if (d >= 0 && d <= 4100)
                count = (uint32_t)d;
        }
    }
    if (s.chance(1, 2500)) // beyond a 16-bit counter
        count = (s.draw(2) ? 65536 : 32768) + s.draw(70);
    const int mode  = (int)s.draw(3); // 0 separate, 1 in place, 2 separate with the output before the input
    const bool tail = s.draw(2);      // buffers end (or start) at an inaccessible page
    float m[8];
    if (b0.motion == 'R')
        s.draw(3) ? gen::unit_rotor(s, m) : gen::operand(s, 'R', m);
    else
        s.draw(3) ? (void)gen::unit_motor(s, m) : gen::operand(s, 'M', m);
    const int mw = ref::width(b0.motion), ew = (int)(b0.elem_bytes / 4);
    // a pool of distinct elements; element i is pool[i % np] scaled by 1 + i/np % 7
    int np = (int)std::min(count, 6u);
    float pool[6][8];
    for (int i = 0; i != np; ++i)
    {
        float e[6];
        gen::operand(s, b0.elem, e);
        if (b0.elem == 'L')
        {
            pool[i][0] = pool[i][4] = 0;
            for (int j = 0; j != 3; ++j)
            {
                pool[i][1 + j] = e[3 + j];
                pool[i][5 + j] = e[j];
            }
        }
        else
            std::memcpy(pool[i], e, 16);
        if (i > 0 && s.chance(1, 6))
            std::memcpy(pool[i], pool[s.draw(i)], 32);
    }
    auto factor = [&](uint32_t i) { return (float)(1 + (i / std::max(np, 1)) % 7); };
    std::vector<MV> want(np);
    for (int i = 0; i != np; ++i)
    {
        float e[6];
        if (b0.elem == 'L')
            for (int j = 0; j != 3; ++j)
            {
                e[j]     = pool[i][5 + j];
                e[3 + j] = pool[i][1 + j];
            }
        else
            std::memcpy(e, pool[i], 16);
        want[i] = ref::sandwich(ref::lift(b0.motion, m), ref::lift(b0.elem, e));
    }
    hash_in(c, bi * 8 + mode * 2 + tail, m, mw);
    c.h(count);
    for (int i = 0; i != np; ++i)
        hash_in(c, i, pool[i], ew);
    c.label(b0.name);
    c.label(count == 0 ? "count 0" : count == 1 ? "count 1" : count <= 16 ? "count 2-16" : count <= 140 ? "count 17-140" : count < 32768 ? "count >140" : "count >=32768");
    c.label(mode == 1 ? "in place" : "separate buffers");
    c.nontrivial = count >= 2 && nonzeros(m, mw) >= 2;
    if (c.verbose)
    {
        c.note(std::string(b0.name) + " count " + std::to_string(count) + (mode == 1 ? " in place" : " separate") + (tail ? " ending" : " starting") +
               " at a guard page, motion " + fmt(m, mw));
        for (int i = 0; i != np; ++i)
            c.note("element " + fmt(pool[i], ew));
    }
    const size_t bytes = (size_t)count * b0.elem_bytes;
    for (auto& a : g_ad)
    {
        const kv_batch& b = a.t->batches[bi];
        char* in  = tail ? A.hi() - bytes : A.lo();
        char* out = mode == 1 ? in : (tail ? B.hi() - bytes : B.lo());
        if (mode == 2)
            std::swap(in, out);
        // surroundings that are mapped carry a canary
        const size_t edge = std::min<size_t>(1024, Arena::N - bytes);
        auto canary = [&](char* p) { return tail ? p - edge : p + bytes; };
        std::memset(canary(in), 0x5A, edge);
        std::memset(canary(out), 0x5A, edge);
        if (out != in)
            std::memset(out, 0xCB, bytes);
        for (uint32_t i = 0; i != count; ++i)
        {
            float* e = (float*)(in + i * b0.elem_bytes);
            for (int j = 0; j != ew; ++j)
                e[j] = pool[i % np][j] * factor(i);
        }
        poison_stack();
        guarded(b.name, [&] { b.fn(m, in, out, count); });
        for (uint32_t i = 0; i != count; ++i)
        {
            const float* e = (const float*)(out + i * b0.elem_bytes);
            float g[6];
            const uint32_t period = (uint32_t)np * 7; // inputs repeat, so a result seen before needs no second look
            const bool seen       = i >= period && !std::memcmp(e, out + (i % period) * b0.elem_bytes, b0.elem_bytes);
            if (out != in)
            {
                const float* x = (const float*)(in + i * b0.elem_bytes);
                for (int j = 0; j != ew; ++j)
                    if (!(x[j] == pool[i % np][j] * factor(i)))
                        fail(std::string(b.name) + " [" + a.name + "]: input element " + std::to_string(i) + " was modified");
            }
            if (seen)
                continue;
            if (b0.elem == 'L')
                for (int j = 0; j != 3; ++j)
                {
                    g[j]     = e[5 + j];
                    g[3 + j] = e[1 + j];
                }
            else
                std::memcpy(g, e, 16);
            if (b0.elem == 'L' && !(e[0] == 0 && e[4] == 0))
                fail(std::string(b.name) + " [" + a.name + "]: element " + std::to_string(i) + " has content besides its six coefficients: " + fmt(e, 8));
            try
            {
                MV w = ref::scale(want[i % np], D((double)factor(i)));
                cmp_mv(b.name, a, b0.elem, g, w);
            }
            catch (Fail& f)
            {
                fail("element " + std::to_string(i) + " of " + std::to_string(count) + (mode == 1 ? " (in place)" : "") + ": " + f.msg);
            }
        }
        for (char* p : {canary(in), canary(out)})
            for (size_t i = 0; i != edge; ++i)
                if (p[i] != 0x5A)
                    fail(std::string(b.name) + " [" + a.name + "]: wrote outside the array of " + std::to_string(count) + " elements");
    }
}

// ------------------------------------------------------------ C08 histories
// Rigid motions as the plain geometry a user has in mind: an orthogonal matrix
// and a vector, built from the same drawn parameters without the algebra.
struct Rigid
{
    double r[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, t[3] = {0, 0, 0};
};
Rigid compose(Rigid const& b, Rigid const& a) // first a, then b
{
    Rigid c;
    for (int i = 0; i != 3; ++i)
    {
        for (int j = 0; j != 3; ++j)
        {
            c.r[i][j] = 0;
            for (int k = 0; k != 3; ++k)
                c.r[i][j] += b.r[i][k] * a.r[k][j];
        }
        c.t[i] = b.t[i];
        for (int k = 0; k != 3; ++k)
            c.t[i] += b.r[i][k] * a.t[k];
    }
    return c;
}
void xform(Rigid const& g, const double* p, double* o, bool dir = false)
{
    for (int i = 0; i != 3; ++i)
    {
        o[i] = dir ? 0 : g.t[i];
        for (int k = 0; k != 3; ++k)
            o[i] += g.r[i][k] * p[k];
    }
}
// Rodrigues' formula, angle a about unit n through the origin, right-handed
Rigid rodrigues(const double* n, double a)
{
    Rigid g;
    double c = std::cos(a), s = std::sin(a);
    double K[3][3] = {{0, -n[2], n[1]}, {n[2], 0, -n[0]}, {-n[1], n[0], 0}};
    for (int i = 0; i != 3; ++i)
        for (int j = 0; j != 3; ++j)
            g.r[i][j] = (i == j ? c : 0) + s * K[i][j] + (1 - c) * n[i] * n[j];
    return g;
}
Rigid translation(const double* t)
{
    Rigid g;
    for (int i = 0; i != 3; ++i)
        g.t[i] = t[i];
    return g;
}
Rigid inverse(Rigid const& a)
{
    Rigid g;
    for (int i = 0; i != 3; ++i)
        for (int j = 0; j != 3; ++j)
            g.r[i][j] = a.r[j][i];
    for (int i = 0; i != 3; ++i)
    {
        g.t[i] = 0;
        for (int k = 0; k != 3; ++k)
            g.t[i] -= g.r[i][k] * a.t[k];
    }
    return g;
}
// acc becomes m * acc (how & 4: acc * m); m is a motor that is really of kind
// 'R', 'T' or 'M', and how & 3 selects among the products that can do it.
constexpr double C08_RATE = 5e-7; // of roundoff, per product
void chain(Adapter& a, char kind, int how, const float* m, float* acc)
{
    float in[16], small[8];
    int w     = kind == 'R' ? 4 : kind == 'T' ? 3 : 8;
    bool left = !(how & 4);
    if (kind == 'M' || (how & 3) == 0)
        kind = 'M', w = 8;
    std::memcpy(small, kind == 'T' ? m + 4 : m, 4 * w);
    std::memcpy(in, left ? small : acc, left ? 4 * w : 32);
    std::memcpy(left ? in + w : in + 8, left ? acc : small, left ? 32 : 4 * w);
    call(a, kind == 'M' ? "gp_MM" : kind == 'R' ? left ? "gp_RM" : "gp_MR" : left ? "gp_TM" : "gp_MT", in, acc);
}
// A cycle of small motions repeated many times, composed in single precision
// and in the plain geometry: what one product drops adds up.
void c08_repeat(Src& s, Ctx& c)
{
    int n = 1 + (int)s.draw(3), rounds = 4 << s.draw(7);
    struct Step
    {
        int kind, via;
        double ang, d, ax[3], ctr[3];
        Rigid g;
    };
    std::vector<Step> cyc(n);
    double reach = 5, off = 6, per = 0, far = gen::spread(s, 3);
    for (auto& st : cyc)
    {
        st.kind = (int)s.draw(3);
        st.via  = (int)s.draw(8);
        gen::unit3(s, st.ax);
        st.ang = st.kind == 1 ? 0 : (s.draw(2) ? -1 : 1) * (0.5 + 0.5 * gen::pos(s)) * std::ldexp(1.0, -s.range(1, 20));
        st.d   = st.kind == 0 ? 0 : gen::unit(s) * std::ldexp(1.0, -s.range(0, 20));
        gen::vec3(s, st.ctr, far);
        per += std::fabs(st.d);
        for (double v : st.ctr)
            off = std::max(off, 2 * std::fabs(v));
        double t[3]  = {st.d * st.ax[0], st.d * st.ax[1], st.d * st.ax[2]};
        double mc[3] = {-st.ctr[0], -st.ctr[1], -st.ctr[2]};
        st.g         = st.kind == 0 ? rodrigues(st.ax, -st.ang) : st.kind == 1 ? translation(t) :
                       compose(translation(st.ctr), compose(compose(translation(t), rodrigues(st.ax, st.ang)), translation(mc)));
        c.h(st.kind * 8 + st.via);
        c.hf((float)st.ang);
        c.hf((float)st.d);
        if (c.verbose)
        {
            char b[300];
            snprintf(b, sizeof b, "%d x %s angle %.7g axis (%.7g,%.7g,%.7g) distance %.7g centre (%.7g,%.7g,%.7g) via %d", rounds,
                     st.kind == 0 ? "rotor" : st.kind == 1 ? "translator" : "screw", st.ang, st.ax[0], st.ax[1], st.ax[2], st.d, st.ctr[0], st.ctr[1], st.ctr[2], st.via);
            c.note(b);
        }
    }
    double px[3];
    float X[4] = {1};
    gen::vec3(s, px, 5);
    for (int j = 0; j != 3; ++j)
        px[j] = X[1 + j] = (float)px[j], reach = std::max(reach, std::fabs(px[j]));
    hash_in(c, rounds, X, 4);
    c.label("small motions repeated");
    c.nontrivial = true;
    for (auto& a : g_ad)
    {
        float acc[8] = {1, 0, 0, 0, 0, 0, 0, 0}, in[16], o[16];
        std::vector<std::array<float, 8>> ms(n);
        for (int i = 0; i != n; ++i)
        {
            auto& st = cyc[i];
            for (int j = 0; j != 3; ++j)
                in[1 + j] = (float)st.ax[j];
            if (st.kind == 0)
            {
                in[0] = (float)st.ang;
                call(a, "mk_R", in, o);
                std::memcpy(in, o, 16);
                call(a, "motor_R", in, ms[i].data());
            }
            else if (st.kind == 1)
            {
                in[0] = (float)st.d;
                call(a, "mk_T", in, o);
                std::memcpy(in, o, 12);
                call(a, "motor_T", in, ms[i].data());
            }
            else
            {
                double tt[3] = {-0.5 * st.ctr[0], -0.5 * st.ctr[1], -0.5 * st.ctr[2]};
                MV ax        = ref::sandwich(ref::lift('T', tt), gen::biv(0, 0, 0, st.ax[0], st.ax[1], st.ax[2]));
                in[0]        = (float)st.ang;
                in[1]        = (float)st.d;
                gen::lower(ax, 'L', in + 2);
                call(a, "mk_M", in, ms[i].data());
            }
        }
        Rigid g;
        double S = reach;
        for (int k = 0; k != rounds; ++k)
            for (int i = 0; i != n; ++i)
            {
                auto& st = cyc[i];
                chain(a, "RTM"[st.kind], st.via, ms[i].data(), acc);
                g = st.via & 4 ? compose(g, st.g) : compose(st.g, g);
                for (double t : g.t)
                    S = std::max(S, std::fabs(t));
            }
        std::memcpy(in, acc, 32);
        std::memcpy(in + 8, X, 16);
        call(a, "act_MX", in, o);
        double w[3];
        xform(g, px, w);
        double tol = C08_RATE * rounds * n * (S + off);
        for (int j = 0; j != 3; ++j)
            cmp("product of many small motions on a point", a, o[1 + j] / o[0], w[j], tol);
    }
}
void prop_C08(Src& s, Ctx& c)
{
    if (s.chance(1, 12))
        return c08_repeat(s, c);
    // the scene
    float P[3][4], X[4][4], L[2][6], Dd[4];
    double px[4][3], pn[3][3], pd[3], lc[2][3], ln[2][3], dd[3];
    for (int i = 0; i != 4; ++i)
    {
        gen::vec3(s, px[i], 5);
        X[i][0] = 1;
        for (int j = 0; j != 3; ++j)
            px[i][j] = X[i][1 + j] = (float)px[i][j];
    }
    for (int i = 0; i != 3; ++i)
    {
        gen::unit3(s, pn[i]);
        pd[i] = P[i][0] = gen::mild(s) * 0.1f;
        for (int j = 0; j != 3; ++j)
            pn[i][j] = P[i][1 + j] = (float)pn[i][j];
    }
    for (int i = 0; i != 2; ++i)
    {
        gen::unit3(s, ln[i]);
        gen::vec3(s, lc[i], 5);
        double tt[3] = {-0.5 * lc[i][0], -0.5 * lc[i][1], -0.5 * lc[i][2]};
        MV l         = ref::sandwich(ref::lift('T', tt), gen::biv(0, 0, 0, ln[i][0], ln[i][1], ln[i][2]));
        gen::lower(l, 'L', L[i]);
    }
    gen::unit3(s, dd);
    Dd[0] = 0;
    for (int j = 0; j != 3; ++j)
        Dd[1 + j] = (float)dd[j];
    int steps = 1 + (int)s.draw(10);
    struct Step
    {
        int kind;
        float par[16];
        double ang, ax[3], d, ctr[3];
        int how, via;
        Rigid g;
    };
    std::vector<Step> hist(steps);
    double reach = 5, far = gen::spread(s, 3);
    for (auto& x : px)
        for (double v : x)
            reach = std::max(reach, std::fabs(v));
    for (auto& x : lc)
        for (double v : x)
            reach = std::max(reach, std::fabs(v));
    int rots = 0, refl = 0;
    for (auto& st : hist)
    {
        st.kind = (int)s.draw(6); // 0 rotor 1 translator 2 motor (screw) 3 reflection 4 undo of the previous 5 motor product
        st.how  = (int)s.draw(6);
        st.via  = (int)s.draw(4);
        st.ang  = 0;
        st.d    = 0;
        gen::unit3(s, st.ax);
        if (st.kind != 1)
            st.ang = (s.draw(2) ? -2 : 2) * gen::half_angle(s, PI);
        if (st.kind != 0)
            st.d = gen::unit(s) * far * 5 / 3;
        gen::vec3(s, st.ctr, far);
        reach += std::fabs(st.d) + std::max(6.0, 3 * std::max({std::fabs(st.ctr[0]), std::fabs(st.ctr[1]), std::fabs(st.ctr[2])}));
        rots += st.ang != 0;
        refl += st.kind == 3;
    }
    c.label(refl ? "with reflection" : "proper motions only");
    c.label(steps >= 5 ? "5+ steps" : "1-4 steps");
    c.nontrivial = steps >= 2 && rots >= 1;
    if (c.verbose)
    {
        char b[300];
        for (auto& st : hist)
        {
            static const char* nm[] = {"rotor", "translator", "screw", "reflection", "undo", "product"};
            snprintf(b, sizeof b, "%s angle %.7g axis (%.7g,%.7g,%.7g) distance %.7g centre (%.7g,%.7g,%.7g) how %d", nm[st.kind], st.ang,
                     st.ax[0], st.ax[1], st.ax[2], st.d, st.ctr[0], st.ctr[1], st.ctr[2], st.how);
            c.note(b);
        }
        c.note("points " + fmt(X[0], 16) + " planes " + fmt(P[0], 12) + " lines " + fmt(L[0], 12));
    }
    for (auto& st : hist)
    {
        c.h(st.kind * 8 + st.how);
        c.hf((float)st.ang);
        c.hf((float)st.d);
        for (int j = 0; j != 3; ++j)
            c.hf((float)st.ax[j]);
    }
    hash_in(c, 7, X[0], 16);
    for (auto& a : g_ad)
    {
        float p[3][4], x[4][4], l[2][6], d[4], acc[8] = {1, 0, 0, 0, 0, 0, 0, 0}, rev[8] = {1, 0, 0, 0, 0, 0, 0, 0}, o[16];
        std::memcpy(p, P, sizeof p);
        std::memcpy(x, X, sizeof x);
        std::memcpy(l, L, sizeof l);
        std::memcpy(d, Dd, sizeof d);
        Rigid world, proper, back; // what the scene went through; the part acc stands for; the same motions in the other order
        bool mirrored = false;     // a reflection happened: acc restarts
        Rigid prev;
        float prevm[8] = {1, 0, 0, 0, 0, 0, 0, 0};
        bool have_prev = false;
        double S = 1;
        int k = 0;
        for (auto& st : hist)
        {
            ++k;
            float m[8];
            Rigid g;
            auto act = [&](char t, float* f, int w) {
                float in[16];
                const char* op = t == 'P' ? "act_MP" : t == 'X' ? "act_MX" : t == 'L' ? "act_ML" : "act_MD";
                std::memcpy(in, m, 32);
                std::memcpy(in + 8, f, 4 * w);
                call(a, op, in, f);
            };
            float in[16];
            bool is_r = false, is_t = false;
            int kind = st.kind == 4 && !have_prev ? 2 : st.kind;
            if (kind == 0)
            {
                in[0] = (float)st.ang;
                for (int j = 0; j != 3; ++j)
                    in[1 + j] = (float)st.ax[j];
                call(a, "mk_R", in, o); // the rotor turns by -angle, right-handed
                float r4[4];
                std::memcpy(r4, o, 16);
                call(a, "motor_R", r4, m);
                g    = rodrigues(st.ax, -st.ang);
                is_r = true;
            }
            else if (kind == 1)
            {
                in[0] = (float)st.d;
                for (int j = 0; j != 3; ++j)
                    in[1 + j] = (float)st.ax[j];
                call(a, "mk_T", in, o);
                float t3[3];
                std::memcpy(t3, o, 12);
                call(a, "motor_T", t3, m);
                double t[3] = {st.d * st.ax[0], st.d * st.ax[1], st.d * st.ax[2]};
                g    = translation(t);
                is_t = true;
            }
            else if (kind == 2)
            {
                double tt[3] = {-0.5 * st.ctr[0], -0.5 * st.ctr[1], -0.5 * st.ctr[2]};
                MV ax        = ref::sandwich(ref::lift('T', tt), gen::biv(0, 0, 0, st.ax[0], st.ax[1], st.ax[2]));
                in[0]        = (float)st.ang;
                in[1]        = (float)st.d;
                gen::lower(ax, 'L', in + 2);
                call(a, "mk_M", in, m);
                double t[3] = {st.d * st.ax[0], st.d * st.ax[1], st.d * st.ax[2]};
                double mc[3] = {-st.ctr[0], -st.ctr[1], -st.ctr[2]};
                g = compose(translation(st.ctr), compose(compose(translation(t), rodrigues(st.ax, st.ang)), translation(mc)));
            }
            else if (kind == 4)
            {
                call(a, "inv_M", prevm, m);
                g = inverse(prev);
            }
            else if (kind == 5)
            {
                // translator * rotor product
                in[0] = (float)st.d;
                for (int j = 0; j != 3; ++j)
                    in[1 + j] = (float)st.ax[(j + 1) % 3];
                call(a, "mk_T", in, o);
                float tr[7];
                std::memcpy(tr, o, 12);
                in[0] = (float)st.ang;
                for (int j = 0; j != 3; ++j)
                    in[1 + j] = (float)st.ax[j];
                call(a, "mk_R", in, o);
                std::memcpy(tr + 3, o, 16);
                call(a, "gp_TR", tr, m);
                double t[3] = {st.d * st.ax[1], st.d * st.ax[2], st.d * st.ax[0]};
                g = compose(translation(t), rodrigues(st.ax, -st.ang));
            }
            if (kind == 3)
            {
                float q[4];
                q[0] = (float)st.d;
                for (int j = 0; j != 3; ++j)
                    q[1 + j] = (float)st.ax[j];
                for (auto& f : p)
                {
                    std::memcpy(in, q, 16);
                    std::memcpy(in + 4, f, 16);
                    call(a, "refl_PP", in, f);
                }
                for (auto& f : x)
                {
                    std::memcpy(in, q, 16);
                    std::memcpy(in + 4, f, 16);
                    call(a, "refl_PX", in, f);
                }
                for (auto& f : l)
                {
                    std::memcpy(in, q, 16);
                    std::memcpy(in + 4, f, 24);
                    call(a, "refl_PL", in, f);
                }
                // direction: reflected as an ideal point
                std::memcpy(in, q, 16);
                std::memcpy(in + 4, d, 16);
                call(a, "refl_PX", in, d);
                for (int i = 0; i != 3; ++i)
                {
                    for (int j = 0; j != 3; ++j)
                        g.r[i][j] = (i == j) - 2 * st.ax[i] * st.ax[j];
                    g.t[i] = -2 * st.d * st.ax[i];
                }
                mirrored  = true;
                have_prev = false;
            }
            else
            {
                // a motor may be replaced by an equal one on the way
                if (st.how == 1)
                    call(a, "nrm_M", m, m);
                else if (st.how == 2)
                    call(a, "con_M", m, m);
                else if (st.how == 3)
                {
                    float l6[6], mm[8];
                    std::memcpy(mm, m, 32);
                    double sn = std::sqrt(mm[1] * mm[1] + mm[2] * mm[2] + mm[3] * mm[3]);
                    if (mm[0] > -0.9 && (sn > 1e-2 || sn == 0))
                    {
                        call(a, "log_M", mm, l6);
                        call(a, "exp_L", l6, m);
                    }
                }
                if (st.how == 4 && is_r && !mirrored)
                {
                    // apply the rotor itself, not the motor
                    float r4[4];
                    std::memcpy(r4, m, 16);
                    for (auto& f : p) { std::memcpy(in, r4, 16); std::memcpy(in + 4, f, 16); call(a, "act_RP", in, f); }
                    for (auto& f : x) { std::memcpy(in, r4, 16); std::memcpy(in + 4, f, 16); call(a, "act_RX", in, f); }
                    for (auto& f : l) { std::memcpy(in, r4, 16); std::memcpy(in + 4, f, 24); call(a, "act_RL", in, f); }
                    std::memcpy(in, r4, 16);
                    std::memcpy(in + 4, d, 16);
                    call(a, "act_RD", in, d);
                }
                else if (st.how == 4 && is_t)
                {
                    float t3[3];
                    std::memcpy(t3, m + 4, 12);
                    for (auto& f : p) { std::memcpy(in, t3, 12); std::memcpy(in + 3, f, 16); call(a, "act_TP", in, f); }
                    for (auto& f : x) { std::memcpy(in, t3, 12); std::memcpy(in + 3, f, 16); call(a, "act_TX", in, f); }
                    for (auto& f : l) { std::memcpy(in, t3, 12); std::memcpy(in + 3, f, 24); call(a, "act_TL", in, f); }
                }
                else if (st.how == 5)
                {
                    alignas(16) float bx[4][4], bp[3][4], bd[4], bl[2][8];
                    std::memcpy(bx, x, sizeof bx);
                    std::memcpy(bp, p, sizeof bp);
                    std::memcpy(bd, d, sizeof bd);
                    for (int i = 0; i != 2; ++i)
                    {
                        bl[i][0] = bl[i][4] = 0;
                        for (int j = 0; j != 3; ++j)
                        {
                            bl[i][1 + j] = l[i][3 + j];
                            bl[i][5 + j] = l[i][j];
                        }
                    }
                    auto run = [&](const char* nm, void* buf, size_t n) {
                        kv_batch_fn f = a.batches.at(nm)->fn;
                        poison_stack();
                        guarded(nm, [&] { f(m, buf, buf, n); });
                    };
                    run("batch_MX", bx, 4);
                    run("batch_MP", bp, 3);
                    run("batch_MD", bd, 1);
                    run("batch_ML", bl, 2);
                    std::memcpy(x, bx, sizeof bx);
                    std::memcpy(p, bp, sizeof bp);
                    std::memcpy(d, bd, sizeof bd);
                    for (int i = 0; i != 2; ++i)
                        for (int j = 0; j != 3; ++j)
                        {
                            l[i][3 + j] = bl[i][1 + j];
                            l[i][j]     = bl[i][5 + j];
                        }
                }
                else
                {
                    for (auto& f : p)
                        act('P', f, 4);
                    for (auto& f : x)
                        act('X', f, 4);
                    for (auto& f : l)
                        act('L', f, 6);
                    act('D', d, 4);
                }
                chain(a, is_r ? 'R' : is_t ? 'T' : 'M', st.via, m, acc);
                chain(a, is_r ? 'R' : is_t ? 'T' : 'M', st.via + 4, m, rev);
                proper = compose(g, proper);
                back   = compose(back, g);
                std::memcpy(prevm, m, 32);
                prev      = g;
                have_prev = true;
            }
            if (kind == 3)
            {
                // the product of motors seen so far no longer describes the scene
                float id[8] = {1, 0, 0, 0, 0, 0, 0, 0};
                std::memcpy(acc, id, 32);
                std::memcpy(rev, id, 32);
                proper = back = Rigid{};
            }
            world = compose(g, world);
            for (double t : world.t)
                S = std::max(S, std::fabs(t));
            // compare the scene with the model after every step
            double tol = 6e-6 * k * (reach + S);
            char what[80];
            for (int i = 0; i != 4; ++i)
            {
                double w[3];
                xform(world, px[i], w);
                if (!(std::fabs(x[i][0]) > 0.5))
                    fail("point weight lost");
                snprintf(what, sizeof what, "step %d: point %d", k, i);
                for (int j = 0; j != 3; ++j)
                    cmp(what, a, x[i][1 + j] / x[i][0], w[j], tol);
            }
            for (int i = 0; i != 3; ++i)
            {
                double n[3], q[3], onp[3];
                double nn = pn[i][0] * pn[i][0] + pn[i][1] * pn[i][1] + pn[i][2] * pn[i][2];
                xform(world, pn[i], n, true);
                for (int j = 0; j != 3; ++j)
                    onp[j] = -pd[i] * pn[i][j] / nn;
                xform(world, onp, q);
                double off = -(n[0] * q[0] + n[1] * q[1] + n[2] * q[2]);
                // p x p of a plane by a mirror keeps its normal's image up to sign
                double sg = (p[i][1] * n[0] + p[i][2] * n[1] + p[i][3] * n[2]) < 0 ? -1 : 1;
                if (!refl && sg < 0)
                    fail("plane orientation flipped by a proper motion [" + a.name + "]");
                snprintf(what, sizeof what, "step %d: plane %d", k, i);
                for (int j = 0; j != 3; ++j)
                    cmp(what, a, p[i][1 + j], sg * n[j], 4e-6 * k * 2);
                cmp(what, a, p[i][0], sg * off, tol * 2);
            }
            for (int i = 0; i != 2; ++i)
            {
                double n[3], q[3];
                xform(world, ln[i], n, true);
                xform(world, lc[i], q);
                double tt[3] = {-0.5 * q[0], -0.5 * q[1], -0.5 * q[2]};
                MV w         = ref::sandwich(ref::lift('T', tt), gen::biv(0, 0, 0, n[0], n[1], n[2]));
                double sg = (l[i][3] * n[0] + l[i][4] * n[1] + l[i][5] * n[2]) < 0 ? -1 : 1;
                if (!refl && sg < 0)
                    fail("line orientation flipped by a proper motion [" + a.name + "]");
                snprintf(what, sizeof what, "step %d: line %d", k, i);
                auto& lay = ref::layout('L');
                for (int j = 0; j != 6; ++j)
                    cmp(what, a, l[i][j], sg * ref::get(w, lay[j]).v, j < 3 ? tol * 4 : 4e-6 * k * 2);
            }
            {
                double w[3];
                xform(world, dd, w, true);
                snprintf(what, sizeof what, "step %d: direction", k);
                double sg = refl && (w[0] * d[1] + w[1] * d[2] + w[2] * d[3]) < 0 ? -1 : 1;
                for (int j = 0; j != 3; ++j)
                    cmp(what, a, d[1 + j], sg * w[j], 4e-6 * k * 2);
            }
            // the product of all motors so far moves points like the sequence did
            for (int i = 0; i != 4; ++i)
            {
                double w[3];
                Rigid const& gg = i < 2 ? proper : back;
                xform(gg, px[i], w);
                std::memcpy(in, i < 2 ? acc : rev, 32);
                std::memcpy(in + 8, X[i], 16);
                call(a, "act_MX", in, o);
                snprintf(what, sizeof what, "step %d: product of the motors%s on point %d", k, i < 2 ? "" : " in reverse order", i);
                double SS = 1;
                for (double t : gg.t)
                    SS = std::max(SS, std::fabs(t));
                for (int j = 0; j != 3; ++j)
                    cmp(what, a, o[1 + j] / o[0], w[j], 8e-6 * k * (reach + SS));
            }
        }
    }
}

// -------------------------------------------------------------- C09 inverses
bool good_norm(const float* f, int n, double lo = 1e-3, double hi = 1e4)
{
    double q = 0;
    for (int i = 0; i != n; ++i)
        q += (double)f[i] * f[i];
    return q > lo * lo && q < hi * hi;
}
void invertible1(Src& s, char t, float* f);
// an operand with a usable invertible part, at any scale
void invertible(Src& s, char t, float* f)
{
    invertible1(s, t, f);
    if (t == 'T')
        return;
    int w = ref::width(t);
    if (s.chance(1, 10)) // a norm (weight) next to one
    {
        const double u = 1 + std::ldexp(s.draw(2) ? 1.0 : -1.0, -s.range(4, 22));
        const int b    = t == 'L' ? 3 : t == 'P' || t == 'D' ? 1 : 0, n = t == 'R' || t == 'M' ? 4 : 3;
        double q       = 0;
        for (int i = b; i != b + n; ++i)
            q += (double)f[i] * f[i];
        if (t == 'X')
            f[0] = (float)(f[0] < 0 ? -u : u);
        else
            for (int i = 0; i != w; ++i)
                f[i] = (float)(f[i] * u / std::sqrt(q));
        return;
    }
    if (s.draw(4))
        return;
    float m = 0;
    for (int i = 0; i != w; ++i)
        m = std::max(m, std::fabs(f[i]));
    if (m > 64.f || m < 1 / 64.f)
        return;
    int lim = t == 'L' || t == 'M' ? 16 : 36;
    float k = std::ldexp(1.f, s.range(-lim, lim));
    for (int i = 0; i != w; ++i)
        f[i] *= k;
}
void invertible1(Src& s, char t, float* f)
{
    gen::operand(s, t, f);
    switch (t)
    {
    case 'P':
        if (!good_norm(f + 1, 3))
            f[1] = gen::nonzero(s);
        break;
    case 'X':
        if (!(std::fabs(f[0]) > 1e-3))
            f[0] = gen::nonzero(s);
        break;
    case 'B':
        if (!good_norm(f, 3))
            f[0] = gen::nonzero(s);
        break;
    case 'L':
        if (!good_norm(f + 3, 3))
            f[3] = gen::nonzero(s);
        break;
    case 'R':
    case 'M':
        if (!good_norm(f, 4))
            f[0] = gen::nonzero(s);
        break;
    case 'D':
        if (!good_norm(f + 1, 3))
            f[1] = gen::nonzero(s);
        break;
    }
}
// inverse in the algebra: rev(x) / (x rev(x)), x rev(x) = a + b e0123
MV inv(MV const& x)
{
    MV n = x * ref::rev(x);
    D a = n[0], b = n[15];
    MV r = ref::named(ref::ONE, D(1.0) / a) + ref::named(ref::E0123, -(b / (a * a)));
    return ref::rev(x) * r;
}
void prop_C09(Src& s, Ctx& c)
{
    static const char* types = "PXBLRTM";
    uint32_t k = s.draw(10);
    char nm[16];
    float in[16], out[16];
    if (k < 5)
    {
        char t = types[s.draw(7)];
        invertible(s, t, in);
        int w = ref::width(t);
        snprintf(nm, sizeof nm, "inv%s_%c", s.draw(2) ? "i" : "", t);
        static thread_local std::set<std::string> names;
        Case kk(c, names.insert(nm).first->c_str(), in, w, 1000 + t);
        c.nontrivial = nonzeros(in, w) >= 2;
        MV x = ref::lift(t, in);
        each([&](Adapter const& a) {
            call(a, nm, in, out);
            MV y = ref::lift(t, out), l = x * y, r = y * x;
            if (t == 'X')
            {
                // the inverse of a point is defined up to the sign of the point, the same one for every point
                const float o[4] = {1, 0, 0, 0};
                float po[4];
                call(a, nm, o, po);
                if (po[0] > 0) // E123 squares to -1
                    l = ref::scale(l, -1.0), r = ref::scale(r, -1.0);
            }
            for (int i = 0; i != 16; ++i)
            {
                double want = i == 0;
                for (auto* q : {&l, &r})
                    if (!(std::fabs((*q)[i].v - want) <= REL * ((*q)[i].m + (i == 0)) + TINY))
                    {
                        char b[300];
                        snprintf(b, sizeof b, "%s [%s]: object * inverse has coefficient %.9g at blade %d, expected %g (tolerance %.3g); inverse %s",
                                 nm, a.name.c_str(), (*q)[i].v, i, want, REL * (*q)[i].m, fmt(out, w).c_str());
                        fail(b);
                    }
            }
            char nk[16];
            snprintf(nk, sizeof nk, "invk_%c", t);
            call(a, nk, in, out);
            for (int i = 0; i != w; ++i)
                if (out[i] != in[i])
                    fail(std::string(nk) + " [" + a.name + "]: taking the inverse modified the object");
        });
        return;
    }
    struct Dv
    {
        const char* n;
        char a, b, o;
    };
    static const Dv dv[] = {{"div_PP", 'P', 'P', 'M'}, {"div_XX", 'X', 'X', 'T'}, {"div_BB", 'B', 'B', 'R'}, {"div_RR", 'R', 'R', 'R'},
                            {"div_TT", 'T', 'T', 'T'}, {"div_LL", 'L', 'L', 'M'}, {"div_MR", 'M', 'R', 'M'}, {"div_MT", 'M', 'T', 'M'},
                            {"div_MM", 'M', 'M', 'M'}};
    const Dv& d = dv[s.draw(9)];
    int wa      = ref::width(d.a);
    gen::operand(s, d.a, in);
    if (d.a == d.b && s.chance(1, 4))
        gen::related(s, d.b, in + wa, in);
    else
        invertible(s, d.b, in + wa);
    if (s.chance(1, 6))
    {
        std::vector<int> v;
        gen::vectors(d.a, 0, v);
        gen::vectors(d.b, wa, v);
        gen::special(s, in, wa + ref::width(d.b), v);
    }
    if (d.b == 'P' ? !good_norm(in + wa + 1, 3) : d.b == 'X' ? !(std::fabs(in[wa]) > 1e-3) : d.b == 'T' ? false : d.b == 'L' ? !good_norm(in + wa + 3, 3) : !good_norm(in + wa, d.b == 'B' ? 3 : 4))
        invertible(s, d.b, in + wa);
    if (d.a == 'X' && std::fabs(in[0]) < 1e-3f)
        in[0] = 1;
    Case kk(c, d.n, in, wa + ref::width(d.b), 1100);
    c.nontrivial = nonzeros(in, wa) >= 2;
    MV A = ref::lift(d.a, in), Bm = ref::lift(d.b, in + wa);
    MV w = A * inv(Bm);
    if (d.o == 'T')
        w = ref::scale(w, D(1 / w[0].v));
    each([&](Adapter const& a) {
        call(a, d.n, in, out);
        cmp_mv(d.n, a, d.o, out, w, 2 * REL);
    });
}

// --------------------------------------------------------- C10 normalisation
void prop_C10(Src& s, Ctx& c)
{
    static const char* types = "PXDBLRM";
    char t = types[s.draw(7)];
    float in[16], out[16];
    invertible(s, t, in);
    int w = ref::width(t), variant = (int)s.draw(3);
    char nm[16];
    snprintf(nm, sizeof nm, "nrm%s_%c", variant == 1 ? "i" : "", t);
    static thread_local std::set<std::string> names;
    Case kk(c, names.insert(nm).first->c_str(), in, w, 1200 + t);
    c.nontrivial = nonzeros(in, w) >= 2;
    MV x = ref::lift(t, in), want;
    if (t == 'X')
        want = ref::scale(x, D(1 / (double)in[0]));
    else if (t == 'D')
        want = ref::scale(x, D(1 / std::sqrt((double)in[1] * in[1] + (double)in[2] * in[2] + (double)in[3] * in[3])));
    else
    {
        MV n     = x * ref::rev(x);
        double a = n[0].v, b = n[15].v, q = std::sqrt(a);
        MV r = ref::named(ref::ONE, D(1 / q)) + ref::named(ref::E0123, D(-b / (2 * a * q)));
        want = x * r;
        // cancellation inside b
        for (int i = 0; i != 16; ++i)
            want[i].m = std::max(want[i].m, 0.0);
        if (n[15].m > std::fabs(b))
        {
            MV r2 = ref::named(ref::ONE, D(1 / q)) + ref::named(ref::E0123, D(0, n[15].m / (2 * a * q)));
            MV w2 = x * r2;
            for (int i = 0; i != 16; ++i)
                want[i].m = std::max(want[i].m, w2[i].m);
        }
    }
    each([&](Adapter const& a) {
        call(a, nm, in, out);
        cmp_mv(nm, a, t, out, want);
        if (variant == 2)
        {
            float o2[16];
            call(a, nm, out, o2); // normalising again changes nothing
            cmp_mv("normalising twice", a, t, o2, want, 3 * REL);
        }
        char nk[16];
        snprintf(nk, sizeof nk, "nrmk_%c", t);
        call(a, nk, in, out);
        for (int i = 0; i != w; ++i)
            if (out[i] != in[i])
                fail(std::string(nk) + " [" + a.name + "]: normalized() modified the object");
    });
}

// --------------------------------------------------- C11 exponential/logarithm
double max3(const float* f) { return std::max({std::fabs(f[0]), std::fabs(f[1]), std::fabs(f[2])}); }
void cmp_tol(const char* what, Adapter const& a, char t, const float* got, MV const& w, const double* tol)
{
    auto& l = ref::layout(t);
    for (int i = 0; i != (int)l.size(); ++i)
    {
        double v = ref::get(w, l[i]).v;
        if (g_margin)
            margin(std::string(what) + " " + coef_name(t, i), std::fabs(got[i] - v), tol[i]);
        if (!(std::fabs(got[i] - v) <= tol[i] + TINY))
        {
            char b[400];
            snprintf(b, sizeof b, "%s [%s]: coefficient %s is %.9g, expected %.9g (tolerance %.3g); result %s", what, a.name.c_str(),
                     coef_name(t, i), (double)got[i], v, tol[i], fmt(got, (int)l.size()).c_str());
            fail(b);
        }
    }
}
// e: relative error of a step; the line's Euclidean part a (length u) is turned
// into sin(u) a/u, the error of u enters the scalar with the factor sin(u)
void exp_tol(double* tol, const float* line, double u, double b, double e)
{
    double sn = std::fabs(std::sin(u));
    tol[0]    = 0.3 * e + e * u * sn;
    for (int i = 0; i != 3; ++i)
    {
        tol[1 + i] = e * (std::fabs(line[3 + i]) + 1e-7 * u); // the series in double is not exact either
        tol[4 + i] = e * (1 + u) * b;
    }
    tol[7] = e * b * (sn + u);
}
// of exp(log m)
void log_tol(double* tol, const float* in)
{
    double sn = std::sqrt((double)in[1] * in[1] + (double)in[2] * in[2] + (double)in[3] * in[3]), u = std::atan2(sn, (double)in[0]);
    double cond = sn > 0 ? u / sn : 1, q7 = std::fabs(in[7]), bi = max3(in + 4);
    // how far the rounded coefficients are from those of a screw motion
    MV m         = ref::lift('M', in);
    double study = std::fabs((m * ref::rev(m))[15].v);
    tol[0] = 1.5e-6 * std::fabs(in[0]) + 6e-6 * u * sn;
    for (int i = 0; i != 3; ++i)
    {
        tol[1 + i] = 6e-6 * cond * (std::fabs(in[1 + i]) + 1e-7 * sn);
        tol[4 + i] = 8e-6 * cond * std::max(bi, q7) + study;
    }
    tol[7] = 8e-6 * cond * (bi * sn + q7) + study;
}
void prop_C11(Src& s, Ctx& c)
{
    float in[16], out[16], o2[16];
    switch (s.draw(9))
    {
    case 0: // exp of an arbitrary bivector
    case 1:
    {
        double lim = s.draw(4) == 3 ? s.chance(1, 4) ? 3000 : 60 : 4;
        gen::Screw q = gen::screw(s, lim);
        MV lg = q.log;
        if (s.draw(3) == 0 && !q.pure_translation) // also with a given sense
            lg = ref::scale(lg, -1.0);
        gen::lower(lg, 'L', in);
        double u = std::sqrt((double)in[3] * in[3] + (double)in[4] * in[4] + (double)in[5] * in[5]), b = max3(in);
        if (u != 0 && u < 1e-7)
            in[3] = in[4] = in[5] = 0, u = 0;
        Case k(c, u == 0 ? "exp(line), no rotation" : "exp(line)", in, 6, 1300);
        c.nontrivial = u != 0;
        // round-off of the input makes the line non-simple; the series takes it as it is
        MV w = ref::exp_series(gen::clean(ref::lift('L', in)));
        double tol[8];
        exp_tol(tol, in, u, b, 4e-6);
        each([&](Adapter const& a) {
            call(a, "exp_L", in, out);
            cmp_tol("exp(line)", a, 'M', out, w, tol);
        });
        return;
    }
    case 2: // exp of a general (non-simple) bivector
    {
        gen::operand(s, 'L', in);
        for (int i = 0; i != 6; ++i)
            if (!(std::fabs(in[i]) < 50))
                in[i] = 1;
        double u = std::sqrt((double)in[3] * in[3] + (double)in[4] * in[4] + (double)in[5] * in[5]), b = max3(in);
        if (u < 1e-5)
            in[3] = in[4] = in[5] = 0, u = 0;
        Case k(c, "exp(any bivector)", in, 6, 1301);
        c.nontrivial = u != 0 && b != 0;
        MV w = ref::exp_series(gen::clean(ref::lift('L', in)));
        double tol[8];
        exp_tol(tol, in, u, b, 4e-6);
        each([&](Adapter const& a) {
            call(a, "exp_L", in, out);
            cmp_tol("exp(bivector)", a, 'M', out, w, tol);
        });
        return;
    }
    case 3: // log of a unit motor, then the exact exponential
    case 4:
    {
        gen::Screw q = gen::unit_motor(s, in, PI);
        int sg       = s.draw(4) == 3 ? -1 : 1;
        for (int i = 0; i != 8; ++i)
            in[i] *= (float)sg;
        double sn = std::sqrt((double)in[1] * in[1] + (double)in[2] * in[2] + (double)in[3] * in[3]);
        // -1 and its close neighbourhood have no (stable) logarithm
        if (in[0] < 0 && sn < 2e-3)
        {
            if (sn != 0)
            {
                for (int i = 0; i != 8; ++i)
                    in[i] = -in[i];
            }
        }
        if (sn != 0 && sn < 1e-7)
        {
            in[1] = in[2] = in[3] = 0;
            sn                    = 0;
            in[7]                 = 0;
        }
        Case k(c, sn == 0 ? "log(motor), no rotation" : std::fabs(in[0]) < 1e-5 ? "log(motor), half turn" : "log(motor)", in, 8, 1302);
        c.nontrivial = sn != 0;
        MV m = ref::lift('M', in);
        double tol[8], tol2[8];
        log_tol(tol, in);
        for (int i = 0; i != 8; ++i)
            tol2[i] = 2 * tol[i];
        each([&](Adapter const& a) {
            call(a, "log_M", in, out);
            for (int i = 0; i != 6; ++i)
                if (!std::isfinite(out[i]))
                    fail("log(motor) [" + a.name + "] is not finite: " + fmt(out, 6));
            double uu = std::sqrt((double)out[3] * out[3] + (double)out[4] * out[4] + (double)out[5] * out[5]);
            if (uu > PI * (1 + 1e-5))
                fail("log(motor) [" + a.name + "] is not the principal one: half-angle " + std::to_string(uu));
            MV e = ref::exp_series(gen::clean(ref::lift('L', out)));
            // without rotation -1 * translator stands for the same motion as
            // the translator with the positive scalar
            float g[8];
            gen::values(e, 'M', g);
            MV w = m;
            if (sn == 0 && in[0] < 0)
                w = ref::scale(m, -1.0);
            cmp_tol("exp(log(motor))", a, 'M', g, w, tol);
            if (sn == 0 && in[0] < 0)
                return;
            call(a, "exp_L", out, o2);
            cmp_tol("exp(log(motor)) by the library", a, 'M', o2, w, tol2);
        });
        return;
    }
    case 5: // interpolation: exp(t log m) is the screw motion scaled by t
    {
        gen::Screw q = gen::unit_motor(s, in, PI * 0.95);
        float t;
        switch (s.draw(4))
        {
        case 0: t = 0.5f; break;
        case 1: t = (float)s.range(-3, 3); break;
        case 2: t = 1.f / (float)s.range(1, 9); break;
        default: t = (float)(gen::unit(s) * 2);
        }
        double sn = std::sqrt((double)in[1] * in[1] + (double)in[2] * in[2] + (double)in[3] * in[3]);
        if (sn < 1e-6)
        {
            if (!q.pure_translation)
            {
                q.pure_translation = true;
                in[0]              = 1;
                in[1] = in[2] = in[3] = in[7] = 0;
                for (int i = 0; i != 3; ++i)
                    q.t[i] = in[4 + i];
                q.log = gen::biv(q.t[0], q.t[1], q.t[2], 0, 0, 0);
            }
        }
        in[8] = t;
        Case k(c, q.pure_translation ? "interpolate translation" : "interpolate screw", in, 9, 1303);
        c.nontrivial = !q.pure_translation && t != 0 && t != 1;
        MV w     = ref::exp_series(gen::clean(ref::scale(q.log, D((double)t))));
        double b = 0, nn = q.pure_translation ? 0 : q.u, ut = std::fabs(t) * nn, tol[8];
        for (auto& id : {ref::E01, ref::E02, ref::E03})
            b = std::max(b, std::fabs(ref::get(q.log, id).v));
        double cond = q.pure_translation ? 1 : q.u / std::sin(q.u), e = 8e-6 * cond * (1 + std::fabs(t));
        static const ref::Named eu[3] = {ref::E23, ref::E31, ref::E12};
        tol[0] = 2e-6 * (1 + ut) + e * ut * std::fabs(std::sin(ut));
        for (int i = 0; i != 3; ++i)
        {
            tol[1 + i] = e * std::fabs(ref::get(q.log, eu[i]).v) + 1e-7 * e;
            tol[4 + i] = 1.5 * e * b + 1e-7 * e;
        }
        tol[7] = 1.5 * e * b + 1e-7 * e;
        // a tiny rotation about a far axis: the position of the axis is only
        // known to eps * distance / angle
        each([&](Adapter const& a) {
            call(a, "explog_M", in, out);
            cmp_tol("exp(t log(motor))", a, 'M', out, w, tol);
        });
        return;
    }
    case 6: // rotor
    {
        double lim = PI;
        gen::unit_rotor(s, in, lim);
        if (s.draw(4) == 3)
            for (int i = 0; i != 4; ++i)
                in[i] = -in[i];
        double sn = std::sqrt((double)in[1] * in[1] + (double)in[2] * in[2] + (double)in[3] * in[3]);
        if (in[0] < 0 && sn < 2e-3)
            in[0] = -in[0];
        if (sn != 0 && sn < 1e-12)
            in[1] = in[2] = in[3] = 0, sn = 0;
        double u = std::atan2(sn, (double)in[0]), cond = sn > 0 ? u / sn : 1;
        int mode = (int)s.draw(2);
        float t  = mode ? (float)(gen::unit(s) * 2) : 1.f;
        in[4]    = t;
        Case k(c, sn == 0 ? "log(identity rotor)" : sn < 1e-3 ? "log(rotor), small angle" : "log(rotor)", in, 5, 1304);
        c.nontrivial = sn != 0;
        // the rotor may be off unit length by round-off
        double n = std::sqrt((double)in[0] * in[0] + sn * sn);
        each([&](Adapter const& a) {
            call(a, "log_R", in, out);
            for (int i = 0; i != 3; ++i)
                cmp("log(rotor)", a, out[i], sn > 0 ? in[1 + i] / n * cond : 0, 6e-6 * cond * std::fabs(in[1 + i]));
            call(a, "exp_B", out, o2);
            for (int i = 0; i != 4; ++i)
                cmp("exp(log(rotor))", a, o2[i], in[i] / n, i ? 1e-5 * cond * std::fabs(in[i]) : 2e-6 * std::fabs(in[0]) + 1e-5 * u * sn);
            if (mode)
            {
                call(a, "explog_R", in, o2);
                double ut = u * t;
                for (int i = 0; i != 4; ++i)
                    cmp("exp(t log(rotor))", a, o2[i], i == 0 ? std::cos(ut) : sn > 0 ? std::sin(ut) * in[i] / sn : 0,
                        i ? 1e-5 * cond * std::fabs(in[i] * t) : 2e-6 + 1e-5 * std::fabs(ut * std::sin(ut)));
            }
        });
        return;
    }
    case 7: // branch
    {
        double n[3], u = gen::half_angle(s, s.draw(3) ? PI : s.draw(3) ? 50 : 5000);
        gen::unit3(s, n);
        for (int i = 0; i != 3; ++i)
            in[i] = (float)(u * n[i]);
        u = std::sqrt((double)in[0] * in[0] + (double)in[1] * in[1] + (double)in[2] * in[2]);
        Case k(c, u == 0 ? "exp(zero branch)" : "exp(branch)", in, 3, 1305);
        c.nontrivial = u != 0;
        each([&](Adapter const& a) {
            call(a, "exp_B", in, out);
            for (int i = 0; i != 4; ++i)
                cmp("exp(branch)", a, out[i], i == 0 ? std::cos(u) : u > 0 ? std::sin(u) * in[i - 1] / u : 0, i ? 4e-6 * std::fabs(in[i - 1]) : 1.2e-6 + 4e-6 * std::fabs(u * std::sin(u)));
        });
        return;
    }
    default: // translator and ideal line
    {
        gen::coefs(s, in, 3);
        if (s.chance(1, 4)) // nothing is squared
        {
            float k2 = std::ldexp(1.f, s.range(-60, 90));
            for (int i = 0; i != 3; ++i)
                in[i] *= k2;
        }
        in[3] = gen::mild(s);
        Case k(c, "exp/log translator", in, 4, 1306);
        c.nontrivial = nonzeros(in, 3) >= 2;
        each([&](Adapter const& a) {
            call(a, "exp_I", in, out);
            for (int i = 0; i != 3; ++i)
                cmp("exp(ideal line)", a, out[i], in[i], 1e-6 * std::fabs(in[i]));
            call(a, "log_T", in, out);
            for (int i = 0; i != 3; ++i)
                cmp("log(translator)", a, out[i], in[i], 1e-6 * std::fabs(in[i]));
            call(a, "explog_T", in, out);
            for (int i = 0; i != 3; ++i)
                cmp("exp(t log(translator))", a, out[i], (double)in[3] * in[i], 1e-6 * std::fabs((double)in[3] * in[i]));
        });
    }
    }
}

// -------------------------------------------------------- C12 square roots
void prop_C12(Src& s, Ctx& c)
{
    float in[8], out[8];
    switch (s.draw(5))
    {
    case 0:
    case 1:
    {
        gen::unit_motor(s, in, PI);
        if (s.draw(4) == 3)
            for (float& f : in)
                f = -f;
        if (in[0] < -0.9999f)
            for (float& f : in)
                f = -f;
        double b = std::max(max3(in + 4), (double)std::fabs(in[7])), k = 1 / (1 + in[0]), tol[8];
        for (int i = 0; i != 8; ++i)
            tol[i] = i == 0 ? 6e-6 : i < 4 ? (1e-5 + 1e-6 * k) * std::fabs(in[i]) : (1e-5 + 1e-6 * k) * b * (1 + std::sqrt(k));
        Case kk(c, "sqrt(motor)", in, 8, 1400);
        c.nontrivial = nonzeros(in, 8) >= 3;
        MV m = ref::lift('M', in);
        each([&](Adapter const& a) {
            call(a, "sqrt_M", in, out);
            if (!(out[0] >= 0))
                fail("sqrt(motor) [" + a.name + "] is not the principal root: " + fmt(out, 8));
            MV r = ref::lift('M', out);
            float g[8];
            gen::values(r * r, 'M', g);
            cmp_tol("sqrt(motor)^2", a, 'M', g, m, tol);
        });
        return;
    }
    case 2:
    {
        gen::unit_rotor(s, in, PI);
        if (s.draw(4) == 3)
            for (int i = 0; i != 4; ++i)
                in[i] = -in[i];
        if (in[0] < -0.9999f)
            for (int i = 0; i != 4; ++i)
                in[i] = -in[i];
        Case kk(c, "sqrt(rotor)", in, 4, 1401);
        c.nontrivial = nonzeros(in, 4) >= 2;
        double k = 1 / (1 + in[0]);
        MV m = ref::lift('R', in);
        each([&](Adapter const& a) {
            call(a, "sqrt_R", in, out);
            if (!(out[0] >= 0))
                fail("sqrt(rotor) [" + a.name + "] is not the principal root: " + fmt(out, 4));
            MV r = ref::lift('R', out), q = r * r;
            gen::values(q, 'R', out);
            double tol[4];
            for (int i = 0; i != 4; ++i)
                tol[i] = i ? (1e-5 + 1e-6 * k) * std::fabs(in[i]) : 6e-6;
            cmp_tol("sqrt(rotor)^2", a, 'R', out, m, tol);
        });
        return;
    }
    case 3:
    {
        double n[3];
        gen::unit3(s, n);
        for (int i = 0; i != 3; ++i)
            in[i] = (float)n[i];
        Case kk(c, "sqrt(branch)", in, 3, 1402);
        c.nontrivial = nonzeros(in, 3) >= 2;
        MV m = ref::lift('B', in);
        each([&](Adapter const& a) {
            call(a, "sqrt_B", in, out);
            MV r = ref::lift('R', out), q = r * r;
            gen::values(q, 'R', out);
            double tol[4] = {3e-6, 1e-5 * std::fabs(in[0]), 1e-5 * std::fabs(in[1]), 1e-5 * std::fabs(in[2])};
            cmp_tol("sqrt(branch)^2", a, 'R', out, m, tol);
        });
        return;
    }
    default:
    {
        gen::coefs(s, in, 3);
        if (s.chance(1, 4)) // far beyond the other objects: halving is exact
        {
            float k = std::ldexp(1.f, s.range(-60, 100));
            for (int i = 0; i != 3; ++i)
                in[i] *= k;
        }
        Case kk(c, "sqrt(translator)", in, 3, 1403);
        c.nontrivial = nonzeros(in, 3) >= 2;
        each([&](Adapter const& a) {
            call(a, "sqrt_T", in, out);
            for (int i = 0; i != 3; ++i)
                cmp("sqrt(translator)", a, out[i], 0.5 * in[i], 1e-6 * std::fabs(in[i]));
        });
    }
    }
}

// ------------------------------------------------------------- C13 matrices
void prop_C13(Src& s, Ctx& c)
{
    bool motor = s.draw(2), m44 = s.draw(2);
    char t = motor ? 'M' : 'R';
    float in[16], out[16], o2[16];
    if (motor)
        gen::unit_motor(s, in);
    else
        gen::unit_rotor(s, in);
    int w = ref::width(t);
    if (m44 && s.chance(1, 3)) // the 4x4 conversion does not ask for a unit motor
    {
        float k = s.draw(3) ? gen::nonzero(s) : (float)(1 + gen::unit(s) * std::ldexp(1.0, -s.range(4, 18)));
        for (int i = 0; i != w; ++i)
            in[i] *= k;
        c.label("not normalised");
    }
    for (int i = 0; i != 3; ++i)
        in[w + i] = gen::mild(s);
    in[w + 3] = s.draw(3) == 2 ? gen::mild(s) : s.draw(2) ? 0.f : 1.f;
    char nm[16], nv[16];
    snprintf(nm, sizeof nm, "mat%d4_%c", m44 ? 4 : 3, t);
    snprintf(nv, sizeof nv, "matv%d4_%c", m44 ? 4 : 3, t);
    static thread_local std::set<std::string> names;
    Case kk(c, names.insert(nm).first->c_str(), in, w + 4, 1500 + motor * 2 + m44);
    c.nontrivial = nonzeros(in, w) >= 2;
    MV m = ref::lift(t, in);
    // column j: image of the direction e_j, then of the origin; rows x y z w
    D M[4][4]; // [col][row]
    for (int j = 0; j != 4; ++j)
    {
        float e[4] = {0, 0, 0, 0};
        e[j == 3 ? 0 : 1 + j] = 1;
        MV y  = ref::sandwich(m, ref::lift('X', e));
        auto& l = ref::layout('X');
        for (int r = 0; r != 4; ++r)
            M[j][r] = ref::get(y, l[r == 3 ? 0 : 1 + r]);
        if (m44 == false)
            M[j][3] = D(j == 3 ? 1.0 : 0.0);
    }
    each([&](Adapter const& a) {
        for (auto& o : out)
            o = kPoison;
        call(a, nm, in, out);
        for (int j = 0; j != 4; ++j)
            for (int r = 0; r != 4; ++r)
            {
                char b[60];
                snprintf(b, sizeof b, "%s column %d row %d", nm, j, r);
                // 1 - 2(..) style evaluation of a unit motor is allowed
                double n2 = !m44 && j == r ? 1 : 0;
                cmp(b, a, out[4 * j + r], M[j][r].v, REL * (M[j][r].m + n2));
            }
        call(a, nv, in, o2);
        for (int r = 0; r != 4; ++r)
        {
            D y(0.0);
            for (int j = 0; j != 4; ++j)
                y = y + M[j][r] * D((double)in[w + j]);
            char b[60];
            snprintf(b, sizeof b, "%s applied to a vector, row %d", nm, r);
            double mag = y.m;
            for (int j = 0; j != 4; ++j)
                mag += std::fabs(in[w + j]) * (1 + M[j][j].m);
            cmp(b, a, o2[r], y.v, REL * mag);
        }
    });
    if (s.chance(1, 6)) // the product of any matrix with a vector
    {
        float f[20], o[4];
        gen::coefs(s, f, 16);
        gen::coefs(s, f + 16, 4);
        each([&](Adapter const& a) {
            for (const char* n : {"matapply34", "matapply44"})
            {
                call(a, n, f, o);
                for (int r = 0; r != 4; ++r)
                {
                    D y(0.0);
                    for (int j = 0; j != 4; ++j)
                        y = y + D((double)f[4 * j + r]) * D((double)f[16 + j]);
                    cmp(n, a, o[r], y.v, 1e-6 * y.m);
                }
            }
        });
    }
}

// ----------------------------------------------------------- C14 Euler angles
// roll about x, then pitch about y, then yaw about z; the quaternion
// (w, x, y, z) of that rotation has its coefficients in (1, e23, e31, e12)
void euler_quat(double roll, double pitch, double yaw, double* q)
{
    double cr = std::cos(roll / 2), sr = std::sin(roll / 2), cp = std::cos(pitch / 2), sp = std::sin(pitch / 2),
           cy = std::cos(yaw / 2), sy = std::sin(yaw / 2);
    auto mul = [](const double* a, const double* b, double* o) {
        double r[4] = {a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
                       a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]};
        std::memcpy(o, r, sizeof r);
    };
    double x[4] = {cr, sr, 0, 0}, y[4] = {cp, 0, sp, 0}, z[4] = {cy, 0, 0, sy}, t[4];
    mul(y, x, t);
    mul(z, t, q);
}
double gen_angle(Src& s, double lim)
{
    switch (s.draw(6))
    {
    case 0: return 0;
    case 1: return s.range(-4, 4) * PI / 4 * (lim / PI);
    case 2: return gen::unit(s) * std::ldexp(1.0, -s.range(1, 18));
    case 3: return (s.draw(2) ? -1 : 1) * (lim - gen::pos(s) * std::ldexp(1.0, -s.range(1, 20)));
    default: return gen::unit(s) * lim;
    }
}
void prop_C14(Src& s, Ctx& c)
{
    float in[4], out[8], o2[8];
    double q[4];
    if (s.draw(3) == 0)
    {
        for (int i = 0; i != 3; ++i)
            in[i] = (float)gen_angle(s, s.chance(1, 4) ? s.draw(2) ? 16 * PI : 400 : 2 * PI);
        Case k(c, "rotor(euler angles)", in, 3, 1600);
        c.nontrivial = nonzeros(in, 3) >= 2;
        euler_quat(in[0], in[1], in[2], q);
        each([&](Adapter const& a) {
            call(a, "rot_E", in, out);
            for (int i = 0; i != 4; ++i)
                cmp("rotor(euler angles)", a, out[i], q[i], 6e-6 + 1.2e-7 * (std::fabs(in[0]) + std::fabs(in[1]) + std::fabs(in[2])));
        });
        return;
    }
    int gimbal = 0;
    if (s.draw(2))
        gen::unit_rotor(s, in, PI);
    else // through angles, so that the poles are reached
    {
        double r = gen_angle(s, PI), p = gen_angle(s, PI / 2), y = gen_angle(s, PI);
        euler_quat(r, p, y, q);
        double sg = s.draw(2) ? -1 : 1;
        for (int i = 0; i != 4; ++i)
            in[i] = (float)(sg * q[i]);
    }
    double sinp = 2 * ((double)in[0] * in[2] - (double)in[1] * in[3]);
    // closer to the pole than about a degree the angles are those of the pole
    gimbal = std::fabs(sinp) > 0.9997;
    Case k(c, gimbal ? (sinp > 0 ? "north pole" : "south pole") : "as_euler_angles", in, 4, 1601);
    c.nontrivial = nonzeros(in, 4) >= 2;
    each([&](Adapter const& a) {
        call(a, "euler_R", in, out);
        for (int i = 0; i != 3; ++i)
            if (!std::isfinite(out[i]))
                fail("as_euler_angles [" + a.name + "] is not finite: " + fmt(out, 3));
        if (std::fabs(out[1]) > PI / 2 * (1 + 1e-6))
            fail("as_euler_angles [" + a.name + "]: pitch out of range: " + fmt(out, 3));
        double e[4], dot = 0;
        euler_quat(out[0], out[1], out[2], e);
        for (int i = 0; i != 4; ++i)
            dot += e[i] * in[i];
        // sin(pitch) in single precision is exact to about 2e-7, the distance
        // to the pole therefore to about 6e-4
        double tol = gimbal ? std::acos(std::min(1.0, std::fabs(sinp))) + 2e-3 : 3e-5;
        for (int i = 0; i != 4; ++i)
            if (!(std::fabs(e[i] * (dot < 0 ? -1 : 1) - in[i]) <= tol))
            {
                char b[300];
                snprintf(b, sizeof b, "as_euler_angles [%s]: (roll %.7g, pitch %.7g, yaw %.7g) describe the rotor (%.6g,%.6g,%.6g,%.6g)", a.name.c_str(),
                         out[0], out[1], out[2], e[0], e[1], e[2], e[3]);
                fail(b);
            }
        call(a, "rot_E", out, o2);
        for (int i = 0; i != 4; ++i)
            cmp("rotor(as_euler_angles(r)) up to sign", a, o2[i] * (dot < 0 ? -1.f : 1.f), in[i], tol + 6e-6);
    });
}

// ------------------------------------------------------------ C15 projections
void put_point(float* f, const double* x)
{
    f[0] = 1;
    for (int i = 0; i != 3; ++i)
        f[1 + i] = (float)x[i];
}
double dot3(const double* a, const double* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
void cross3(const double* a, const double* b, double* o)
{
    double r[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
    std::memcpy(o, r, sizeof r);
}
void lower_line(const double* n, const double* c, float* f)
{
    double tt[3] = {-0.5 * c[0], -0.5 * c[1], -0.5 * c[2]};
    gen::lower(ref::sandwich(ref::lift('T', tt), gen::biv(0, 0, 0, n[0], n[1], n[2])), 'L', f);
}
void prop_C15(Src& s, Ctx& c)
{
    uint32_t k = s.draw(12);
    if (k < 6)
        return poly_case(C15, k, s, c);
    // the geometric meaning, for unit operands, by elementary vector algebra
    float in[10], out[6];
    double x[3], n[3], q[3], d[3];
    double far = gen::spread(s, 10);
    gen::vec3(s, x, far);
    gen::unit3(s, n);
    gen::vec3(s, q, far);
    gen::unit3(s, d);
    if (s.chance(1, 8)) // point on the object
        std::memcpy(x, q, sizeof x);
    for (int i = 0; i != 3; ++i)
    {
        x[i] = (float)x[i];
        q[i] = (float)q[i];
        n[i] = (float)n[i];
        d[i] = (float)d[i];
    }
    double S = 1 + std::max({std::fabs(x[0]), std::fabs(x[1]), std::fabs(x[2]), std::fabs(q[0]), std::fabs(q[1]), std::fabs(q[2])});
    double tol = 2e-6 * S * S;
    float dq = (float)-dot3(n, q);
    auto plane = [&](float* f) {
        f[0] = dq;
        for (int i = 0; i != 3; ++i)
            f[1 + i] = (float)n[i];
    };
    c.nontrivial = true;
    switch (k)
    {
    case 6: // point on line: the foot of the perpendicular
    {
        put_point(in, x);
        lower_line(d, q, in + 4);
        Case kk(c, "closest point of a line", in, 10, 1700);
        double v[3] = {x[0] - q[0], x[1] - q[1], x[2] - q[2]}, t = dot3(v, d) / dot3(d, d);
        each([&](Adapter const& a) {
            call(a, "proj_XL", in, out);
            if (!(std::fabs(out[0]) > 0.5))
                fail("projection of a point on a line is not finite [" + a.name + "]");
            for (int i = 0; i != 3; ++i)
                cmp("projection of a point on a line", a, out[1 + i] / out[0], q[i] + t * d[i], tol);
        });
        return;
    }
    case 7:
    {
        put_point(in, x);
        plane(in + 4);
        Case kk(c, "closest point of a plane", in, 8, 1701);
        double t = (dot3(n, x) + dq) / dot3(n, n);
        each([&](Adapter const& a) {
            call(a, "proj_XP", in, out);
            if (!(std::fabs(out[0]) > 0.5))
                fail("projection of a point on a plane is not finite [" + a.name + "]");
            for (int i = 0; i != 3; ++i)
                cmp("projection of a point on a plane", a, out[1 + i] / out[0], x[i] - t * n[i], tol);
        });
        return;
    }
    case 8: // line on plane: contains the projections of the line's points
    {
        lower_line(d, x, in);
        plane(in + 6);
        Case kk(c, "line on plane", in, 10, 1702);
        each([&](Adapter const& a) {
            call(a, "proj_LP", in, out);
            double dn = dot3(d, n), p[3], g[3] = {out[3], out[4], out[5]}, cr[3];
            for (int i = 0; i != 3; ++i)
                p[i] = d[i] - dn * n[i];
            cross3(g, p, cr);
            if (norm3(cr) > 1e-5 || std::fabs(norm3(g) - norm3(p)) > 1e-5)
                fail("projection of a line on a plane has the wrong direction [" + a.name + "]: " + fmt(out, 6));
            // sends x's foot to a point of the result: ideal part = moment of the foot
            double t = (dot3(n, x) + dq) / dot3(n, n), f[3];
            for (int i = 0; i != 3; ++i)
                f[i] = x[i] - t * n[i];
            float w[6];
            double sg = dot3(g, p) < 0 ? -1 : 1;
            lower_line(p, f, w);
            for (int i = 0; i != 6; ++i)
                cmp("projection of a line on a plane", a, out[i], sg * w[i], tol);
        });
        return;
    }
    case 9: // plane on point: parallel plane through the point
    {
        plane(in);
        put_point(in + 4, x);
        Case kk(c, "plane through a point", in, 8, 1703);
        each([&](Adapter const& a) {
            call(a, "proj_PX", in, out);
            double g[3] = {out[1], out[2], out[3]}, cr[3];
            cross3(g, n, cr);
            if (norm3(cr) > 1e-5 || norm3(g) < 0.9)
                fail("projection of a plane on a point is not parallel to the plane [" + a.name + "]: " + fmt(out, 4));
            cmp("projection of a plane on a point misses the point", a, (float)(dot3(g, x) + out[0]), 0, tol);
        });
        return;
    }
    case 10:
    {
        lower_line(d, q, in);
        put_point(in + 6, x);
        Case kk(c, "line through a point", in, 10, 1704);
        each([&](Adapter const& a) {
            call(a, "proj_LX", in, out);
            double g[3] = {out[3], out[4], out[5]};
            double sg = dot3(g, d) < 0 ? -1 : 1;
            float w[6];
            lower_line(d, x, w);
            for (int i = 0; i != 6; ++i)
                cmp("projection of a line on a point", a, out[i], sg * w[i], tol);
        });
        return;
    }
    default: // plane on line: contains the line, as parallel to the plane as possible
    {
        plane(in);
        lower_line(d, x, in + 4);
        Case kk(c, "plane through a line", in, 10, 1705);
        double dn = dot3(d, n), p[3];
        for (int i = 0; i != 3; ++i)
            p[i] = n[i] - dn / dot3(d, d) * d[i];
        each([&](Adapter const& a) {
            call(a, "proj_PL", in, out);
            double g[3] = {out[1], out[2], out[3]}, cr[3];
            cross3(g, p, cr);
            if (norm3(cr) > 2e-5 || std::fabs(norm3(g) - norm3(p)) > 2e-5)
                fail("projection of a plane on a line has the wrong normal [" + a.name + "]: " + fmt(out, 4));
            cmp("projection of a plane on a line misses the line", a, (float)(dot3(g, x) + out[0]), 0, tol);
        });
    }
    }
}

// ----------------------------------------------------- C16 norms and distances
void prop_C16(Src& s, Ctx& c)
{
    float in[12], out[4];
    uint32_t k = s.draw(12);
    if (k < 5) // norms
    {
        static const struct
        {
            const char* n;
            char t;
            int from, sq;
        } ops[] = {{"norm_P", 'P', 1, 0}, {"norm_L", 'L', 3, 0}, {"sqnorm_L", 'L', 3, 1}, {"norm_B", 'B', 0, 0},
                   {"sqnorm_B", 'B', 0, 1}, {"norm_I", 'I', 0, 0}, {"sqnorm_I", 'I', 0, 1}};
        auto& o = ops[s.draw(7)];
        gen::operand(s, o.t, in);
        if (s.chance(1, 5))
            in[o.from] = in[o.from + 1] = in[o.from + 2] = 0;
        int w = ref::width(o.t);
        Case kk(c, o.n, in, w, 1800);
        double q = 0;
        for (int i = 0; i != 3; ++i)
            q += (double)in[o.from + i] * in[o.from + i];
        c.nontrivial = q > 0;
        if (q != 0 && q < 1e-30)
            return; // squares that underflow single precision
        double want = o.sq ? q : std::sqrt(q);
        each([&](Adapter const& a) {
            call(a, o.n, in, out);
            cmp(o.n, a, out[0], want, 4e-6 * want);
        });
        return;
    }
    double x[3], y[3], n[3], d[3], v[3];
    double far = gen::spread(s, 10);
    gen::vec3(s, x, far);
    gen::vec3(s, y, far);
    gen::unit3(s, n);
    gen::unit3(s, d);
    if (s.chance(1, 6))
        std::memcpy(y, x, sizeof y);
    for (int i = 0; i != 3; ++i)
    {
        x[i] = (float)x[i];
        y[i] = (float)y[i];
        n[i] = (float)n[i];
        d[i] = (float)d[i];
        v[i] = x[i] - y[i];
    }
    double S = 1 + std::max({std::fabs(x[0]), std::fabs(x[1]), std::fabs(x[2]), std::fabs(y[0]), std::fabs(y[1]), std::fabs(y[2])});
    c.nontrivial = true;
    switch (k)
    {
    case 5:
    case 6:
    {
        put_point(in, x);
        put_point(in + 4, y);
        const char* op = s.draw(2) ? "dist_XX" : "dist_XXn";
        Case kk(c, "distance of two points", in, 8, 1801);
        each([&](Adapter const& a) {
            call(a, op, in, out);
            cmp("distance of two points", a, out[0], norm3(v), 4e-6 * S);
        });
        return;
    }
    case 7:
    case 8:
    {
        put_point(in, x);
        lower_line(d, y, in + 4);
        if (s.chance(1, 4)) // a point of the line
        {
            double t = gen::unit(s) * 4, p[3];
            for (int i = 0; i != 3; ++i)
                p[i] = y[i] + t * d[i];
            put_point(in, p);
            for (int i = 0; i != 3; ++i)
                v[i] = in[1 + i] - y[i];
            S += 4;
        }
        Case kk(c, "distance of a point and a line", in, 10, 1802);
        double cr[3];
        cross3(v, d, cr);
        each([&](Adapter const& a) {
            call(a, "dist_XL", in, out);
            cmp("distance of a point and a line", a, out[0], norm3(cr), 8e-6 * S);
        });
        return;
    }
    case 9:
    case 10:
    {
        put_point(in, x);
        float dq = (float)-dot3(n, y);
        in[4]    = dq;
        for (int i = 0; i != 3; ++i)
            in[5 + i] = (float)n[i];
        Case kk(c, "distance of a point and a plane", in, 8, 1803);
        double w = std::fabs(dot3(n, x) + dq);
        each([&](Adapter const& a) {
            for (const char* op : {"dist_XP", "dist_XPe"})
            {
                call(a, op, in, out);
                cmp("distance of a point and a plane", a, std::fabs(out[0]), w, 8e-6 * S);
            }
        });
        return;
    }
    default: // parallel planes: the meet is an ideal line with the distance as its norm
    {
        float d1 = gen::mild(s), d2 = gen::mild(s);
        in[0] = d1;
        in[4] = d2;
        for (int i = 0; i != 3; ++i)
            in[1 + i] = in[5 + i] = (float)n[i];
        Case kk(c, "distance of parallel planes", in, 8, 1804);
        each([&](Adapter const& a) {
            call(a, "dist_PP", in, out);
            cmp("distance of parallel planes", a, out[0], std::fabs((double)d1 - d2), 4e-6 * (std::fabs(d1) + std::fabs(d2)));
        });
    }
    }
}

// ------------------------------------- C17 construction, conversion and access
void exact(const char* what, Adapter const& a, const float* got, const float* want, int n)
{
    for (int i = 0; i != n; ++i)
        if (!(got[i] == want[i]))
        {
            char b[200];
            snprintf(b, sizeof b, "%s [%s]: value %d is %.9g, expected %.9g", what, a.name.c_str(), i, (double)got[i], (double)want[i]);
            fail(b);
        }
}
void prop_C17(Src& s, Ctx& c)
{
    // name, operand coefficients, permutation of result values: index i+1 into
    // the operands, negative = negated, 0 = zero, 1000 = one
    struct Perm
    {
        const char* n;
        int nin;
        std::vector<int> out;
    };
    static const std::vector<Perm> ops = {
        {"ctor_P", 4, {4, 1, 2, 3}}, {"ctorp_P", 4, {1, 2, 3, 4}}, {"ctorx_P", 4, {1, 2, 3, 4}}, {"load_P", 4, {1, 2, 3, 4}},
        {"ctor_X", 3, {1000, 1, 2, 3}}, {"ctorx_X", 4, {1, 2, 3, 4}}, {"load_X", 4, {1, 2, 3, 4}}, {"ctorx_D", 4, {1, 2, 3, 4}},
        {"ctorp_D", -4, {1, 2, 3, 4}}, {"ctor_L", 6, {1, 2, 3, 4, 5, 6}}, {"ctorx_L", 8, {6, 7, 8, 2, 3, 4}}, {"line_I", 3, {1, 2, 3, 0, 0, 0}},
        {"line_B", 3, {0, 0, 0, 1, 2, 3}}, {"ctor_I", 3, {1, 2, 3}}, {"ctor_B", 3, {1, 2, 3}}, {"ctorx_I", 4, {2, 3, 4}},
        {"ctorx_B", 4, {2, 3, 4}}, {"ctor_M", 8, {1, 2, 3, 4, 5, 6, 7, 8}}, {"ctorx_M", 8, {1, 2, 3, 4, 6, 7, 8, 5}},
        {"ctorx_R", 4, {1, 2, 3, 4}}, {"load_M", 8, {1, 2, 3, 4, 6, 7, 8, 5}}, {"load_R", 4, {1, 2, 3, 4}}, {"load_T", 3, {1, 2, 3}},
        {"motor_R", 4, {1, 2, 3, 4, 0, 0, 0, 0}}, {"motor_T", 3, {1000, 0, 0, 0, 1, 2, 3, 0}},
        {"assign_MR", 12, {9, 10, 11, 12, 0, 0, 0, 0}}, {"assign_MT", 11, {1000, 0, 0, 0, 9, 10, 11, 0}},
        {"origin", 1, {1000, 0, 0, 0}},
        {"acc_P", 4, {2, 3, 4, 1, 2, 3, 4, 1}}, {"acc_X", 4, {2, 3, 4, 1, 2, 3, 4, 1}}, {"acc_D", -4, {2, 3, 4}},
        {"acc_L", 6, {1, 2, 3, 4, 5, 6, -1, -2, -3, -4, -5, -6}}, {"acc_I", 3, {1, 2, 3, -1, -2, -3}},
        {"acc_B", 3, {1, 2, 3, -1, -2, -3, 1, 2, 3}}, {"acc_R", 4, {1, 2, 3, 4, -2, -3, -4}}, {"acc_T", 3, {1000, 1, 2, 3, -1, -2, -3}},
        {"acc_M", 8, {1, 2, 3, 4, -2, -3, -4, 5, 6, 7, -5, -6, -7, 8}},
        {"raw_P", 4, {1, 2, 3, 4}}, {"raw_X", 4, {1, 2, 3, 4}}, {"raw_D", -4, {1, 2, 3, 4}}, {"raw_L", 6, {0, 4, 5, 6, 0, 1, 2, 3}},
        {"raw_I", 3, {0, 1, 2, 3}}, {"raw_B", 3, {0, 1, 2, 3}}, {"raw_R", 4, {1, 2, 3, 4}}, {"raw_T", 3, {0, 1, 2, 3}},
        {"raw_M", 8, {1, 2, 3, 4, 8, 5, 6, 7}}};
    uint32_t k = s.draw((uint32_t)ops.size() + 4);
    float in[16], out[16], want[16];
    for (auto& o : out)
        o = kPoison;
    if (k < ops.size())
    {
        auto& o  = ops[k];
        int nin  = std::abs(o.nin);
        gen::coefs(s, in, nin);
        gen::extreme(s, in, nin);
        if (o.nin < 0)
            in[0] = 0; // a direction's weight
        std::set<float> dist(in, in + nin);
        c.nontrivial = (int)dist.size() >= nin - 1;
        if (nin > 8 && s.chance(1, 2)) // what the assigned-to motor held before does not matter
        {
            static const float odd[] = {INFINITY, -INFINITY, NAN, FLT_MAX, -FLT_MAX, FLT_MIN, 1e30f, -1e30f};
            uint32_t which = 1 + s.draw(255);
            for (int i = 0; i != 8; ++i)
                if (which >> i & 1)
                    in[i] = odd[s.draw(8)];
        }
        Case kk(c, o.n, in, nin, 1900 + k);
        for (size_t i = 0; i != o.out.size(); ++i)
            want[i] = o.out[i] == 0 ? 0.f : o.out[i] == 1000 ? 1.f : o.out[i] > 0 ? in[o.out[i] - 1] : -in[-o.out[i] - 1];
        each([&](Adapter const& a) {
            call(a, o.n, in, out);
            exact(o.n, a, out, want, (int)o.out.size());
        });
        return;
    }
    if (k < ops.size() + 3) // store to memory of any (float) alignment
    {
        static const struct
        {
            const char* n;
            int w;
        } st[] = {{"store_X", 4}, {"store_B", 3}, {"store_R", 4}};
        auto& o = st[k - ops.size()];
        in[0]   = (float)s.draw(4);
        gen::coefs(s, in + 1, o.w);
        gen::extreme(s, in + 1, o.w);
        Case kk(c, o.n, in, 1 + o.w, 1980);
        c.nontrivial = nonzeros(in + 1, o.w) >= 2;
        int p        = 0;
        if (o.w == 3)
            want[p++] = 0;
        for (int i = 0; i != o.w; ++i)
            want[p++] = in[1 + i];
        want[4] = 0; // nothing else written
        each([&](Adapter const& a) {
            call(a, o.n, in, out);
            exact(o.n, a, out, want, 5);
        });
        return;
    }
    double v[3];
    gen::axis3(s, v);
    for (int i = 0; i != 3; ++i)
        in[i] = (float)v[i];
    double n = std::sqrt((double)in[0] * in[0] + (double)in[1] * in[1] + (double)in[2] * in[2]);
    Case kk(c, "ctor_D", in, 3, 1990);
    c.nontrivial = true;
    each([&](Adapter const& a) {
        call(a, "ctor_D", in, out);
        cmp("direction(x,y,z) weight", a, out[0], 0, 0);
        for (int i = 0; i != 3; ++i)
            cmp("direction(x,y,z)", a, out[1 + i], in[i] / n, 4e-6);
    });
}

// ------------------------------------------------------------- C18 arithmetic
void prop_C18(Src& s, Ctx& c)
{
    static const char* types = "PXDLIBRTMU";
    static const struct
    {
        const char* stem;
        int kind; // 0 binary + 1 binary - 2 times float 3 times int 4 over float 5 over int
        bool dual;
    } ops[] = {{"add", 0, true}, {"addeq", 0, true}, {"sub", 1, true}, {"subeq", 1, true}, {"mulf", 2, true}, {"fmul", 2, true},
               {"mulfeq", 2, true}, {"muli", 3, false}, {"imul", 3, false}, {"mulieq", 3, false}, {"divf", 4, true}, {"divfeq", 4, true},
               {"divi", 5, false}, {"divieq", 5, false}};
    static thread_local std::set<std::string> names;
    float in[20], out[16], want[16];
    char t = types[s.draw(10)];
    int w  = ref::width(t);
    uint32_t k = s.draw(18);
    gen::operand(s, t, in);
    if (k < 14)
    {
        auto o = ops[k];
        if (t == 'U' && !o.dual)
            o = ops[k % 7 < 4 ? k % 4 : 4 + k % 3];
        std::string nm = std::string(o.stem) + "_" + t;
        int nin        = w;
        if (o.kind < 2)
        {
            if (s.chance(1, 4))
                gen::related(s, t, in + w, in);
            else
                gen::operand(s, t, in + w);
            nin += w;
        }
        else
        {
            float k2 = o.kind == 2 ? gen::any(s) : o.kind == 3 ? (float)s.range(-40, 40) : o.kind == 4 ? gen::nonzero(s) : (float)s.range(1, 40);
            if (o.kind == 4 && s.chance(1, 4))
            {
                float z = gen::any(s);
                if (std::fabs(z) > 1e-6f && std::fabs(z) < 1e6f)
                    k2 = z;
            }
            if (o.kind == 5 && s.draw(2))
                k2 = -k2;
            if ((o.kind == 3 || o.kind == 5) && s.chance(1, 8))
                k2 = (float)(s.draw(2) ? -1 : 1) * (float)(1 + s.draw(16000000)) * (float)(1u << (s.draw(2) ? s.draw(8) : 0));
            if ((o.kind == 2 || o.kind == 4) && s.chance(1, 8)) // far from one
                k2 = (float)((s.draw(2) ? -1 : 1) * std::ldexp(1 + gen::pos(s), s.range(-38, 38)));
            in[nin++] = k2;
        }
        Case kk(c, names.insert(nm).first->c_str(), in, nin, 2000 + k * 16 + t);
        c.nontrivial = nonzeros(in, nin) >= 2;
        for (int i = 0; i != w; ++i)
        {
            double a = in[i], b = o.kind < 2 ? in[w + i] : in[w];
            double v = o.kind == 0 ? a + b : o.kind == 1 ? a - b : o.kind < 4 ? a * b : a / b;
            want[i]  = (float)v;
        }
        each([&](Adapter const& a) {
            call(a, nm.c_str(), in, out);
            for (int i = 0; i != w; ++i)
            {
                double m = o.kind < 2 ? std::fabs(in[i]) + std::fabs(in[w + i]) : std::fabs(want[i]);
                cmp(nm.c_str(), a, out[i], want[i], (o.kind < 4 ? 3e-7 : 2e-6) * m);
            }
        });
        return;
    }
    std::string nm;
    if (k < 16)
    {
        static const char* nt = "PXDLIBRM";
        t  = nt[s.draw(8)];
        w  = ref::width(t);
        gen::operand(s, t, in);
        gen::extreme(s, in, w);
        nm = std::string("neg_") + t;
        for (int i = 0; i != w; ++i)
            want[i] = (i == 0 && (t == 'P' || t == 'X')) ? in[i] : -in[i]; // "leaves displacement from the origin untouched"
    }
    else if (k == 16)
    {
        static const char* rt = "XIBLRM";
        t  = rt[s.draw(6)];
        w  = ref::width(t);
        gen::operand(s, t, in);
        gen::extreme(s, in, w);
        nm = std::string("rev_") + t;
        MV r = ref::rev(ref::lift(t, in));
        gen::values(r, t, want);
    }
    else
    {
        t  = s.draw(2) ? 'M' : 'R';
        w  = ref::width(t);
        gen::operand(s, t, in);
        gen::extreme(s, in, w);
        if (s.chance(1, 6))
            in[0] = s.draw(2) ? -0.f : 0.f;
        nm = std::string(s.draw(2) ? "coni_" : "con_") + t;
        for (int i = 0; i != w; ++i)
            want[i] = std::signbit(in[0]) ? -in[i] : in[i];
    }
    Case kk(c, names.insert(nm).first->c_str(), in, w, 2300 + k * 16 + t);
    c.nontrivial = nonzeros(in, w) >= 2;
    each([&](Adapter const& a) {
        call(a, nm.c_str(), in, out);
        if (nm[0] == 'c' && in[0] == 0)
        {
            // either sign is right when the scalar is zero
            bool neg = false;
            for (int i = 0; i != w; ++i)
                if (in[i] != 0)
                    neg = out[i] == -in[i];
            for (int i = 0; i != w; ++i)
                want[i] = neg ? -in[i] : in[i];
        }
        exact(nm.c_str(), a, out, want, w);
    });
}

// ---------------------------------------------------------------- C19 equality
void prop_C19(Src& s, Ctx& c)
{
    static const char* types = "PLRM";
    char t = types[s.draw(4)];
    int w  = ref::width(t);
    float in[20], out[4];
    gen::operand(s, t, in);
    bool apx = s.draw(2);
    if (!apx)
        gen::extreme(s, in, w);
    std::memcpy(in + w, in, 4 * w);
    int kind = (int)s.draw(7), at = (int)s.draw(w);
    bool equal = true, nan = false;
    float eps  = 0;
    auto fin = [&] { return std::max(1.f, std::fabs(in[at])); };
    switch (kind)
    {
    case 0: break; // the same coefficients
    case 1:        // one coefficient one ulp away
        in[w + at] = std::nextafterf(in[at], s.draw(2) ? 1e30f : -1e30f);
        equal      = in[w + at] == in[at];
        break;
    case 2: // one coefficient clearly different
        in[w + at] = in[at] + fin() * (s.draw(2) ? -1 : 1) * (float)(0.001 + gen::pos(s));
        equal      = in[w + at] == in[at];
        break;
    case 3: // zero of the other sign
        in[at]     = 0.f;
        in[w + at] = -0.f;
        break;
    case 4: // negated
        for (int i = 0; i != w; ++i)
            in[w + i] = -in[i];
        for (int i = 0; i != w; ++i)
            equal &= in[i] == in[w + i];
        break;
    case 5: // not a number on one side or both
    {
        uint32_t side = s.draw(3);
        if (side != 0)
            in[at] = std::numeric_limits<float>::quiet_NaN();
        if (side != 1)
            in[w + at] = std::numeric_limits<float>::quiet_NaN();
        equal = false;
        nan   = true;
        break;
    }
    default: // unrelated
        gen::operand(s, t, in + w);
        for (int i = 0; i != w; ++i)
            equal &= in[i] == in[w + i];
    }
    char nm[8];
    if (!apx)
    {
        snprintf(nm, sizeof nm, "eq_%c", t);
        static thread_local std::set<std::string> names;
        Case kk(c, names.insert(nm).first->c_str(), in, 2 * w, 2500 + t);
        c.label(nan ? "not a number" : equal ? "equal" : "different");
        c.nontrivial = nonzeros(in, w) >= 1;
        each([&](Adapter const& a) {
            call(a, nm, in, out);
            if (out[0] != (equal ? 1.f : 0.f))
                fail(std::string(nm) + " [" + a.name + "] says " + (out[0] ? "equal" : "different"));
        });
        return;
    }
    double mx = 0;
    switch (s.draw(7))
    {
    case 0:
    case 1: eps = 1e-6f; break;
    case 2:
    case 3: eps = (float)std::ldexp(1.0, -s.range(0, 20)); break;
    case 4:
    {
        static const float odd[] = {0.f, -0.f, -1e-6f, -1.f, 1e-9f, 1e-20f, 1e-30f, 16.f, 100.f, 1e4f, 1e6f, 1e20f, FLT_MAX, INFINITY};
        eps = odd[s.draw(14)];
        break;
    }
    default: eps = (float)(0.001 + gen::pos(s)); break;
    }
    // place the difference on either side of eps
    if (kind == 2 && std::fabs(eps) < 1e18f)
        in[w + at] = in[at] + eps * (s.draw(2) ? -1 : 1) * (s.draw(2) ? 0.5f : 2.f);
    for (int i = 0; i != w; ++i)
        if (!nan || i != at)
            mx = std::max(mx, std::fabs((double)in[i] - in[w + i]));
    if (mx > eps * 0.999 && mx < eps * 1.001)
        eps *= 2;
    in[2 * w] = eps;
    snprintf(nm, sizeof nm, "apx_%c", t);
    static thread_local std::set<std::string> names;
    Case kk(c, names.insert(nm).first->c_str(), in, 2 * w + 1, 2600 + t);
    c.label(nan ? "not a number" : mx < eps ? "within epsilon" : "outside epsilon");
    c.nontrivial = nonzeros(in, w) >= 1;
    each([&](Adapter const& a) {
        call(a, nm, in, out);
        if (out[0] != (mx < eps && !nan ? 1.f : 0.f))
        {
            char b[200];
            snprintf(b, sizeof b, "%s [%s] says %s for a largest difference of %.9g%s and epsilon %.9g", nm, a.name.c_str(),
                     out[0] ? "true" : "false", mx, nan ? " beside a coefficient that is not a number" : "", (double)eps);
            fail(b);
        }
    });
}

// ------------------------------------------------- C20 angle/axis constructors
void prop_C20(Src& s, Ctx& c)
{
    float in[16], out[16];
    double ax[3], n;
    int kind = (int)s.draw(3);
    double ang = 0;
    switch (s.draw(5))
    {
    case 0: ang = s.range(-8, 8) * PI / 4; break;
    case 1: ang = gen::unit(s) * std::ldexp(1.0, -s.range(0, 16)); break;
    case 2: ang = gen::unit(s) * 30; break;
    default: ang = gen::unit(s) * 2 * PI;
    }
    if (s.chance(1, 20)) // many turns
        ang = gen::unit(s) * std::ldexp(1.0, s.range(5, 14));
    if (kind < 2)
    {
        gen::axis3(s, ax);
        in[0] = !kind ? (float)ang : s.chance(1, 6) ? (float)(gen::unit(s) * std::ldexp(1.0, s.range(-20, 17))) : gen::mild(s);
        for (int i = 0; i != 3; ++i)
            in[1 + i] = (float)ax[i];
        n = std::sqrt((double)in[1] * in[1] + (double)in[2] * in[2] + (double)in[3] * in[3]);
        Case k(c, kind ? "translator(distance, axis)" : "rotor(angle, axis)", in, 4, 2700 + kind);
        c.nontrivial = in[0] != 0;
        each([&](Adapter const& a) {
            if (kind == 0)
            {
                call(a, "mk_R", in, out);
                for (int i = 0; i != 4; ++i)
                    cmp("rotor(angle, axis)", a, out[i], i == 0 ? std::cos(0.5 * in[0]) : std::sin(0.5 * in[0]) * in[i] / n, 2e-6 + 1.2e-7 * std::max(0.0, std::fabs((double)in[0]) - 30));
            }
            else
            {
                call(a, "mk_T", in, out);
                for (int i = 0; i != 3; ++i)
                    cmp("translator(distance, axis)", a, out[i], -0.5 * in[0] * in[1 + i] / n, 2e-6 * std::fabs(in[0]));
                // moves a point by the distance along the axis
                float u[7], o[4];
                std::memcpy(u, out, 12);
                u[3] = 1;
                u[4] = 1;
                u[5] = 2;
                u[6] = 3;
                call(a, "act_TX", u, o);
                for (int i = 0; i != 3; ++i)
                    cmp("point moved by translator(distance, axis)", a, o[1 + i], (i + 1) + (double)in[0] * in[1 + i] / n, 4e-6 * (3 + std::fabs(in[0])));
            }
        });
        return;
    }
    double far = gen::spread(s, 10);
    double nn[3], ctr[3], d = s.draw(4) == 0 ? 0 : gen::unit(s) * far;
    gen::unit3(s, nn);
    gen::vec3(s, ctr, far);
    if (s.draw(8) == 7)
        ang = 0;
    double px[3];
    gen::vec3(s, px);
    for (int i = 0; i != 3; ++i)
        px[i] = (float)px[i];
    in[0] = (float)ang;
    in[1] = (float)d;
    if (std::fabs(in[0]) < 1e-6f)
        in[0] = 0;
    lower_line(nn, ctr, in + 2);
    Case k(c, in[0] == 0 ? "motor(0, distance, line)" : in[1] == 0 ? "motor(angle, 0, line)" : "motor(angle, distance, line)", in, 8, 2710);
    c.nontrivial = in[0] != 0 && in[1] != 0;
    double S = 1 + norm3(ctr) + norm3(px) + std::fabs(d);
    double t[3] = {d * nn[0], d * nn[1], d * nn[2]}, mc[3] = {-ctr[0], -ctr[1], -ctr[2]};
    Rigid g = compose(translation(ctr), compose(compose(translation(t), rodrigues(nn, in[0])), translation(mc)));
    double w[3], onl[3], wl[3];
    xform(g, px, w);
    double al = gen::unit(s) * 3;
    for (int i = 0; i != 3; ++i)
    {
        onl[i] = ctr[i] + al * nn[i];
        wl[i]  = onl[i] + d * nn[i];
    }
    double A = 1 + std::fabs(ang);
    each([&](Adapter const& a) {
        call(a, "mk_M", in, out);
        double nr = 0;
        for (int i = 0; i != 4; ++i)
            nr += (double)out[i] * out[i];
        cmp("motor(angle, distance, line) is not of unit norm", a, (float)nr, 1, 1e-5);
        float u[12], o[4];
        std::memcpy(u, out, 32);
        put_point(u + 8, px);
        call(a, "act_MX", u, o);
        for (int i = 0; i != 3; ++i)
            cmp("point moved by motor(angle, distance, line)", a, o[1 + i] / o[0], w[i], 1.2e-5 * S * A);
        put_point(u + 8, onl);
        call(a, "act_MX", u, o);
        for (int i = 0; i != 3; ++i)
            cmp("point of the axis moved by motor(angle, distance, line)", a, o[1 + i] / o[0], wl[i], 1.2e-5 * (S + 3) * A);
    });
}

// -------------------------------------------- C21 agreement of configurations
void batches_agree(Src& s, Ctx& c)
{
    const kv_table* t0 = g_ad[0].t;
    uint32_t bi        = s.draw((uint32_t)t0->n_batches);
    const kv_batch& b0 = t0->batches[bi];
    const int ew       = (int)(b0.elem_bytes / 4);
    int count          = (int)s.draw(40);
    bool in_place      = s.draw(2);
    float m[8], A = 1, M = 0;
    b0.motion == 'R' ? gen::unit_rotor(s, m) : (void)gen::unit_motor(s, m);
    for (int i = 0; i != ref::width(b0.motion); ++i)
        M = std::max(M, std::fabs(m[i]));
    alignas(16) static thread_local float src[40 * 8], in[40 * 8], out[2][40 * 8];
    float pool[4][6];
    for (auto& e : pool)
        gen::operand(s, b0.elem, e);
    for (int i = 0; i != count; ++i)
    {
        float* e = src + i * ew;
        const float* q = pool[i % 4];
        if (b0.elem == 'L')
        {
            e[0] = e[4] = 0;
            for (int j = 0; j != 3; ++j)
                e[1 + j] = q[3 + j], e[5 + j] = q[j];
        }
        else
            std::memcpy(e, q, 16);
        for (int j = 0; j != ew; ++j)
            e[j] *= 1 + i / 4, A = std::max(A, std::fabs(e[j]));
    }
    Case kk(c, b0.name, m, ref::width(b0.motion), 2850 + bi * 2 + in_place);
    c.h(count);
    hash_in(c, 0, src, std::min(count, 4) * ew);
    c.nontrivial = count >= 2;
    for (size_t k = 0; k != g_ad.size(); ++k)
    {
        const kv_batch& b = g_ad[k].t->batches[bi];
        float* o          = out[k != 0];
        std::memcpy(in, src, sizeof in);
        for (int i = 0; i != 40 * ew; ++i)
            o[i] = in_place ? src[i] : kPoison;
        poison_stack();
        guarded(b.name, [&] { b.fn(m, in_place ? o : in, o, count); });
        for (int i = 0; k && i != 40 * ew; ++i)
            if (!(std::fabs((double)o[i] - out[0][i]) <= 6e-5 * (1 + M) * (1 + M) * A) && o[i] != out[0][i] && !(std::isnan(o[i]) && std::isnan(out[0][i])))
            {
                char t[300];
                snprintf(t, sizeof t, "%s of %d elements: value %d of element %d is %.9g in build %s and %.9g in build %s", b0.name, count, i % ew, i / ew,
                         (double)out[0][i], g_ad[0].name.c_str(), (double)o[i], g_ad[k].name.c_str());
                fail(t);
            }
    }
}
// every operation of the interface, with operands it is defined for
const kv_op& any_op(Src& s, float* in, int& off, bool follow, const kv_op* given = nullptr)
{
    static std::vector<const kv_op*> all[2];
    static std::once_flag once;
    std::call_once(once, [] {
        for (size_t i = 0; i != g_ad[0].t->n_ops; ++i)
        {
            const kv_op& o = g_ad[0].t->ops[i];
            std::string n  = o.name;
            if (n.rfind("eq_", 0) == 0 || n.rfind("apx_", 0) == 0 || o.sig[0] == '{' || n.rfind("store_", 0) == 0)
                continue;
            all[0].push_back(&o);
            // (ctorx: the caller provides the object's storage)
            if (follow_groups(std::strchr(o.sig, '>')[1]) && n.rfind("ctorx_", 0) != 0 && n.rfind("raw_", 0) != 0)
                all[1].push_back(&o);
        }
    });
    auto& ops = all[follow];
    const kv_op& o = given ? *given : *ops[s.draw((uint32_t)ops.size())];
    std::string n = o.name;
    off = 0;
    auto has = [&](const char* p) { return n.rfind(p, 0) == 0; };
    bool transcend = has("exp") || has("log") || has("sqrt") || has("euler") || has("mat") || has("act_MO");
    for (const char* p = o.sig; *p != '>'; ++p)
    {
        float* f = in + off;
        bool second = off > 0;
        if (transcend && *p == 'M')
        {
            gen::unit_motor(s, f, PI * 0.9);
            if (nonzeros(f + 1, 3) && std::fabs(f[1]) + std::fabs(f[2]) + std::fabs(f[3]) < 0.01)
                f[1] = 0.6f, f[0] = 0.8f;
        }
        else if (transcend && *p == 'R')
        {
            gen::unit_rotor(s, f, PI * 0.9);
            if (has("euler") && std::fabs(f[0] * f[2] - f[1] * f[3]) > 0.49)
                f[0] = 1, f[1] = f[2] = f[3] = 0;
            // angles next to the cut of atan2 may differ by a full turn
            if (has("euler") && (std::fabs(f[0]) < 0.1f))
                f[0] = 1, f[1] = f[2] = f[3] = 0;
        }
        else if (transcend && (*p == 'L' || *p == 'B'))
        {
            int w = ref::width(*p);
            for (int i = 0; i != w; ++i)
                f[i] = (float)gen::unit(s) * 2;
            if (*p == 'B' ? max3(f) < 0.01 : max3(f + 3) < 0.01)
                f[*p == 'B' ? 0 : 3] = 0.5f;
        }
        else if (has("inv") || has("nrm") || (has("div_") && second))
            invertible(s, *p, f);
        else if (has("mk_") && second)
        {
            double a3[3];
            gen::axis3(s, a3);
            if (*p == 'L')
                gen::euclid_line(s, f);
            else
                for (int i = 0; i != 3; ++i)
                    f[i] = (float)a3[i];
        }
        else if ((has("div") && second) || has("mat"))
        {
            if (*p == 's' || *p == 'k')
                f[0] = (float)(s.draw(2) ? -1 : 1) * (1 + (float)s.draw(40));
            else
                gen::operand(s, *p, f);
        }
        else if (n == "ctor_D")
        {
            double a3[3];
            gen::axis3(s, a3);
            for (int i = 0; i != 3; ++i)
                f[i] = (float)a3[i];
        }
        else if (n == "gp_XX" || n == "div_XX")
        {
            gen::operand(s, *p, f);
            f[0] = gen::nonzero(s);
        }
        else if (n == "rot_E")
            for (int i = 0; i != 3; ++i)
                f[i] = (float)(gen::unit(s) * PI);
        else
            gen::operand(s, *p, f);
        off += ref::width(*p);
    }
    if (n == "gp_XX" || n == "div_XX" || has("div_X"))
        for (int i = 0; i < off; i += 4)
            if (std::fabs(in[i]) < 1e-3f)
                in[i] = 1;
    if (has("mk_") && std::fabs(in[0]) < 1e-3f)
        in[0] = 0;
    return o;
}
void prop_C21(Src& s, Ctx& c)
{
    if (s.draw(16) == 15)
        return batches_agree(s, c);
    float in[32], out0[32], out[32];
    int off;
    const kv_op& o = any_op(s, in, off, false);
    std::string n  = o.name;
    auto has       = [&](const char* p) { return n.rfind(p, 0) == 0; };
    bool transcend = has("exp") || has("log") || has("sqrt") || has("euler") || has("mat") || has("act_MO");
    Case kk(c, o.name, in, off, 2800);
    c.nontrivial = nonzeros(in, off) >= 2;
    const char* os = std::strchr(o.sig, '>') + 1;
    int w          = (*os >= '0' && *os <= '9') ? atoi(os) : ref::width(*os);
    for (int i = 0; i != 32; ++i)
        out0[i] = out[i] = kPoison;
    call(g_ad[0], o.name, in, out0);
    // magnitude of the operands bounds the error of sums that cancel
    double A = 0, mag = 0;
    for (int i = 0; i != off; ++i)
        A = std::max(A, (double)std::fabs(in[i]));
    for (int i = 0; i != w; ++i)
        mag = std::max(mag, (double)std::fabs(out0[i]));
    // the degree of the operation in its operands
    double bound = mag;
    MV la, lb;
    if (has("gp_") || has("ext_") || has("dot_") || has("join_") || has("dist_"))
        bound = std::max(mag, 4 * A * A);
    else if (has("act_") || has("refl_") || has("proj_"))
        bound = std::max(mag, 16 * A * A * A);
    else if (has("add") || has("sub"))
        bound = std::max(mag, 2 * A);
    double rel = 4e-6;
    if (n == "gp_XX" || n == "div_XX" || has("div_") || has("inv") || has("nrm") || transcend || has("mk_") || has("matv"))
    {
        rel = 2e-4;
        if (has("div_"))
        {
            double q = 1e30;
            for (int i = 0; i != off; ++i)
                if (in[i] != 0)
                    q = std::min(q, (double)std::fabs(in[i]));
            bound = std::max(mag, A * A / (q * q) * 0.02);
        }
        if (has("inv") || has("nrm") || transcend || has("mk_") || has("matv"))
            bound = std::max({mag, transcend || has("mk_") ? 1 + 0.2 * A * A : 0.0});
    }
    if (has("dist_"))
        rel = 2e-3, bound = std::max(bound, 1e-3);
    for (size_t i = 1; i < g_ad.size(); ++i)
    {
        auto& a = g_ad[i];
        call(a, o.name, in, out);
        for (int j = 0; j != w; ++j)
        {
            bool nan0 = std::isnan(out0[j]), nan1 = std::isnan(out[j]);
            if (nan0 && nan1)
                continue;
            if (!(std::fabs((double)out[j] - out0[j]) <= rel * bound + TINY) && out[j] != out0[j])
            {
                char b[400];
                snprintf(b, sizeof b, "%s: value %d is %.9g in build %s and %.9g in build %s (tolerance %.3g)", o.name, j, (double)out0[j],
                         g_ad[0].name.c_str(), (double)out[j], a.name.c_str(), rel * bound);
                fail(b);
            }
        }
    }
    // what follows from the result in one build follows in every build
    const int grp = draw_group(s, *os);
    if (grp < 0 || has("ctorx_"))
        return;
    std::string m0 = hidden(g_ad[0], o.name, in, grp);
    for (size_t i = 1; i < g_ad.size(); ++i)
    {
        std::string m = hidden(g_ad[i], o.name, in, grp);
        if (m.empty() != m0.empty())
            fail("in some builds only: " + m + m0);
    }
}

// ------------------------------------- C29 results have no hidden content
void prop_C29(Src& s, Ctx& c)
{
    float in[32];
    int off;
    const kv_op& o = any_op(s, in, off, true);
    char t         = std::strchr(o.sig, '>')[1];
    int g          = s.draw(3) ? (int)s.draw(follow_groups(t)) : 0;
    Case kk(c, o.name, in, off, 3000 + g);
    c.nontrivial = nonzeros(in, off) >= 2;
    each([&](Adapter const& a) { no_hidden(a, o.name, in, t, g); });
}

// ------------------------------ C30 results depend on the operands alone
struct Call
{
    const kv_op* op = nullptr; // or a batch
    size_t batch = 0;
    int off = 0, n = 0;
    float in[32];
    alignas(16) float arr[24 * 8];
};
bool same_bits(std::vector<float> const& a, std::vector<float> const& b) { return a.size() == b.size() && !std::memcmp(a.data(), b.data(), 4 * a.size()); }
// one call in build a; names are looked up in the first build's table
void perform(Adapter const& a, Call const& k, std::vector<float>& r)
{
    if (k.op)
    {
        const char* os = std::strchr(k.op->sig, '>') + 1;
        r.assign((*os >= '0' && *os <= '9') ? atoi(os) : ref::width(*os), kPoison);
        float o[48];
        for (auto& f : o)
            f = kPoison;
        call(a, k.op->name, k.in, o);
        std::copy(o, o + r.size(), r.begin());
        return;
    }
    const kv_batch& b = a.t->batches[k.batch];
    alignas(16) float in[24 * 8], out[24 * 8];
    std::memcpy(in, k.arr, sizeof in);
    for (auto& f : out)
        f = kPoison;
    poison_stack();
    guarded(b.name, [&] { b.fn(k.in, in, out, k.n); });
    r.assign(out, out + k.n * (b.elem_bytes / 4));
}
void describe(Ctx& c, Call const& k)
{
    if (!c.verbose)
        return;
    if (k.op)
        c.note(std::string(k.op->name) + " " + fmt(k.in, k.off));
    else
        c.note(std::string(g_ad[0].t->batches[k.batch].name) + " of " + std::to_string(k.n) + " by " + fmt(k.in, k.off));
}
unsigned control_word()
{
    unsigned x;
    asm volatile("stmxcsr %0" : "=m"(x));
    return x & ~63u;
}
void prop_C30(Src& s, Ctx& c)
{
    Adapter const& a = g_ad[s.draw((uint32_t)g_ad.size())];
    bool threads     = s.chance(1, 250);
    int n            = 2 + (int)s.draw(6);
    std::vector<Call> k(n);
    for (int i = 0; i != n; ++i)
    {
        Call& x = k[i];
        Call* p = i ? &k[s.draw((uint32_t)i)] : nullptr;
        uint32_t how = p ? s.draw(8) : 0;
        if (p && how >= 3) // related to an earlier call
        {
            x = *p;
            if (how == 7 && x.op)
                any_op(s, x.in, x.off, false, x.op);
            else if (x.op)
            {
                // the last operand anew, or one coefficient
                const char* e = std::strchr(x.op->sig, '>');
                int w         = ref::width(e[-1]);
                int at        = x.off - w + (int)s.draw((uint32_t)w);
                if (how >= 5)
                    at = (int)s.draw((uint32_t)x.off);
                if (how == 3 && e - x.op->sig > 1)
                    gen::operand(s, e[-1], x.in + x.off - w);
                else
                    x.in[at] = s.draw(4) ? x.in[at] * (s.draw(2) ? -1 : 1.5f) : gen::mild(s);
            }
            else if (how >= 5)
                x.in[s.draw((uint32_t)x.off)] = gen::mild(s);
            else
                x.n = (int)s.draw(24);
        }
        else if (how == 0 || s.draw(4))
            x.op = &any_op(s, x.in, x.off, false);
        else
        {
            x.batch           = s.draw((uint32_t)a.t->n_batches);
            const kv_batch& b = a.t->batches[x.batch];
            x.off             = ref::width(b.motion);
            b.motion == 'R' ? gen::unit_rotor(s, x.in) : (void)gen::unit_motor(s, x.in);
            x.n = (int)s.draw(24);
            std::memset(x.arr, 0, sizeof x.arr);
            float e[6];
            gen::operand(s, b.elem, e);
            const int ew = (int)(b.elem_bytes / 4);
            for (int j = 0; j != 24; ++j)
                for (int q = 0; q != ew; ++q)
                    x.arr[j * ew + q] = ew == 8 ? (q & 3 ? e[q < 4 ? q + 2 : q - 5] * (1 + j) : 0) : e[q] * (1 + j);
        }
        hash_in(c, x.op ? (uint32_t)(x.op - g_ad[0].t->ops) : 5000 + (uint32_t)x.batch * 32 + x.n, x.in, x.off);
        describe(c, x);
    }
    if (c.verbose)
        c.note("build " + a.name + (threads ? ", in threads" : ""));
    c.label(threads ? "threads" : "histories");
    c.nontrivial     = true;
    const unsigned preset = 0x1f80; // as a thread starts
    asm volatile("ldmxcsr %0" : : "m"(preset));
    unsigned control = control_word();
    std::vector<std::vector<float>> first(n);
    std::vector<float> again;
    for (int i = 0; i != n; ++i)
        perform(a, k[i], first[i]);
    auto differs = [&](int i, const char* where) {
        const char* nm = k[i].op ? k[i].op->name : a.t->batches[k[i].batch].name;
        int w          = (int)std::min<size_t>(first[i].size(), 12);
        return std::string(nm) + " [" + a.name + "]: call " + std::to_string(i + 1) + " gives " + fmt(again.data(), w) + " " + where + " and " +
               fmt(first[i].data(), w) + " before, on the same operands";
    };
    int rounds = 1 + (int)s.draw(3);
    for (int q = 0; q != rounds * n; ++q)
    {
        int i = (int)s.draw((uint32_t)n);
        perform(a, k[i], again);
        if (!same_bits(first[i], again))
            fail(differs(i, "after other calls"));
    }
    for (int i = n; i--;)
    {
        perform(a, k[i], again);
        if (!same_bits(first[i], again))
            fail(differs(i, "after other calls"));
    }
    if (control_word() != control)
        fail("a call changed the rounding or exception mode of the processor [" + a.name + "]");
    if (!threads)
        return;
    std::mutex mu;
    std::string msg;
    std::atomic<bool> bad{false};
    double t0 = now();
    auto body = [&](int w) {
        thread_altstack();
        std::vector<float> mine;
        for (int q = w; !bad && now() - t0 < 0.02; ++q)
            for (int rep = 0; rep != 40; ++rep)
            {
                int i = (q + rep) % n;
                std::string e;
                try
                {
                    perform(a, k[i], mine);
                }
                catch (Fail const& f)
                {
                    e = f.msg;
                }
                if (e.empty() && same_bits(first[i], mine))
                    continue;
                std::lock_guard<std::mutex> g(mu);
                bad   = true;
                again = mine;
                msg   = e.empty() ? differs(i, "while other threads make such calls") : e;
                return;
            }
    };
    std::vector<std::thread> ts;
    for (int w = 0; w != 4; ++w)
        ts.emplace_back(body, w);
    for (auto& t : ts)
        t.join();
    if (bad)
        fail(msg);
}

// --------------------------------------------------------- C22 the C bindings
void prop_C22(Src& s, Ctx& c)
{
    // C name, equivalent C++ operation, reference
    struct B
    {
        const char* cname;
        const char* in;
        char out;
        MV (*f)(V const&);
        bool swap; // the C operands come in the other order
    };
    static const std::vector<B> ops = {
        {"c_plane_init", "4", 'P', nullptr, false}, {"c_line_init", "6", 'L', nullptr, false}, {"c_point_init", "3", 'X', nullptr, false},
        {"c_reflect_point", "PX", 'X', f_refl, false}, {"c_reflect_line", "PL", 'L', f_refl, false}, {"c_reflect_plane", "PP", 'P', f_refl, false},
        {"c_rotate_point", "RX", 'X', f_act, false}, {"c_rotate_line", "RL", 'L', f_act, false}, {"c_rotate_plane", "RP", 'P', f_act, false},
        {"c_translate_point", "TX", 'X', f_act, false}, {"c_translate_line", "TL", 'L', f_act, false}, {"c_translate_plane", "TP", 'P', f_act, false},
        {"c_motor_point", "MX", 'X', f_act, false}, {"c_motor_line", "ML", 'L', f_act, false}, {"c_motor_plane", "MP", 'P', f_act, false},
        {"c_compose_rotors", "RR", 'R', f_gp, true}, {"c_compose_translators", "TT", 'T', f_gp, true},
        {"c_compose_rotor_translator", "RT", 'M', f_gp, true}, {"c_compose_translator_rotor", "TR", 'M', f_gp, true},
        {"c_compose_motors", "MM", 'M', f_gp, true}, {"c_motor_log", "M", 'L', nullptr, false}, {"c_line_exp", "L", 'M', nullptr, false}};
    uint32_t k = s.draw((uint32_t)ops.size());
    auto& o    = ops[k];
    float in[24], out[24];
    int n = 0;
    if (!std::strcmp(o.cname, "c_motor_log"))
    {
        gen::unit_motor(s, in, PI * 0.9);
        double sn = std::sqrt((double)in[1] * in[1] + (double)in[2] * in[2] + (double)in[3] * in[3]);
        if (sn < 1e-3)
            in[0] = 1, in[1] = in[2] = in[3] = in[7] = 0;
        n = 8;
    }
    else if (!std::strcmp(o.cname, "c_line_exp"))
    {
        gen::Screw q = gen::screw(s, 4);
        gen::lower(q.log, 'L', in);
        if (max3(in + 3) < 1e-5)
            in[3] = in[4] = in[5] = 0;
        n = 6;
    }
    else
        n = gen_operands(s, o.in, in);
    Case kk(c, o.cname, in, n, 3000 + k);
    c.nontrivial = nonzeros(in, n) >= 2;
    V v;
    for (int i = 0, p = 0; o.in[i]; p += ref::width(o.in[i]), ++i)
        v.push_back(ref::lift(o.in[i], in + p));
    for (auto& a : g_c)
    {
        call(a, o.cname, in, out);
        if (!std::strcmp(o.cname, "c_plane_init"))
        {
            float w[4] = {in[3], in[0], in[1], in[2]};
            exact(o.cname, a, out, w, 4);
        }
        else if (!std::strcmp(o.cname, "c_line_init")) // a..f as the C++ constructor
            exact(o.cname, a, out, in, 6);
        else if (!std::strcmp(o.cname, "c_point_init"))
        {
            float w[4] = {1, in[0], in[1], in[2]};
            exact(o.cname, a, out, w, 4);
        }
        else if (!std::strcmp(o.cname, "c_motor_log"))
        {
            MV e = ref::exp_series(gen::clean(ref::lift('L', out)));
            float g[8];
            gen::values(e, 'M', g);
            double tol[8];
            log_tol(tol, in);
            cmp_tol("exp(c_motor_log)", a, 'M', g, v[0], tol);
        }
        else if (!std::strcmp(o.cname, "c_line_exp"))
        {
            MV w     = ref::exp_series(gen::clean(v[0]));
            double u = std::sqrt((double)in[3] * in[3] + (double)in[4] * in[4] + (double)in[5] * in[5]);
            double tol[8];
            exp_tol(tol, in, u, max3(in), 4e-6);
            cmp_tol("c_line_exp", a, 'M', out, w, tol);
        }
        else
        {
            V vv = v;
            if (o.swap)
                std::swap(vv[0], vv[1]);
            cmp_mv(o.cname, a, o.out, out, o.f(vv));
        }
    }
}

// ---------------------------------------------------------- C23 the GLSL file
const std::vector<Poly> C23 = {{"glsl_mul_RR", "RR", 'R', f_gp}, {"glsl_mul_TT", "TT", 'T', f_gp}, {"glsl_mul_MM", "MM", 'M', f_gp},
    {"glsl_apply_RP", "RP", 'P', f_act}, {"glsl_apply_MP", "MP", 'P', f_act}, {"glsl_apply_RX", "RX", 'X', f_act},
    {"glsl_apply_MX", "MX", 'X', f_act}};
void prop_C23(Src& s, Ctx& c)
{
    uint32_t k = s.draw((uint32_t)C23.size() + 1);
    float in[16], out[16];
    if (k == C23.size())
    {
        gen::unit_motor(s, in);
        Case kk(c, "glsl_apply_M", in, 8, 3100);
        c.nontrivial = nonzeros(in, 8) >= 3;
        MV w = ref::sandwich(ref::lift('M', in), ref::named(ref::E123, 1.0));
        for (auto& a : g_glsl)
        {
            call(a, "glsl_apply_M", in, out);
            cmp_mv("glsl_apply_M", a, 'X', out, w);
        }
        return;
    }
    auto& p = C23[k];
    int n   = gen_operands(s, p.in, in);
    V v;
    for (int i = 0, o = 0; p.in[i]; o += ref::width(p.in[i]), ++i)
        v.push_back(ref::lift(p.in[i], in + o));
    MV want = p.f(v);
    Case kk(c, p.name, in, n, 3110 + k);
    c.nontrivial = nonzeros(in, n) >= 3 && nonzero_mv(want);
    for (auto& a : g_glsl)
    {
        call(a, p.name, in, out);
        cmp_mv(p.name, a, p.out, out, want);
    }
}

struct PropDef
{
    const char* id;
    void (*f)(Src&, Ctx&);
    uint64_t quick, thorough;
    const char* rule;
};
const PropDef g_props[] = {
#include "props.inc"
};

void load(std::vector<Adapter>& v, const std::string& path)
{
    void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h)
    {
        fprintf(stderr, "%s\n", dlerror());
        _exit(71);
    }
    auto g = (const kv_table* (*)(void))dlsym(h, "kv_get_table");
    Adapter a;
    a.t    = g();
    a.name = a.t->config;
    a.mode = (void (*)(int))dlsym(h, "kv_set_mode");
    for (size_t i = 0; i != a.t->n_ops; ++i)
        a.ops[a.t->ops[i].name] = &a.t->ops[i];
    for (size_t i = 0; i != a.t->n_batches; ++i)
        a.batches[a.t->batches[i].name] = &a.t->batches[i];
    v.push_back(a);
}
void report()
{
    for (auto& k : g_hits)
        fprintf(stderr, "trigger %llu %u %s\n", (unsigned long long)k.second, k.first.first, k.first.second.c_str());
    for (auto& k : g_worst)
        fprintf(stderr, "margin %.3f %s\n", k.second, k.first.c_str());
}
} // namespace

#define KV_REPORT report()
#include "main.inc"
