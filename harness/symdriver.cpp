// Property driver for the symbolic algebra system and its shell (C24-C28).
#define NO_ADAPTERS
#include "pbt.hpp"
#include "symcheck.hpp"
#include "repl.hpp"
#include <iostream>
#include <malloc.h>
#include <new>
#include <sys/syscall.h>
#include <time.h>

using namespace pbt;
using sref::Alg;

// ---- containment of runaway calls: memory through operator new, time
// through a timer on the thread's CPU clock; both end the call like a crash.
static thread_local long tl_budget = -1;
static thread_local bool tl_runaway = false;
static thread_local bool tl_inside = false;
void* operator new(size_t n)
{
    if (tl_inside && tl_budget < (long)n + 16 && tl_jmp)
    {
        tl_inside  = false;
        tl_runaway = true;
        siglongjmp(*tl_jmp, 1);
    }
    void* p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    if (tl_inside)
        tl_budget -= (long)malloc_usable_size(p) + 16;
    return p;
}
void operator delete(void* p) noexcept
{
    if (tl_inside && p)
        tl_budget += (long)malloc_usable_size(p) + 16;
    free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }

namespace
{
[[noreturn]] void fail(std::string m) { throw Fail{std::move(m)}; }

struct Timer
{
    timer_t id;
    bool ok = false;
    Timer()
    {
        sigevent ev{};
        ev.sigev_notify          = SIGEV_THREAD_ID;
        ev.sigev_signo           = SIGXCPU;
        ev._sigev_un._tid        = (pid_t)syscall(SYS_gettid);
        ok = timer_create(CLOCK_THREAD_CPUTIME_ID, &ev, &id) == 0;
    }
    void arm(int sec)
    {
        itimerspec it{};
        it.it_value.tv_sec = sec;
        if (ok)
            timer_settime(id, 0, &it, nullptr);
    }
};
thread_local bool tl_slow_seen = false;
// Runs f; a crash, a foreign exception or a runaway is returned as text.
template <class F> std::string safely(F&& f)
{
    static thread_local Timer t;
    std::string err;
    tl_runaway = false;
    t.arm(8);
    try
    {
        guarded("the call", [&] {
            tl_budget = 256l << 20;
            tl_inside = true;
            try
            {
                f();
                tl_inside = false;
            }
            catch (std::exception const& e)
            {
                tl_inside = false;
                err       = std::string("unexpected exception ") + e.what();
            }
        });
    }
    catch (Fail const& x)
    {
        err = tl_runaway ? "memory use without bound (over 256 MB)" : tl_sig == SIGXCPU ? "no end (over 8 s of CPU time)" : x.msg;
    }
    tl_inside = false;
    t.arm(0);
    return err;
}
template <class F> void must(const char* what, F&& f)
{
    std::string e = safely(f);
    if (!e.empty())
        fail(std::string(what) + ": " + e);
}

// ------------------------------------------------------------- generators
// Some cases use long names that differ in their last characters only.
thread_local uint32_t tl_prefix = 0;
void name_mode(Src& s)
{
    static const uint16_t len[] = {1, 7, 8, 14, 15, 16, 22, 23, 30, 31, 32, 47, 62, 63, 64, 100, 127, 128, 254, 255, 256, 300};
    tl_prefix = 0;
    if (s.chance(1, 20))
        tl_prefix = s.draw(3) ? len[s.draw(sizeof len / sizeof *len)] : 1 + s.draw(80);
}
std::string gen_name(Src& s)
{
    if (tl_prefix && s.draw(4))
    {
        std::string v(tl_prefix, 'v');
        for (uint32_t i = 0; i != tl_prefix; ++i)
            v[i] = "vwxyzVW"[i % 7];
        if (uint32_t k = s.draw(5))
            v += "01aZ"[k - 1];
        return v;
    }
    static const char* names[] = {"a", "b", "a0", "a1", "b0", "x", "y1", "e", "E1", "ex", "ab", "a10", "ee1", "c0", "z9z", "LongName42", "B", "eE2"};
    return names[s.draw(s.chance(1, 2) ? 6 : 18)];
}
// A coefficient: small integers mostly; dyadic fractions count against grid.
double gen_num(Src& s, double& grid)
{
    switch (s.draw(8))
    {
    case 0:
        if (s.chance(1, 3)) // small
        {
            int k = s.range(2, 14);
            grid *= std::ldexp(1.0, -k);
            return s.range(1, 3) * std::ldexp(1.0, -k);
        }
        return 1;
    case 1: return s.draw(3) ? 2 : s.range(0, 99999);
    case 2:
    case 3: return s.range(0, 9);
    case 4: return s.range(0, 40);
    case 5: return s.range(0, 2000);
    case 6:
        grid *= 0.25;
        return s.range(1, 40) * 0.25;
    default: return s.range(1, 5);
    }
}
sref::Mon gen_mon(Src& s, bool negative_degrees)
{
    sref::Mon m;
    bool big = s.chance(1, 24);
    for (uint32_t n = s.draw(big ? s.chance(1, 4) ? 40 : 12 : 4); n; --n)
    {
        int d = negative_degrees ? s.range(-3, 3) : s.range(1, 3);
        if (big && s.draw(2))
            d *= s.range(1, 100);
        std::string v = gen_name(s);
        if ((m[v] += d) == 0)
            m.erase(v);
    }
    return m;
}
mon lib(sref::Mon const& m)
{
    mon r;
    for (auto& f : m)
        r.push(f.first, f.second);
    return r;
}
// the same monomial by a longer history of pushes: powers split in parts, parts that
// cancel, degree 0, variables that vanish again, in any order
mon lib_steps(Src& s, sref::Mon const& m)
{
    std::vector<std::pair<std::string, int>> h;
    auto split = [&](std::string const& v, int d) {
        for (uint32_t n = s.draw(4); n; --n)
        {
            int a = s.range(-4, 4);
            h.emplace_back(v, a);
            d -= a;
        }
        h.emplace_back(v, d);
    };
    for (auto& f : m)
        split(f.first, f.second);
    for (uint32_t n = s.draw(3); n; --n)
        split(gen_name(s), 0);
    for (size_t i = h.size(); i > 1; --i)
        if (s.draw(2))
            std::swap(h[i - 1], h[s.draw((uint32_t)i)]);
    mon r;
    for (auto& f : h)
        r.push(f.first, f.second);
    return r;
}
struct PolyPair
{
    poly l;
    sref::Poly r;
    double grid = 1; // every coefficient is a multiple of it
};
// scaled: coefficients of other magnitudes, still exact in binary
PolyPair gen_poly(Src& s, bool negd, int maxn = 4, bool scaled = false)
{
    PolyPair p;
    double sc = scaled ? std::ldexp(1.0, s.range(-40, 20)) : 1;
    p.grid    = sc;
    if (s.chance(1, 32))
        maxn *= 5;
    for (uint32_t n = s.draw((uint32_t)maxn + 1); n; --n)
    {
        sref::Mon m = gen_mon(s, negd);
        double g = 1, c = gen_num(s, g);
        p.grid   = std::min(p.grid, sc * g);
        if (c == 0)
            c = 3;
        if (s.draw(2))
            c = -c;
        c *= sc;
        p.l.push(s.chance(1, 8) ? lib_steps(s, m) : lib(m), (float)c);
        sref::add(p.r, m, sref::Co{c, std::fabs(c)});
    }
    return p;
}
std::string diff(poly const& got, sref::Poly const& want, double grid)
{
    sref::MV a, b;
    a[0] = symchk::from(got);
    b[0] = want;
    return sref::diff(a, b, grid);
}
std::string diff(mv const& got, sref::MV const& want, double grid) { return sref::diff(symchk::from(got), want, grid); }
uint64_t hash_str(std::string const& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return h;
}

// -------------------------------------------------- C24 multivector algebra
struct MvPair
{
    mv l;
    sref::MV r;
    double grid = 1;
};
MvPair gen_mv(Src& s, algebra const& a, Alg A, bool scaled = false)
{
    MvPair x{mv{a}, {}};
    int dim = A.dim();
    uint32_t n = s.chance(1, 16) ? s.draw(17) : s.draw(6);
    for (uint32_t k = 0; k != n; ++k)
    {
        uint32_t b = s.draw(1u << dim);
        PolyPair p;
        if (s.draw(2) == 0) // a single variable per blade keeps every product visible
        {
            sref::Mon m;
            m[std::string(1, k == 4 ? 'z' : (char)('a' + k)) + (s.draw(2) ? "1" : "0")] = 1; // e0 reads as a blade
            p.r[m] = sref::Co{1, 1};
            p.l.push(lib(m), 1.f);
        }
        else
            p = gen_poly(s, false, 2, scaled);
        if (p.r.empty())
            continue;
        x.grid = std::min(x.grid, p.grid);
        x.l.push(b, p.l);
        x.r[b] = sref::add(x.r[b], p.r);
    }
    return x;
}
int decode(int32_t x, uint32_t& b)
{
    b = (uint32_t)std::abs(x) - 1;
    return x == 0 ? 0 : x < 0 ? -1 : 1;
}
void gen_alg(Src& s, Alg& A)
{
    static const Alg common[] = {{3, 0, 1}, {2, 0, 1}, {3, 0, 0}, {4, 1, 0}, {1, 3, 0}, {0, 2, 0}};
    switch (s.draw(4))
    {
    case 0:
    case 1: A = sref::PGA; break;
    case 2: A = common[s.draw(6)]; break;
    default:
        if (s.draw(4) == 0)
            A = Alg{s.range(0, 10), s.range(0, 10), s.range(0, 10)};
        else
            A = Alg{s.range(0, 5), s.range(0, 4), s.range(0, 3)};
        if (A.dim() == 0)
            A.p = 1;
    }
}
void prop_C24(Src& s, Ctx& c)
{
    name_mode(s);
    Alg A{};
    gen_alg(s, A);
    algebra a{(uint32_t)A.p, (uint32_t)A.q, (uint32_t)A.r};
    bool pga = A.p == 3 && A.q == 0 && A.r == 1;
    c.h((uint64_t)(A.p * 100 + A.q * 10 + A.r));
    sref::g_work = 1 << 20;
    if (s.draw(3) == 0) // blades
    {
        c.label("blades");
        uint32_t n = 1u << A.dim(), x = s.draw(n), y = s.draw(n);
        c.h(x * 65536ull + y);
        c.nontrivial = x && y;
        if (c.verbose)
            c.note("algebra(" + std::to_string(A.p) + "," + std::to_string(A.q) + "," + std::to_string(A.r) + ") blades " + std::to_string(x) + " " + std::to_string(y));
        struct
        {
            const char* n;
            int32_t got;
            sref::SB want;
        } t[4];
        int k = 0;
        must("blade products", [&] {
            t[k++] = {"geometric product", a.mul(x, y), sref::gp(A, x, y)};
            t[k++] = {"exterior product", a.ext(x, y), sref::ext(A, x, y)};
            t[k++] = {"inner product", a.dot(x, y), sref::dot(A, x, y)};
            if (pga)
                t[k++] = {"regressive product", a.reg(x, y), sref::reg(A, x, y)};
        });
        for (int i = 0; i != k; ++i)
        {
            uint32_t b;
            int sg = decode(t[i].got, b);
            if (sg != t[i].want.s || (sg && b != t[i].want.b))
                fail(std::string(t[i].n) + " of blades " + std::to_string(x) + " and " + std::to_string(y) + " is sign " + std::to_string(sg) + " blade " +
                     std::to_string(b) + ", expected sign " + std::to_string(t[i].want.s) + " blade " + std::to_string(t[i].want.b));
        }
        bool rv = false;
        int32_t du = 0;
        uint32_t ps = 0;
        must("blade operations", [&] {
            rv = a.rev(x);
            ps = a.pss();
            if (pga)
                du = a.dual(x);
        });
        int p2 = A.p, q2 = A.q, r2 = A.r, *which[] = {&p2, &q2, &r2};
        if (s.draw(2))
        {
            *which[s.draw(3)] += s.draw(2) ? 1 : -1;
            if (s.draw(2)) // as many dimensions
                *which[s.draw(3)] += s.draw(2) ? 1 : -1;
        }
        if (p2 >= 0 && q2 >= 0 && r2 >= 0 && p2 + q2 + r2 < 32)
        {
            bool same = p2 == A.p && q2 == A.q && r2 == A.r;
            algebra other{(uint32_t)p2, (uint32_t)q2, (uint32_t)r2};
            if ((a == other) != same)
                fail("algebras (" + std::to_string(A.p) + "," + std::to_string(A.q) + "," + std::to_string(A.r) + ") and (" + std::to_string(p2) + "," +
                     std::to_string(q2) + "," + std::to_string(r2) + ") compare " + (same ? "unequal" : "equal"));
        }
        if (rv != sref::rev_neg(x))
            fail("reversion sign of blade " + std::to_string(x));
        if (ps != n - 1)
            fail("pseudoscalar of an algebra of dimension " + std::to_string(A.dim()));
        if (pga)
        {
            uint32_t b;
            sref::SB w = sref::dual(x);
            if (decode(du, b) != w.s || b != w.b)
                fail("dual of blade " + std::to_string(x));
        }
        return;
    }
    bool scaled = s.chance(1, 8);
    MvPair x = gen_mv(s, a, A, scaled), y = gen_mv(s, a, A, scaled), z;
    static const char* ops[] = {"*", "^", "|", "+", "-=", "neg", "~", "&", "(x*y)*z", "distributive"};
    uint32_t k = s.draw(10);
    if (k == 7 && !pga)
        k = 0;
    bool self = k < 8 && s.chance(1, 6), compound = s.draw(2);
    c.label(ops[k]);
    c.h(k * 4 + self * 2 + compound);
    c.h(hash_str(sref::show(x.r) + "/" + sref::show(y.r)));
    if (c.verbose)
        c.note(std::string(ops[k]) + (self ? " self" : "") + " in algebra(" + std::to_string(A.p) + "," + std::to_string(A.q) + "," + std::to_string(A.r) + "): " +
               sref::show(x.r) + " ; " + sref::show(y.r));
    if (self)
        y = x;
    double grid = std::min(x.grid, y.grid);
    mv res{a}, keep_x = x.l, keep_y = y.l;
    sref::MV want;
    const mv& Y = self ? x.l : y.l;
    switch (k)
    {
    case 0:
    case 1:
    case 2:
    case 7:
    {
        char op = "*^|....&"[k];
        want    = sref::prod(A, x.r, y.r, op);
        grid    = x.grid * y.grid;
        must("product", [&] {
            mv tmp = x.l;
            if (compound)
            {
                const mv& R = self ? tmp : y.l;
                mv* rp = op == '*' ? &(tmp *= R) : op == '^' ? &(tmp ^= R) : op == '|' ? &(tmp |= R) : &(tmp &= R);
                if (rp != &tmp)
                    fail("compound product does not return its left operand");
                res = tmp;
            }
            else
                res = op == '*' ? x.l * Y : op == '^' ? x.l ^ Y : op == '|' ? x.l | Y : x.l & Y;
        });
        break;
    }
    case 3:
        want = sref::add(x.r, y.r);
        must("sum", [&] {
            if (compound)
            {
                mv tmp = x.l;
                tmp += self ? tmp : y.l;
                res = tmp;
            }
            else
                res = x.l + Y;
        });
        break;
    case 4:
        want = sref::add(x.r, y.r, true);
        must("difference", [&] {
            mv tmp = x.l;
            tmp -= self ? tmp : y.l;
            res = tmp;
        });
        break;
    case 5:
        want = sref::neg(x.r);
        must("negation", [&] {
            if (compound)
                res = -mv(x.l);
            else
                res = -x.l;
        });
        break;
    case 6:
        want = sref::rev(x.r);
        must("reversion", [&] {
            if (compound)
                res = ~mv(x.l);
            else
                res = ~x.l;
        });
        break;
    case 8:
        z    = gen_mv(s, a, A, scaled);
        want = sref::prod(A, sref::prod(A, x.r, y.r, '*'), z.r, '*');
        grid = x.grid * y.grid * z.grid;
        must("associativity", [&] { res = compound ? (x.l * y.l) * z.l : x.l * (y.l * z.l); });
        break;
    case 9:
        z    = gen_mv(s, a, A, scaled);
        want = sref::prod(A, x.r, sref::add(y.r, z.r), '*');
        grid = x.grid * std::min(y.grid, z.grid);
        must("distributivity", [&] { res = compound ? x.l * (y.l + z.l) : x.l * y.l + x.l * z.l; });
        break;
    }
    c.nontrivial = !x.r.empty() && (k == 5 || k == 6 || !y.r.empty()) && !symchk::from(res).empty();
    std::string d = diff(res, want, grid);
    if (!d.empty())
        fail(std::string(ops[k]) + " " + d);
    // the operands are untouched
    d = sref::diff(symchk::from(x.l), symchk::from(keep_x), 1e30);
    if (d.empty() && !self)
        d = sref::diff(symchk::from(y.l), symchk::from(keep_y), 1e30);
    if (!d.empty())
        fail(std::string(ops[k]) + " changed an operand: " + d);
    // the result can be used further
    must("reuse of the result", [&] { res = res + x.l; });
    d = diff(res, sref::add(want, x.r), std::min(grid, x.grid));
    if (!d.empty())
        fail(std::string(ops[k]) + " then + " + d);
}

// ------------------------------------------------------------ C26 polynomials
void prop_C26(Src& s, Ctx& c)
{
    name_mode(s);
    sref::g_work = 1 << 20;
    uint32_t k = s.draw(9);
    static const char* ops[] = {"+", "*", "-", "+=", "*=", "push", "monomials", "order", "ring laws"};
    c.label(ops[k]);
    c.h(k);
    if (k == 6 || k == 7)
    {
        sref::Mon m[3];
        mon l[3];
        for (int i = 0; i != 3; ++i)
        {
            if (i && s.chance(1, 4)) // close to the previous one
            {
                m[i] = m[i - 1];
                if (s.draw(2))
                {
                    std::string v = gen_name(s);
                    if ((m[i][v] += s.draw(2) ? 1 : -1) == 0)
                        m[i].erase(v);
                }
            }
            else
                m[i] = gen_mon(s, true);
            bool steps = s.draw(2);
            must("pushing factors", [&] { l[i] = steps ? lib_steps(s, m[i]) : lib(m[i]); });
            for (auto& f : m[i])
            {
                c.h(hash_str(f.first));
                c.h((uint64_t)f.second);
            }
            c.h(7);
        }
        c.nontrivial = !m[0].empty() && !m[1].empty();
        if (c.verbose)
            for (int i = 0; i != 3; ++i)
            {
                sref::MV t;
                t[0][m[i]] = sref::Co{1, 1};
                c.note(sref::show(t));
            }
        int lt[3][3] = {}, eq[3][3] = {}, deg[3] = {};
        size_t hs[3] = {};
        mon prod, prod2, self;
        must("monomial operation", [&] {
            for (int i = 0; i != 3; ++i)
            {
                deg[i] = l[i].degree();
                hs[i]  = std::hash<mon>{}(l[i]);
                for (int j = 0; j != 3; ++j)
                {
                    lt[i][j] = l[i] < l[j];
                    eq[i][j] = l[i] == l[j];
                }
            }
            prod  = l[0] * l[1];
            prod2 = l[0];
            prod2 *= l[1];
            self = l[2];
            self *= self;
        });
        for (int i = 0; i != 3; ++i)
        {
            int d = 0;
            for (auto& f : m[i])
                d += f.second;
            if (d != deg[i])
                fail("degree of a monomial is " + std::to_string(deg[i]) + ", expected " + std::to_string(d));
            if (l[i].factors != m[i])
                fail("pushing factors one by one gives other factors");
            for (int j = 0; j != 3; ++j)
            {
                bool same = m[i] == m[j];
                if (eq[i][j] != same)
                    fail("equality of monomials is wrong");
                if (same && hs[i] != hs[j])
                    fail("equal monomials have different hashes");
                if (lt[i][j] + lt[j][i] != (same ? 0 : 1))
                    fail("the order of monomials is not total: a<b " + std::to_string(lt[i][j]) + ", b<a " + std::to_string(lt[j][i]));
                if (deg[i] < deg[j] && !lt[i][j])
                    fail("the order of monomials is not graded");
                for (int n = 0; n != 3; ++n)
                    if (lt[i][j] && lt[j][n] && !lt[i][n])
                        fail("the order of monomials is not transitive");
            }
        }
        if (prod.factors != sref::mul(m[0], m[1]) || prod2.factors != prod.factors)
            fail("product of two monomials is wrong");
        if (self.factors != sref::mul(m[2], m[2]))
            fail("square of a monomial is wrong");
        return;
    }
    bool scaled = s.chance(1, 3);
    int most   = k == 1 || k == 4 || k == 8 || !s.chance(1, 24) ? 4 : 20 + s.range(0, 180);
    PolyPair p = gen_poly(s, true, most, scaled), q = gen_poly(s, true, most, scaled && s.draw(2));
    if (scaled && s.draw(2)) // comparable with the first
    {
        double f = p.grid / q.grid;
        q.grid = p.grid;
        for (auto& t : q.l.terms)
            t.second *= (float)f;
        for (auto& t : q.r)
            t.second.v *= f, t.second.m *= f;
    }
    bool self = k < 5 && s.chance(1, 6);
    if (s.chance(1, 6)) // cancels wholly or in part
    {
        q      = PolyPair{};
        q.grid = p.grid;
        for (auto& t : p.r)
            if (t.second.v != 0 && (s.draw(4) || q.r.empty()))
            {
                double v = -t.second.v;
                if (s.chance(1, 4)) // not quite
                    v += p.grid;
                if (v == 0)
                    continue;
                q.l.push(lib(t.first), (float)v);
                q.r[t.first] = sref::Co{v, std::fabs(v)};
            }
    }
    bool zeros = s.chance(1, 16); // terms given with the coefficient zero
    if (zeros)
        for (uint32_t n = 1 + s.draw(3); n; --n)
        {
            mon m = lib(gen_mon(s, true));
            (s.draw(2) ? p.l : q.l).push(m, 0.f);
        }
    if (self)
        q = p;
    double grid  = std::min(p.grid, q.grid);
    c.nontrivial = !p.r.empty() && !q.r.empty();
    {
        sref::MV t;
        t[0] = p.r;
        t[1] = q.r;
        std::string d = sref::show(t);
        c.h(hash_str(d) + self);
        if (c.verbose)
            c.note(std::string(ops[k]) + (self ? " self " : " ") + d + " (second operand marked e0)");
    }
    poly res;
    sref::Poly want;
    const poly keep_p = p.l, keep_q = q.l;
    switch (k)
    {
    case 0:
        want = sref::add(p.r, q.r);
        must("sum", [&] { res = p.l + (self ? p.l : q.l); });
        break;
    case 1:
        want = sref::mul(p.r, q.r);
        grid = p.grid * q.grid;
        must("product", [&] { res = p.l * (self ? p.l : q.l); });
        break;
    case 2:
        want = sref::neg(p.r);
        must("negation", [&] { res = s.draw(2) ? -poly(p.l) : -p.l; });
        break;
    case 3:
        want = sref::add(p.r, q.r);
        must("sum", [&] {
            res = p.l;
            res += self ? res : q.l;
        });
        break;
    case 4:
        want = sref::mul(p.r, q.r);
        grid = p.grid * q.grid;
        must("product", [&] {
            res = p.l;
            res *= self ? res : q.l;
        });
        break;
    case 5:
        want = p.r;
        res  = p.l;
        for (uint32_t n = s.draw(5); n; --n)
        {
            sref::Mon m = !want.empty() && s.draw(2) ? want.begin()->first : gen_mon(s, true);
            double v    = s.range(1, 5) * (s.draw(2) ? -1 : 1) * p.grid;
            if (s.draw(3) == 0 && want.count(m) && want[m].v != 0)
                v = -want[m].v;
            mon lm = lib(m);
            must("push", [&] { res.push(lm, (float)v); });
            sref::add(want, m, sref::Co{v, std::fabs(v)});
        }
        break;
    case 8:
    {
        PolyPair r = gen_poly(s, true, 3, scaled && s.draw(2));
        grid       = p.grid * std::min(q.grid, r.grid);
        want       = sref::mul(p.r, sref::add(q.r, r.r));
        uint32_t w = s.draw(4);
        must("ring law", [&] {
            res = w == 0 ? p.l * (q.l + r.l) : w == 1 ? p.l * q.l + p.l * r.l : w == 2 ? (r.l + q.l) * p.l : q.l * p.l + r.l * p.l;
        });
        break;
    }
    }
    std::string d = diff(res, want, grid);
    if (!d.empty())
        fail(std::string("polynomial ") + ops[k] + " " + d);
    for (auto& t : res.terms)
        if (t.second == 0.f && !zeros)
            fail(std::string("polynomial ") + ops[k] + " keeps a term with coefficient zero");
    sref::MV a, b;
    a[0] = symchk::from(p.l), a[1] = symchk::from(q.l);
    b[0] = symchk::from(keep_p), b[1] = symchk::from(keep_q);
    d = sref::diff(a, b, 1e30);
    if (!d.empty())
        fail(std::string("polynomial ") + ops[k] + " changed an operand");
}

// ----------------------------------------------------------- expressions
struct ExprGen
{
    Src& s;
    double grid = 1;
    int names = 0, ops = 0, budget;
    std::string out;
    int dim;
    bool vees;
    ExprGen(Src& src, int b, int d = 4, bool v = true) : s(src), budget(b), dim(d), vees(v) {}
    void sp()
    {
        static const char* w[] = {"", " ", "", " ", "  ", "\t"};
        out += w[s.draw(6)];
        if (s.chance(1, 200))
        {
            static const char* rare[] = {"\v", "\f", "\r", "\t \t"};
            uint32_t k = s.draw(5);
            out += k < 4 ? rare[k] : std::string(1 + s.draw(300), ' ');
        }
    }
    void small_factor()
    {
        switch (s.draw(5))
        {
        case 0: out += s.draw(2) ? "2" : "1"; break;
        case 1:
            blade();
            break;
        case 2:
            out += "-~+"[s.draw(3)];
            [[fallthrough]];
        default:
            out += gen_name(s);
            ++names;
            if (s.draw(3) == 0)
            {
                out += ' ';
                blade();
            }
        }
    }
    void blade()
    {
        out += 'e';
        int ix[10];
        int m = dim < 10 ? dim : 10;
        for (int i = 0; i != m; ++i)
            ix[i] = i;
        int n = s.range(1, m);
        for (int i = 0; i != n; ++i)
        {
            int j = s.range(i, m - 1);
            std::swap(ix[i], ix[j]);
            out += (char)('0' + ix[i]);
        }
    }
    bool long_literal = false;
    void number()
    {
        double g = 1, v = gen_num(s, g);
        grid *= g;
        if (s.chance(1, 24)) // next to a whole number
        {
            int k = s.range(5, 13);
            v = (s.draw(3) ? 1 : s.range(2, 5)) + (s.draw(2) ? 1 : -1) * std::ldexp(1.0, -k);
            grid *= std::ldexp(1.0, -k);
            char w[64];
            snprintf(w, sizeof w, "%.14g", v);
            out += w;
            return;
        }
        if (!long_literal && s.chance(1, 20)) // six to twenty digits, once per expression
        {
            long_literal = true;
            std::string t(s.draw(3) ? s.range(6, 10) : s.range(6, 20), '0');
            for (auto& c : t)
                c = (char)('0' + s.draw(10));
            if (t[0] == '0')
                t[0] = '9';
            if (t.size() < 9 && s.draw(4) == 0)
            {
                t += s.draw(2) ? ".5" : ".25";
                grid *= 0.25;
            }
            out += t;
            return;
        }
        char b[64];
        snprintf(b, sizeof b, v != 0 && v < 1e-3 ? "%.14f" : "%.9g", v);
        std::string t = b;
        if (s.chance(1, 16))
            t = "00" + t;
        if (s.chance(1, 16))
            t += t.find('.') == std::string::npos ? ".000" : "00";
        out += t;
    }
    void factor(int depth)
    {
        --budget;
        for (uint32_t u = s.chance(1, 4) ? 1 + s.draw(s.chance(1, 24) ? 70 : 3) : 0; u; --u)
        {
            out += "-~+"[s.draw(3)];
            sp();
        }
        if (budget > 0 && s.chance(1, 24)) // a high power
        {
            std::string v = gen_name(s), u;
            if (s.draw(3) == 0)
                u = s.draw(2) ? v + "*" + gen_name(s) : v;
            int n = s.range(5, 24);
            out += '(';
            for (int i = 0; i != n; ++i)
                out += (i ? "*" : "") + v;
            if (!u.empty())
                out += (s.draw(2) ? " + " : "*") + u;
            out += ')';
            ++names, ++ops;
            budget -= 3;
            return;
        }
        uint32_t k = s.draw(depth > 0 && budget > 0 ? 8 : 5);
        switch (k)
        {
        case 0:
            out += gen_name(s);
            ++names;
            break;
        case 1:
            out += gen_name(s);
            out += s.draw(4) ? " " : "  ";
            blade();
            ++names;
            break;
        case 2: number(); break;
        case 3:
            number();
            sp();
            blade();
            break;
        case 4: blade(); break;
        default:
            out += '(';
            sp();
            level(4, depth - 1);
            sp();
            out += ')';
        }
    }
    void level(int k, int depth)
    {
        if (k < 0)
            return factor(depth);
        static const char ops5[] = "|&^*";
        if (k == 3 && s.chance(1, 4) && depth > 0) // symbolic multivectors, as in the scripts
        {
            for (int f = 0; f != 2; ++f)
            {
                if (f)
                {
                    sp();
                    out += "*^*&|"[s.draw(5)];
                    if (!vees && out.back() == '&')
                        out.back() = '*';
                    ++ops;
                    sp();
                }
                out += '(';
                for (int n = s.range(2, 4); n; --n)
                {
                    out += gen_name(s);
                    out += ' ';
                    blade();
                    if (n > 1)
                        out += s.draw(3) ? " + " : "-";
                }
                out += ')';
            }
            budget -= 4;
            return;
        }
        level(k - 1, depth);
        if (budget > 4 && !(k == 1 && !vees) && s.chance(1, 120)) // a long chain of one level
        {
            for (uint32_t n = 5 + s.draw(s.draw(3) ? 12 : 60); n; --n)
            {
                sp();
                out += k == 4 ? "+-"[s.draw(2)] : ops5[k];
                ++ops;
                sp();
                small_factor();
            }
            budget -= 5;
            return;
        }
        for (uint32_t n = s.chance(1, k == 4 ? 2 : k == 0 || k == 1 ? 5 : 3) ? 1 + s.draw(3) : 0; n && budget > 0; --n)
        {
            if (k == 1 && !vees)
                break;
            sp();
            out += k == 4 ? "+-"[s.draw(2)] : ops5[k];
            ++ops;
            sp();
            level(k - 1, depth);
        }
    }
    std::string const& expr()
    {
        sp();
        level(4, 3);
        sp();
        return out;
    }
};

void check_line(std::string const& line, Alg A, algebra const& a, Ctx& c, bool wellformed)
{
    symchk::Verdict v;
    sref::MV val;
    std::string e = symchk::line(line, A, a, [](auto&& f) { return safely(f); }, &v, &val);
    if (!e.empty())
        fail(e);
    if (v == symchk::SKIP)
        c.label("skipped: too many terms");
    else if (v == symchk::ANY)
        c.label("either outcome accepted");
    else if (v == symchk::REJECT)
        c.label("malformed");
    else
        c.label("value");
    if (wellformed && v == symchk::REJECT)
        fail("internal: the generator made a malformed expression " + symchk::quote(line));
    bool nonzero = false;
    for (auto& kv : val)
        for (auto& t : kv.second)
            nonzero |= t.second.v != 0;
    c.nontrivial = v == symchk::REJECT ? line.size() > 3 : v == symchk::VALUE && line.size() > 5 && nonzero;
}
void prop_C25(Src& s, Ctx& c)
{
    name_mode(s);
    Alg A = sref::PGA;
    if (s.chance(1, 6))
    {
        gen_alg(s, A);
        if (A.dim() > 10)
            A = sref::PGA;
    }
    algebra a{(uint32_t)A.p, (uint32_t)A.q, (uint32_t)A.r};
    bool pga = A.p == 3 && A.q == 0 && A.r == 1;
    ExprGen g(s, s.chance(1, 20) ? s.range(14, 60) : s.range(1, 14), A.dim(), pga);
    std::string line = g.expr();
    c.h(hash_str(line));
    if (c.verbose)
        c.note(symchk::quote(line));
    check_line(line, A, a, c, true);
    c.nontrivial = c.nontrivial && g.ops >= 1;
}
std::string gen_garbage(Src& s)
{
    std::string t;
    static const char* tok[] = {"a", "b0", "e", "e0", "e1", "e12", "e0123", "e4", "e9", "e11", "1", "2", "10", "1.5", "1.", ".5", "1.2.3", "(", ")", "+", "-", "~", "*",
                                "^", "&", "|", " ", "  ", "$", "#", ",", ";", "=", "/", "_", "[", "\t", "e12x", "2e", "0x1", "1e5", "inf", "nan", "\xc3\xa9", "E", "\\", "\"",
                                "12345678901234567890", "99999999999999999999999999999999999", "0.000000000000000000000000000000000001", ".", "..", "!", "<", "@", "a a", "3 4", "\n", "\r"};
    switch (s.draw(6))
    {
    case 0:
    case 1: // token soup
        for (uint32_t n = s.draw(12); n; --n)
            t += tok[s.draw(sizeof tok / sizeof *tok)];
        break;
    case 2: // any bytes
        for (uint32_t n = s.draw(24); n; --n)
            t += (char)s.draw(256);
        break;
    case 3: // long runs
    {
        std::string u = tok[s.draw(sizeof tok / sizeof *tok)];
        if (s.draw(3) == 0) // an operator or blank between
            u += tok[s.draw(sizeof tok / sizeof *tok)];
        uint32_t n = s.chance(1, 160) ? 1u << s.range(15, 19) : s.chance(1, 8) ? 1u << s.draw(13) : s.draw(80);
        while (u.size() * n > 600000)
            n /= 2;
        for (; n; --n)
            t += u;
        if (s.draw(2))
            t += "a";
        break;
    }
    case 4: // deep nesting
    {
        uint32_t n = s.chance(1, 6) ? s.draw(60000) : s.draw(400), m = s.draw(3) ? n : s.draw(n + 2);
        t = std::string(n, '(') + (s.draw(4) ? "a" : "") + std::string(m, ')');
        break;
    }
    default: // a long number or name
    {
        uint32_t n = s.draw(60);
        for (uint32_t i = 0; i != n; ++i)
            t += s.chance(1, 12) ? '.' : (char)('0' + s.draw(10));
        if (s.draw(2))
            t = "a" + t;
        if (s.draw(2))
            t += " + a";
    }
    }
    return t;
}
std::string mutate(Src& s, std::string t)
{
    static const char pool[] = "()+-~*^&| ae012.x#$4";
    for (uint32_t n = 1 + s.draw(3); n; --n)
    {
        uint32_t at = s.draw((uint32_t)t.size() + 1);
        switch (s.draw(4))
        {
        case 0: t.insert(at, 1, pool[s.draw(sizeof pool - 1)]); break;
        case 1:
            if (at < t.size())
                t.erase(at, 1);
            break;
        case 2:
            if (at < t.size())
                t[at] = pool[s.draw(sizeof pool - 1)];
            break;
        default: t.resize(at);
        }
    }
    return t;
}
void prop_C27(Src& s, Ctx& c)
{
    name_mode(s);
    Alg A = sref::PGA;
    static const algebra a{3, 0, 1};
    std::string line;
    if (s.draw(2))
        line = gen_garbage(s);
    else
    {
        ExprGen g(s, s.range(1, 10));
        line = mutate(s, g.expr());
    }
    c.h(hash_str(line));
    if (c.verbose)
        c.note(symchk::quote(line));
    check_line(line, A, a, c, false);
}

// ------------------------------------------------------------- C28 the shell
std::mutex g_io;
struct Redirect
{
    std::stringbuf in, out, err;
    std::streambuf *i, *o, *e;
    explicit Redirect(std::string const& s) : in(s, std::ios::in), out(std::ios::out), err(std::ios::out)
    {
        g_io.lock();
        std::cin.clear();
        std::cout.clear();
        std::cerr.clear();
        std::cout.flags(std::ios::skipws | std::ios::dec);
        std::cout.precision(6);
        i = std::cin.rdbuf(&in);
        o = std::cout.rdbuf(&out);
        e = std::cerr.rdbuf(&err);
    }
    ~Redirect()
    {
        std::cin.rdbuf(i);
        std::cout.rdbuf(o);
        std::cerr.rdbuf(e);
        std::cin.clear();
        std::cout.clear();
        std::cerr.clear();
        g_io.unlock();
    }
};
struct Expect
{
    enum
    {
        VALUE,
        ECHO,
        NOTHING,
        ERROR
    } kind;
    std::string line;
    sref::MV val;
    double grid = 1;
};
std::vector<std::string> lines_of(std::string const& s)
{
    std::vector<std::string> v;
    size_t b = 0;
    while (b < s.size())
    {
        size_t e = s.find('\n', b);
        if (e == std::string::npos)
            e = s.size();
        v.push_back(s.substr(b, e - b));
        b = e + 1;
    }
    return v;
}
size_t long_run(Src& s)
{
    static const int around[] = {256, 512, 1024, 4096, 8192};
    return (size_t)std::max(1, s.draw(2) ? around[s.draw(5)] + s.range(-24, 24) : s.range(100, 9000));
}
void prop_C28(Src& s, Ctx& c)
{
    name_mode(s);
    std::vector<Expect> ex;
    std::string input;
    uint32_t n = s.chance(1, 16) ? 9 + s.draw(40) : 1 + s.draw(8);
    if (s.chance(1, 400))
        n = 150 + s.draw(500);
    int values = 0;
    for (uint32_t k = 0; k != n; ++k)
    {
        Expect x;
        // the same line again, as from the history of a terminal
        bool again = !ex.empty() && s.chance(1, 6);
        if (again)
        {
            x = ex[s.draw(2) ? ex.size() - 1 : s.draw((uint32_t)ex.size())];
            values += x.kind == Expect::VALUE;
        }
        else
        switch (s.draw(10))
        {
        case 0:
            x.kind = Expect::ECHO; // blank
            break;
        case 1:
            x.kind = Expect::ECHO; // only whitespace: an empty line comes back
            x.line = s.draw(2) ? " " : "\t  ";
            break;
        case 2:
        {
            x.kind = Expect::ECHO;
            ExprGen g(s, 4);
            x.line = (s.chance(1, 4) ? " #" : "#") + (s.draw(2) ? " note. (a + " : g.expr());
            if (s.chance(1, 200))
                x.line.append(long_run(s), '-');
            break;
        }
        case 3:
        {
            x.kind = Expect::NOTHING;
            static const char* cmd[] = {".break", " .break", ".foo a + b", ".break # note", ".", "\t.a#b", ".5 + a", ".break .break"};
            x.line = cmd[s.draw(sizeof cmd / sizeof *cmd)];
            break;
        }
        case 4:
        {
            static const char* bad[] = {"a +", "a b", "(a", "a)", "* a", "$", "e4", "e11", "1.2.3", "a (b)", ")", "()", "2 3", "a # b", "a, b"};
            x.line = bad[s.draw(sizeof bad / sizeof *bad)];
            x.kind = Expect::ERROR;
            break;
        }
        default:
        {
            ExprGen g(s, s.chance(1, 16) ? s.range(8, 40) : s.range(1, 8));
            x.line = g.expr();
            std::string why;
            symchk::Verdict v = symchk::reference(x.line, sref::PGA, x.val, why, 2000);
            x.kind = Expect::VALUE;
            if (v != symchk::VALUE)
            {
                x.line = "a";
                symchk::reference(x.line, sref::PGA, x.val, why, 2000);
            }
            x.grid = x.line.find('.') == std::string::npos ? 1 : 0;
            if (s.chance(1, 400)) // longer than any line buffer
                x.line.insert(s.draw(2) ? 0 : x.line.size(), long_run(s), " \t\v\f"[s.draw(4)]);
            else if (s.chance(1, 16))
                x.line.insert(0, 1, " \t\v\f"[s.draw(4)]);
            ++values;
        }
        }
        input += x.line;
        if (k + 1 != n || s.draw(4))
            input += s.chance(1, 12) && x.kind != Expect::ECHO ? "\r\n" : "\n";
        else if (x.line.empty())
            continue; // no line at all
        ex.push_back(x);
    }
    c.h(hash_str(input));
    c.nontrivial = values >= 1 && ex.size() >= 2;
    if (c.verbose)
        c.note(symchk::quote(input));
    std::string out, err, e;
    {
        Redirect r(input);
        e = safely([&] {
            repl shell;
            shell.run();
        });
        if (e.empty())
            out = r.out.str(), err = r.err.str();
    }
    if (!e.empty())
        fail("shell session " + symchk::quote(input) + ": " + e);
    auto got  = lines_of(out);
    size_t at = 0, errors = 0;
    for (auto& x : ex)
    {
        if (x.kind == Expect::NOTHING)
            continue;
        if (x.kind == Expect::ERROR)
        {
            ++errors;
            continue;
        }
        if (at == got.size())
            fail("session " + symchk::quote(input) + ": no output for line " + symchk::quote(x.line) + "; output " + symchk::quote(out));
        std::string g = got[at++];
        if (x.kind == Expect::ECHO)
        {
            bool blank = x.line.find('#') == std::string::npos;
            if (blank ? g.find_first_not_of(" \t\r") != std::string::npos : g != x.line)
                fail("session " + symchk::quote(input) + ": line " + symchk::quote(x.line) + " comes back as " + symchk::quote(g));
            c.label(blank ? "blank" : "comment");
            continue;
        }
        c.label("value");
        sref::MV back;
        sref::Reader rd(g);
        if (!rd.read(back))
            fail("session " + symchk::quote(input) + ": the output " + symchk::quote(g) + " for " + symchk::quote(x.line) + " cannot be read back; expected " + sref::show(x.val));
        std::string d = sref::diff(back, x.val, x.grid, 6e-6);
        if (!d.empty())
            fail("session " + symchk::quote(input) + ": the output " + symchk::quote(g) + " for " + symchk::quote(x.line) + " " + d);
    }
    if (at != got.size())
        fail("session " + symchk::quote(input) + ": output beyond what the lines ask for: " + symchk::quote(out));
    if (errors ? err.find_first_not_of(" \n") == std::string::npos : !err.empty())
        fail("session " + symchk::quote(input) + (errors ? ": no error is reported" : ": an error is reported for correct lines: " + symchk::quote(err)));
    if (errors > lines_of(err).size())
        fail("session " + symchk::quote(input) + ": fewer errors are reported than lines are wrong: " + symchk::quote(err));
    if (errors)
        c.label("session with errors");
}

// ------------------------------- C31 multivectors through a history
// Registers of multivectors over one to three algebras and a model of each;
// after every step all registers equal their models.
void prop_C31(Src& s, Ctx& c)
{
    name_mode(s);
    std::vector<Alg> As(1, sref::PGA);
    if (s.chance(1, 4))
        gen_alg(s, As[0]);
    if (s.chance(1, 4)) // further algebras
        for (uint32_t n = 1 + s.draw(2); n--;)
        {
            Alg x = As[0];
            switch (s.draw(4))
            {
            case 0: break; // the same signature
            case 1:
            case 2: // another of the same dimension
                x.p = s.range(0, x.dim());
                x.q = s.range(0, As[0].dim() - x.p);
                x.r = As[0].dim() - x.p - x.q;
                break;
            default: gen_alg(s, x);
            }
            As.push_back(x);
        }
    std::vector<algebra> as;
    std::string what;
    for (Alg const& x : As)
    {
        as.emplace_back((uint32_t)x.p, (uint32_t)x.q, (uint32_t)x.r);
        what += "algebra(" + std::to_string(x.p) + "," + std::to_string(x.q) + "," + std::to_string(x.r) + ") ";
    }
    const int N = 4, M = (int)As.size();
    std::vector<mv> reg;
    std::vector<int> of(N);
    for (int i = 0; i != N; ++i)
        reg.emplace_back(as[of[i] = i % M]);
    std::vector<sref::MV> model(N);
    std::ostringstream screen;
    auto pick = [&](int al, int j) { // a register over this algebra
        int k = (int)s.draw(N);
        return of[k] == al ? k : j;
    };
    double grid = 1;
    int steps   = 2 + (int)s.draw(24), products = 0, parses = 0;
    std::string hist;
    auto size = [](sref::MV const& m) {
        size_t n = 0;
        for (auto& kv : m)
            n += kv.second.size();
        return n;
    };
    auto sane = [&](sref::MV const& m) {
        double mx = 0;
        for (auto& kv : m)
            for (auto& t : kv.second)
                mx = std::max(mx, t.second.m);
        return size(m) <= 60 && mx < 1e12;
    };
    auto note = [&](std::string t) {
        c.h(hash_str(t));
        hist += t + "; ";
    };
    for (int st = 0; st != steps; ++st)
    {
        int i = (int)s.draw(N), j = (int)s.draw(N), k = s.chance(1, 4) ? i : (int)s.draw(N);
        uint32_t op = s.draw(15);
        int al = op <= 3 || op == 13 ? (M > 1 ? (int)s.draw((uint32_t)M) : 0) : op >= 7 && op <= 9 ? of[i] : of[j];
        if (op >= 4 && op <= 9 && of[k] != al)
            k = op <= 6 ? j : pick(al, i);
        Alg const& A = As[al];
        algebra const& a = as[al];
        bool pga = A.p == 3 && A.q == 0 && A.r == 1;
        std::string ri = "x" + std::to_string(i), rj = "x" + std::to_string(j), rk = "x" + std::to_string(k);
        sref::MV want;
        static const char os[] = "*^|+-&";
        char o = os[s.draw(pga ? 6 : 5)];
        if (op <= 3 || op == 13) // fresh value, by parts or from text
        {
            if (op == 13 || A.dim() > 10)
            {
                MvPair x = gen_mv(s, a, A);
                grid = 0;
                reg[i]   = x.l;
                model[i] = x.r;
                of[i]    = al;
                note(ri + " = " + sref::show(x.r) + (al ? " over the algebra " + std::to_string(al + 1) : ""));
            }
            else
            {
                ExprGen g(s, s.range(1, 6), A.dim(), pga);
                std::string line = g.expr(), why;
                if (op == 3) // probably malformed
                    line = mutate(s, line);
                if (!pga && line.find('&') != std::string::npos) // documented as unsupported
                    continue;
                symchk::Verdict v = symchk::reference(line, A, want, why, 2000);
                if (v == symchk::SKIP || v == symchk::ANY || !sane(want))
                    continue;
                ++parses;
                note(ri + " = parse " + symchk::quote(line) + (al ? " over the algebra " + std::to_string(al + 1) : ""));
                bool threw = false;
                must((hist + "last step").c_str(), [&] {
                    try
                    {
                        if (s.draw(2))
                            reg[i] = parse(line, a);
                        else
                        {
                            mv t   = parse(line, a);
                            reg[i] = t;
                        }
                    }
                    catch (std::runtime_error const&)
                    {
                        threw = true;
                    }
                });
                if (threw != (v == symchk::REJECT))
                    fail(what + hist + "the last step is " + (threw ? "rejected" : "accepted"));
                if (!threw)
                    model[i] = want, of[i] = al;
                grid = 0;
            }
        }
        else if (op <= 6) // xi = xj o xk
        {
            if (o == '-' || size(model[j]) * size(model[k]) > 400)
                o = '+';
            sref::g_work = 1 << 20;
            want = o == '+' ? sref::add(model[j], model[k]) : sref::prod(A, model[j], model[k], o);
            if (!sane(want))
                continue;
            products += o != '+';
            note(ri + " = " + rj + " " + o + " " + rk);
            must((hist + "last step").c_str(), [&] {
                const mv &x = reg[j], &y = reg[k];
                reg[i] = o == '*' ? x * y : o == '^' ? x ^ y : o == '|' ? x | y : o == '&' ? x & y : x + y;
            });
            model[i] = want;
            of[i]    = al;
        }
        else if (op <= 9) // xi o= xk
        {
            if (o != '-' && size(model[i]) * size(model[k]) > 400)
                o = '+';
            sref::g_work = 1 << 20;
            want = o == '+' ? sref::add(model[i], model[k]) : o == '-' ? sref::add(model[i], model[k], true) : sref::prod(A, model[i], model[k], o);
            if (!sane(want))
                continue;
            products += o != '+' && o != '-';
            note(ri + " " + o + "= " + rk);
            must((hist + "last step").c_str(), [&] {
                mv &x = reg[i], &y = reg[k];
                mv& r = o == '*' ? x *= y : o == '^' ? x ^= y : o == '|' ? x |= y : o == '&' ? x &= y : o == '+' ? x += y : x -= y;
                if (&r != &x)
                    fail(what + hist + "does not return its left operand");
            });
            model[i] = want;
        }
        else if (op == 10) // unary
        {
            bool n = s.draw(2), tmp = s.draw(2);
            want = n ? sref::neg(model[j]) : sref::rev(model[j]);
            note(ri + " = " + (n ? "-" : "~") + (tmp ? "copy of " : "") + rj);
            must((hist + "last step").c_str(), [&] { reg[i] = n ? (tmp ? mv(-mv(reg[j])) : -reg[j]) : (tmp ? mv(~mv(reg[j])) : ~reg[j]); });
            model[i] = want;
            of[i]    = al;
        }
        else if (op == 11) // copy
        {
            note(ri + " = " + rj);
            must((hist + "last step").c_str(), [&] { reg[i] = reg[j]; });
            want     = model[j];
            model[i] = want;
            of[i]    = al;
        }
        else if (op == 14) // print on the one stream of the history
        {
            if (A.dim() > 10)
                continue;
            note("print " + rj);
            std::string g;
            must((hist + "last step").c_str(), [&] {
                screen.str("");
                screen << reg[j];
                g = screen.str();
            });
            sref::MV back;
            sref::Reader rd(g);
            if (!model[j].empty() && !rd.read(back))
                fail(what + hist + "the output " + symchk::quote(g) + " cannot be read back; expected " + sref::show(model[j]));
            std::string d = sref::diff(back, model[j], grid, 6e-6);
            if (!d.empty())
                fail(what + hist + "the output " + symchk::quote(g) + " " + d);
        }
        else // move and reassign, or exchange
        {
            if (i == j)
                continue;
            bool sw = s.draw(2);
            note(sw ? "swap " + ri + " " + rj : ri + " = move " + rj + ", " + rj + " = zero");
            must((hist + "last step").c_str(), [&] {
                if (sw)
                    std::swap(reg[i], reg[j]);
                else
                {
                    reg[i] = std::move(reg[j]);
                    reg[j] = mv{a};
                }
            });
            if (sw)
                std::swap(model[i], model[j]), std::swap(of[i], of[j]);
            else
            {
                model[i] = model[j];
                of[i]    = of[j];
                model[j].clear();
            }
        }
        for (int q = 0; q != N; ++q)
        {
            std::string d = sref::diff(symchk::from(reg[q]), model[q], grid);
            if (!d.empty())
                fail(what + hist + "then x" + std::to_string(q) + " " + d);
        }
    }
    if (c.verbose)
        c.note(what + ": " + hist);
    if (M > 1)
        c.label("several algebras");
    c.label(parses ? "with expressions" : "operations only");
    c.nontrivial = products >= 2;
}

struct PropDef
{
    const char* id;
    Prop f;
    uint64_t quick, thorough;
    const char* rule;
};
const std::vector<PropDef> g_props = {
    {"C24", prop_C24, 2000000, 80000000, "one operation on generated symbolic multivectors, or all blade products of two blades; non-trivial: operands and result non-zero (blades: both above grade 0)"},
    {"C25", prop_C25, 3000000, 150000000, "one generated expression evaluated; non-trivial: at least one binary operator and more than 5 characters and a non-zero value"},
    {"C26", prop_C26, 3000000, 100000000, "one operation on generated polynomials or monomials; non-trivial: operands non-zero"},
    {"C27", prop_C27, 600000, 8000000, "one input line, arbitrary or derived from an expression by edits; non-trivial: a rejected line of more than 3 or an accepted line of more than 5 characters with a non-zero value"},
    {"C31", prop_C31, 450000, 25000000, "a history of 2-25 operations on four multivector variables over one to three algebras, all compared with their models after every step; non-trivial: at least two products"},
    {"C28", prop_C28, 250000, 8000000, "one shell session of 1-48 lines; non-trivial: at least 2 lines, one of them an expression"},
};
} // namespace
#include "main.inc"
