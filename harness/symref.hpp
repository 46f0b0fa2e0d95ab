// Reference model of the symbolic algebra system: sparse polynomials with
// double coefficients, multivectors over any diagonal metric, an independent
// parser of the expression grammar and a reader of the printed form.
// Shares no code with /repo/sym.
#pragma once
#include <cctype>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace sref
{
using Mon = std::map<std::string, int>;
struct Co
{
    double v = 0, m = 0; // value, and the same sum over magnitudes
};
using Poly = std::map<Mon, Co>;
using MV   = std::map<uint32_t, Poly>;

struct TooBig
{};
struct Reject
{
    const char* why;
};
inline thread_local long g_work = 0; // term products left
inline void work(size_t n)
{
    if ((g_work -= (long)n) < 0)
        throw TooBig{};
}

inline Mon mul(Mon a, Mon const& b)
{
    for (auto& kv : b)
        if ((a[kv.first] += kv.second) == 0)
            a.erase(kv.first);
    return a;
}
inline void add(Poly& p, Mon const& m, Co c)
{
    Co& t = p[m];
    t.v += c.v;
    t.m += c.m;
}
inline Poly add(Poly a, Poly const& b)
{
    for (auto& kv : b)
        add(a, kv.first, kv.second);
    return a;
}
inline Poly neg(Poly a)
{
    for (auto& kv : a)
        kv.second.v = -kv.second.v;
    return a;
}
inline Poly mul(Poly const& a, Poly const& b)
{
    Poly r;
    work(a.size() * b.size());
    for (auto& x : a)
        for (auto& y : b)
            add(r, mul(x.first, y.first), {x.second.v * y.second.v, x.second.m * y.second.m});
    return r;
}

struct Alg
{
    int p, q, r;
    int dim() const { return p + q + r; }
    int square(int i) const { return i < r ? 0 : i < r + p ? 1 : -1; }
};
constexpr Alg PGA{3, 0, 1};
inline int grade(uint32_t a) { return __builtin_popcount(a); }
// sign of the reordering of e_a e_b, by counting the inversions one by one
inline int order(uint32_t a, uint32_t b)
{
    int n = 0;
    for (int i = 0; i != 32; ++i)
        if (a >> i & 1)
            for (int j = 0; j != i; ++j)
                n += b >> j & 1;
    return n & 1 ? -1 : 1;
}
// signed blade: sign 0 = zero
struct SB
{
    int s;
    uint32_t b;
};
inline SB gp(Alg const& A, uint32_t a, uint32_t b)
{
    int s = order(a, b);
    for (int i = 0; i != A.dim(); ++i)
        if ((a & b) >> i & 1)
            s *= A.square(i);
    return {s, a ^ b};
}
inline SB ext(Alg const&, uint32_t a, uint32_t b) { return {(a & b) ? 0 : order(a, b), a | b}; }
inline SB dot(Alg const& A, uint32_t a, uint32_t b)
{
    if (!a || !b)
        return {0, 0};
    SB g = gp(A, a, b);
    if (grade(g.b) != std::abs(grade(a) - grade(b)))
        g.s = 0;
    return g;
}
// the dual coordinate map of P(R*_{3,0,1}): right complement up to grade 2,
// and its own inverse
inline SB dual(uint32_t a)
{
    uint32_t c = 15 & ~a;
    return {grade(a) <= 2 ? order(a, c) : order(c, a), c};
}
inline SB reg(Alg const& A, uint32_t a, uint32_t b)
{
    SB x = dual(a), y = dual(b), z = ext(A, x.b, y.b), w = dual(z.b);
    return {x.s * y.s * z.s * w.s, w.b};
}
inline bool rev_neg(uint32_t a) { return (grade(a) * (grade(a) - 1) / 2) & 1; }

inline MV add(MV a, MV const& b, bool minus = false)
{
    for (auto& kv : b)
        a[kv.first] = add(a[kv.first], minus ? neg(kv.second) : kv.second);
    return a;
}
inline MV neg(MV a)
{
    for (auto& kv : a)
        kv.second = neg(kv.second);
    return a;
}
inline MV rev(MV a)
{
    for (auto& kv : a)
        if (rev_neg(kv.first))
            kv.second = neg(kv.second);
    return a;
}
inline MV prod(Alg const& A, MV const& a, MV const& b, char op)
{
    MV r;
    for (auto& x : a)
        for (auto& y : b)
        {
            SB s = op == '*' ? gp(A, x.first, y.first) : op == '^' ? ext(A, x.first, y.first) : op == '|' ? dot(A, x.first, y.first) : reg(A, x.first, y.first);
            if (!s.s)
                continue;
            Poly p = mul(x.second, y.second);
            r[s.b] = add(r[s.b], s.s < 0 ? neg(p) : p);
        }
    return r;
}

// ------------------------------------------------------------ the grammar
// sum := prod {("+"|"-") prod};  prod := wedge {"*" wedge};
// wedge := vee {"^" vee};        vee := dot {"&" dot};
// dot := factor {"|" factor};
// factor := {"+"|"-"|"~"} (name [blade] | number [blade] | blade | "(" sum ")")
struct Parser
{
    std::string const& s;
    Alg A;
    size_t i  = 0;
    int depth = 0;
    bool vague = false; // a construct the documentation leaves open was met

    Parser(std::string const& str, Alg a) : s(str), A(a) {}
    int peek()
    {
        while (i < s.size() && std::isspace((unsigned char)s[i]))
            ++i;
        return i < s.size() && s[i] != '\0' ? (unsigned char)s[i] : -1;
    }
    bool dig(size_t k) const { return k < s.size() && s[k] >= '0' && s[k] <= '9'; }
    bool alpha(size_t k) const { return k < s.size() && ((s[k] >= 'a' && s[k] <= 'z') || (s[k] >= 'A' && s[k] <= 'Z')); }
    bool at_blade() { return peek() == 'e' && dig(i + 1); }
    SB blade()
    {
        ++i;
        std::vector<int> ix;
        for (; dig(i); ++i)
            ix.push_back(s[i] - '0');
        int sign    = 1;
        uint32_t b = 0;
        for (size_t k = 0; k != ix.size(); ++k)
        {
            if (ix[k] >= A.dim())
                throw Reject{"index"};
            if (b >> ix[k] & 1)
                throw Reject{"duplicate index"};
            for (size_t j = 0; j != k; ++j)
                if (ix[j] > ix[k])
                    sign = -sign;
            b |= 1u << ix[k];
        }
        return {sign, b};
    }
    // the whole input is tokenized before it is parsed, so a bad token anywhere
    // is an error
    void scan_tokens()
    {
        size_t save = i;
        int c;
        while ((c = peek()) != -1)
        {
            if (c == '(' || c == ')' || c == '+' || c == '-' || c == '~' || c == '*' || c == '^' || c == '&' || c == '|')
                ++i;
            else if (dig(i))
                number();
            else if (at_blade())
                blade();
            else if (alpha(i))
                while (alpha(i) || dig(i))
                    ++i;
            else
                throw Reject{"character"};
        }
        i = save;
    }
    double number()
    {
        size_t b = i;
        int dots = 0;
        while (dig(i) || (i < s.size() && s[i] == '.'))
            dots += s[i++] == '.';
        if (dots > 1)
            throw Reject{"number"};
        if (i - b > 32)
            throw Reject{"long number"};
        if (i - b > 24)
            vague = true;
        return (double)std::strtof(s.substr(b, i - b).c_str(), nullptr);
    }
    MV factor()
    {
        bool n = false, r = false;
        int c;
        while ((c = peek()) == '+' || c == '-' || c == '~')
        {
            n ^= c == '-';
            r ^= c == '~';
            ++i;
        }
        MV out;
        if (c == -1)
            throw Reject{"end"};
        if (c == '(')
        {
            if (++depth > 900)
                vague = true;
            if (depth > 1000)
                throw Reject{"nesting"};
            ++i;
            out = sum();
            if (peek() != ')')
                throw Reject{")"};
            ++i;
            --depth;
        }
        else if (at_blade())
        {
            SB b = blade();
            out[b.b][Mon{}] = Co{(double)b.s, 1};
        }
        else if (dig(i) || alpha(i))
        {
            Co co{1, 1};
            Mon m;
            if (dig(i))
                co.v = co.m = number();
            else
            {
                std::string nm;
                while (alpha(i) || dig(i))
                    nm += s[i++];
                m[nm] = 1;
            }
            uint32_t e = 0;
            if (at_blade())
            {
                SB b = blade();
                e    = b.b;
                co.v *= b.s;
            }
            out[e][m] = co;
        }
        else
            throw Reject{"factor"};
        if (r)
            out = rev(out);
        return n ? neg(out) : out;
    }
    MV level(int k)
    {
        static const char ops[] = "|&^*";
        if (k < 0)
            return factor();
        MV a = level(k - 1);
        while (peek() == ops[k])
        {
            ++i;
            MV b = level(k - 1);
            a = prod(A, a, b, ops[k]);
        }
        return a;
    }
    MV sum()
    {
        MV a = level(3);
        for (int c; (c = peek()) == '+' || c == '-';)
        {
            ++i;
            MV b = level(3);
            a = add(a, b, c == '-');
        }
        return a;
    }
    MV all()
    {
        scan_tokens();
        MV a = sum();
        if (peek() != -1)
            throw Reject{"trailing"};
        return a;
    }
};

// ------------------------------------------------------- the printed form
struct Reader
{
    std::string const& s;
    size_t i = 0;
    explicit Reader(std::string const& x) : s(x) {}
    void ws()
    {
        while (i < s.size() && s[i] == ' ')
            ++i;
    }
    bool at(char c)
    {
        ws();
        return i < s.size() && s[i] == c;
    }
    bool dig(size_t k) const { return k < s.size() && s[k] >= '0' && s[k] <= '9'; }
    bool alpha(size_t k) const { return k < s.size() && std::isalpha((unsigned char)s[k]); }
    bool blade_at()
    {
        ws();
        return i < s.size() && s[i] == 'e' && dig(i + 1);
    }
    bool mono(Poly& p)
    {
        ws();
        Co c{1, 1};
        bool any = false, negv = false;
        if (at('-'))
        {
            negv = true;
            ++i;
            ws();
        }
        if (dig(i))
        {
            size_t b = i;
            while (dig(i) || (i < s.size() && s[i] == '.'))
                ++i;
            if (i + 2 < s.size() && s[i] == 'e' && (s[i + 1] == '+' || s[i + 1] == '-') && dig(i + 2))
                for (i += 2; dig(i);)
                    ++i;
            c.v = c.m = std::strtod(s.substr(b, i - b).c_str(), nullptr);
            any = true;
        }
        Mon m;
        for (;;)
        {
            if (blade_at() || !alpha(i))
                break;
            std::string n;
            while (alpha(i) || dig(i))
                n += s[i++];
            int d = 1;
            if (i < s.size() && s[i] == '^')
            {
                ++i;
                bool dn = i < s.size() && s[i] == '-';
                i += dn;
                d = 0;
                if (!dig(i))
                    return false;
                while (dig(i))
                    d = d * 10 + (s[i++] - '0');
                d = dn ? -d : d;
            }
            m = mul(m, Mon{{n, d}});
            any = true;
        }
        if (!any && !blade_at())
            return false;
        if (negv)
            c.v = -c.v;
        add(p, m, c);
        return true;
    }
    bool read(MV& out)
    {
        for (;;)
        {
            Poly p;
            if (at('('))
            {
                ++i;
                for (;;)
                {
                    if (!mono(p))
                        return false;
                    if (at('+'))
                    {
                        ++i;
                        continue;
                    }
                    break;
                }
                if (!at(')'))
                    return false;
                ++i;
            }
            else if (!mono(p))
                return false;
            uint32_t b = 0;
            int sg = 1;
            if (blade_at())
            {
                ++i;
                std::vector<int> ix;
                for (; dig(i); ++i)
                {
                    int d = s[i] - '0';
                    if (b >> d & 1)
                        return false;
                    for (int x : ix)
                        if (x > d)
                            sg = -sg;
                    ix.push_back(d);
                    b |= 1u << d;
                }
            }
            out[b] = add(out[b], sg < 0 ? neg(p) : p);
            if (at('+'))
            {
                ++i;
                continue;
            }
            ws();
            return i == s.size();
        }
    }
};

// ------------------------------------------------------------- comparison
inline std::string show(MV const& a)
{
    std::string o;
    char b[64];
    for (auto& kv : a)
        for (auto& t : kv.second)
        {
            snprintf(b, sizeof b, "%s%.9g", o.empty() ? "" : " + ", t.second.v);
            o += b;
            for (auto& f : t.first)
            {
                o += " " + f.first;
                if (f.second != 1)
                    o += "^" + std::to_string(f.second);
            }
            if (kv.first)
            {
                o += " e";
                for (int i = 0; i != 32; ++i)
                    if (kv.first >> i & 1)
                        o += i < 10 ? std::string(1, (char)('0' + i)) : "<" + std::to_string(i) + ">";
            }
        }
    return o.empty() ? "0" : o;
}
// exact when every partial sum is a multiple of `grid` below 2^24 grid units
inline bool close(Co want, double got, double grid, double rel)
{
    if (!(want.m < 1e30) || (want.m != 0 && want.m < 1e-30))
        return true;
    double tol = want.m <= grid * 16777216.0 ? 0 : 2e-5 * want.m;
    return std::fabs(got - want.v) <= tol + rel * std::fabs(want.v);
}
inline std::string diff(MV const& got, MV const& want, double grid, double rel = 0)
{
    for (auto const* side : {&got, &want})
        for (auto& kv : *side)
            for (auto& t : kv.second)
            {
                Co w, g;
                auto k = want.find(kv.first);
                if (k != want.end())
                {
                    auto q = k->second.find(t.first);
                    if (q != k->second.end())
                        w = q->second;
                }
                auto k2 = got.find(kv.first);
                if (k2 != got.end())
                {
                    auto q = k2->second.find(t.first);
                    if (q != k2->second.end())
                        g = q->second;
                }
                if (!close(w, g.v, grid, rel))
                {
                    MV one;
                    one[kv.first][t.first] = Co{g.v, 1};
                    MV two;
                    two[kv.first][t.first] = Co{w.v, 1};
                    return "has " + show(one) + " where " + show(two) + " is expected; result " + show(got).substr(0, 300) + ", expected " + show(want).substr(0, 300);
                }
            }
    return "";
}
} // namespace sref
