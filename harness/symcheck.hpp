// Calls into /repo/sym, shared by the driver and the coverage-guided target.
#pragma once
#include "symref.hpp"
#include "ga.hpp"
#include "parser.hpp"
#include "poly.hpp"

namespace symchk
{
inline sref::MV from(mv const& x)
{
    sref::MV r;
    for (auto& kv : x.terms)
        for (auto& t : kv.second.terms)
            if (t.second != 0.f)
                r[kv.first][t.first.factors] = sref::Co{t.second, std::fabs(t.second)};
    return r;
}
inline sref::Poly from(poly const& p)
{
    sref::Poly r;
    for (auto& t : p.terms)
        if (t.second != 0.f)
            r[t.first.factors] = sref::Co{t.second, std::fabs(t.second)};
    return r;
}
enum Verdict
{
    VALUE,
    REJECT,
    ANY,    // the documentation leaves it open; still no crash
    SKIP    // the value has too many terms to compute
};
inline Verdict reference(std::string const& s, sref::Alg A, sref::MV& out, std::string& why, long budget = 20000)
{
    sref::g_work = budget;
    sref::Parser p(s, A);
    try
    {
        out = p.all();
        return p.vague ? ANY : VALUE;
    }
    catch (sref::Reject const& r)
    {
        why = r.why;
        return p.vague ? ANY : REJECT;
    }
    catch (sref::TooBig const&)
    {
        return SKIP;
    }
}
inline std::string quote(std::string const& s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s)
        if (c < 32 || c > 126 || c == '"' || c == '\\')
        {
            snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        }
        else
            o += (char)c;
    if (o.size() > 400)
        o = o.substr(0, 400) + "...(" + std::to_string(s.size()) + " bytes)";
    return o + "\"";
}
// One line against the reference; returns the mismatch or "".
// `call` wraps the library call.
template <class Call> inline std::string line(std::string const& s, sref::Alg A, algebra const& a, Call&& call, Verdict* vd = nullptr, sref::MV* val = nullptr)
{
    sref::MV want;
    std::string why;
    Verdict v = reference(s, A, want, why);
    if (vd)
        *vd = v;
    if (v == SKIP)
        return "";
    sref::MV got;
    bool threw = false;
    std::string err = call([&] {
        try
        {
            mv r = parse(s, a);
            got  = from(r);
        }
        catch (std::runtime_error const&)
        {
            threw = true;
        }
    });
    if (!err.empty())
        return err + " on input " + quote(s);
    if (v == ANY)
        return "";
    if (v == REJECT)
        return threw ? "" : "input " + quote(s) + " is malformed (" + why + ") but is given the value " + sref::show(got).substr(0, 300);
    if (threw)
        return "input " + quote(s) + " is rejected; its value is " + sref::show(want).substr(0, 300);
    if (val)
        *val = want;
    std::string d = sref::diff(got, want, s.find('.') == std::string::npos ? 1 : 0);
    return d.empty() ? "" : "value of " + quote(s) + " " + d;
}
} // namespace symchk
