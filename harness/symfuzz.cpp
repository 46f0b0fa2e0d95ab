// Coverage-guided search over input lines (libFuzzer, ASan, UBSan): every line
// must be answered as the reference answers it.
#include "symcheck.hpp"
#include <cstdio>
#include <cstdlib>
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
    static const algebra a{3, 0, 1};
    std::string line((const char*)d, n);
    std::string e = symchk::line(line, sref::PGA, a, [](auto&& f) {
        f();
        return std::string();
    });
    if (!e.empty())
    {
        fprintf(stderr, "MISMATCH: %s\n", e.c_str());
        abort();
    }
    return 0;
}
