// Random values shared by the harnesses.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <iterator>
#include <random>
#include <string>
#include <vector>

struct Rng {
    std::mt19937_64 e;
    std::uint64_t operator()(std::uint64_t n) { return n ? e() % n : 0; }
    bool coin() { return e() & 1; }
};

namespace S {
// integers and strings occurring in the code under test (file named by RRV_DICT), so that special cases are hit
struct Dict {
    std::vector<std::int64_t> ints;
    std::vector<std::string> strs;
    Dict()
    {
        const char *p = std::getenv("RRV_DICT");
        if (!p) return;
        std::ifstream f(p);
        std::string k, v;
        while (f >> k >> v) {
            if (k == "i") ints.push_back(static_cast<std::int64_t>(std::strtoull(v.c_str(), nullptr, 10)));
            else {
                std::string s;
                for (std::size_t i = 1; i + 1 < v.size(); i += 2) s += static_cast<char>(std::stoi(v.substr(i, 2), nullptr, 16));
                strs.push_back(s);
            }
        }
    }
};
inline const Dict &dict()
{
    static const Dict d;
    return d;
}
inline std::int64_t dictInt(Rng &r) { return static_cast<std::int64_t>(static_cast<std::uint64_t>(dict().ints[r(dict().ints.size())]) + r(3) - 1); }
inline std::size_t genSize(Rng &r, int d)
{
    if (d <= 0) return 0;
    if (d >= 2 && !r(48)) {
        if (!dict().ints.empty() && r.coin()) {
            auto n = dictInt(r);
            if (n >= 0 && n < 2000) return static_cast<std::size_t>(n);
            if (n >= 0 && n < 70000 && !r(30)) return static_cast<std::size_t>(n);
        }
        return r(r.coin() ? 20 : 300);
    }
    return r(4);
}
inline std::string genStr(Rng &r)
{
    if (!r(8)) {
        if (!dict().strs.empty() && r.coin()) return dict().strs[r(dict().strs.size())] + (r(3) ? "" : "x");
        return std::string(genSize(r, 2), static_cast<char>(r(256)));
    }
    static const std::vector<std::string> pool{ "", "a", "index", "data", std::string("x\0y", 3), std::string("\0", 1), "key", "n", "s", "l", "äöü", "\"\\\n", "name" };
    return r(4) ? pool[r(pool.size())] : std::string(r(20), static_cast<char>('a' + r(26)));
}
inline double genDbl(Rng &r)
{
    if (!dict().ints.empty() && !r(8)) return static_cast<double>(dictInt(r)) + (r.coin() ? 0.0 : 0.5);
    static const double pool[] = { 0.0, -0.0, 1.0, -1.0, 1.5, -1.5, 0.1, 127.0, 128.0, -128.9, -129.0, 255.0, 255.9, 256.0, 2147483647.0, 2147483648.0, -2147483648.0,
        -2147483649.0, 4294967295.0, 4294967296.0, 9223372036854775807.0, -9223372036854775808.0, 18446744073709551616.0, 1e19, 1e20, -1e20, 1e300, -1e300, 3.4e38, 3.5e38, -3.5e38,
        1e-40, 5e-324, 1.7976931348623157e308, 9007199254740993.0 };
    return r(3) ? pool[r(std::size(pool))] : static_cast<double>(static_cast<std::int64_t>(r.e())) / 1024.0;
}
inline std::int64_t genI64(Rng &r)
{
    if (!dict().ints.empty() && !r(8)) return static_cast<std::int64_t>((r.coin() ? 1ull : ~0ull) * static_cast<std::uint64_t>(dictInt(r)));
    static const std::int64_t pool[] = { 0, 1, -1, 2, 3, 7, 127, 128, -128, -129, 255, 256, 65535, INT32_MAX, INT32_MIN, static_cast<std::int64_t>(INT32_MAX) + 1,
        static_cast<std::int64_t>(INT32_MIN) - 1, UINT32_MAX, static_cast<std::int64_t>(UINT32_MAX) + 1, INT64_MAX, INT64_MIN };
    return r(3) ? pool[r(std::size(pool))] : static_cast<std::int64_t>(r.e()) >> r(64);
}
}
