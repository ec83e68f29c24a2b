// Large registries: many items, long and similar names, deep nesting (C16, C18, C19).
#pragma once
#include <pbt.hpp>
#include <array>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <utility>
#include <rtti/metadefine.h>
#include <rtti/metanamespace.h>
#include <rtti/metaclass.h>
#include <rtti/metaenum.h>
#include <rtti/variant.h>

namespace vol {
using namespace rtti;
// names which share prefixes, differ in one place only, or are long
struct Names {
    std::string family; std::vector<std::string> all;
    static std::string nth(int style, size_t i)
    {
        auto s = std::to_string(i);
        switch (style) {
        case 0: return "item" + s;
        case 1: return s + "_item";
        case 2: return std::string(i % 70 + 1, 'n') + s;
        case 3: return std::string(120, 'p') + s + std::string(120, 'q');
        case 4: { std::string r; for (size_t k = i + 1; k; k /= 7) r += "aAbBcC_"[k % 7]; return r; }
        default: { std::string r(1, (char)('a' + i % 26)); for (size_t k = 0; k < i / 26; ++k) r += (char)('a' + (i + k) % 26); return r.substr(0, 60) + s; }
        }
    }
};
// open the namespace with this path and hand it to f
template<int D, class Def, class F> void at(Def d, std::vector<std::string> const &path, size_t i, F &&f)
{
    if (i == path.size()) { f(d); return; }
    if constexpr (D > 0) { auto x = d._namespace(path[i]); at<D - 1>(x, path, i + 1, f); }
}
template<class F> void open(std::vector<std::string> const &path, F &&f) { auto g = global_define(); at<8>(static_cast<meta_define<void>>(g), path, 0, f); }
inline std::string shown(std::string const &s) { return s.size() > 40 ? s.substr(0, 16) + "..." + s.substr(s.size() - 12) + " (" + std::to_string(s.size()) + ")" : s; }
} // namespace vol
