// The numbers shown in a text.
#pragma once
#include "explore.hpp"
using ex::fail; using ex::fmt;
typedef std::vector<std::string> Lines;
static Lines lines(const std::string& s) { Lines v; size_t p = 0; while (p < s.size()) { size_t q = s.find('\n', p); if (q == std::string::npos) q = s.size(); v.push_back(s.substr(p, q - p)); p = q + 1; } return v; }
// the numbers of a text, with the digits after the point
struct Num { double v; int dec; std::string t; };
static std::vector<Num> numbers(const std::string& s) {
    std::vector<Num> o; size_t i = 0;
    while (i < s.size()) { size_t j = i; if (s[j] == '-') j++; bool word = i > 0 && (isalnum((unsigned char)s[i - 1]) || s[i - 1] == '_');
        if (!word && s.compare(j, 3, "inf") == 0) { o.push_back({s[i] == '-' ? -INFINITY : INFINITY, 0, "inf"}); i = j + 3; continue; }
        if (!word && s.compare(j, 3, "nan") == 0) { o.push_back({NAN, 0, "nan"}); i = j + 3; continue; }
        if (j < s.size() && isdigit((unsigned char)s[j]) && !word) { size_t e = j; while (e < s.size() && isdigit((unsigned char)s[e])) e++; int dec = 0; if (e + 1 < s.size() && s[e] == '.' && isdigit((unsigned char)s[e + 1])) { size_t d = ++e; while (e < s.size() && isdigit((unsigned char)s[e])) e++; dec = (int)(e - d); }
            if (e < s.size() && (s[e] == 'e' || s[e] == 'E') && e + 1 < s.size() && (isdigit((unsigned char)s[e + 1]) || ((s[e + 1] == '+' || s[e + 1] == '-') && e + 2 < s.size() && isdigit((unsigned char)s[e + 2])))) { e += 2; while (e < s.size() && isdigit((unsigned char)s[e])) e++; dec = 5; }
            std::string t = s.substr(i, e - i); o.push_back({strtod(t.c_str(), nullptr), dec, t}); i = e; continue; }
        i++; }
    return o;
}
static bool shows(const Num& n, double v) { if (std::isnan(v) || std::isinf(v)) return (std::isnan(v) && std::isnan(n.v)) || n.v == v; return std::fabs(n.v - v) <= 0.51 * std::pow(10, -n.dec) + 1e-9 * std::fabs(v); }
static void expect(const std::vector<Num>& g, const std::vector<double>& e, const std::string& what) {
    for (size_t i = 0; i < g.size() && i < e.size(); i++) if (!shows(g[i], e[i])) fail("%s: %s is shown where %.17g is stored (number %zu)", what.c_str(), g[i].t.substr(0, 60).c_str(), e[i], i);
    if (g.size() != e.size()) fail("%s: %zu numbers are shown, expected %zu", what.c_str(), g.size(), e.size());
}
