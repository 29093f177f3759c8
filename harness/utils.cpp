// C24 prime helpers, C25 comparators, hashes, sizes.
#include "explore.hpp"
#include "values.hpp"
#include <climits>
#include <cfloat>
extern "C" {
#include "collections/primes.h"
#include "collections/hashtable.h"
#include "hdbscan/utils.h"
}
using ex::Ctx; using ex::Family; using ex::fail; using ex::fmt;
#ifndef PROP
#define PROP 24
#endif
static bool is_prime(long n) { if (n < 2) return false; for (long d = 2; d * d <= n; d++) if (n % d == 0) return false; return true; }
static long prime_below(long x) { for (long k = x - 1; k >= 3; k--) if (is_prime(k)) return k; return 3; }
static const long TAB = 1217;      // the largest prime the table of the pinned commit holds

static void prime_families(std::vector<Family>& v, bool th) {
    { Family f; long hi = th ? 2000000 : 200000; f.name = fmt("find_prime_less_than(-5..%ld)", hi); f.count = (uint64_t)(hi + 6) / 100 + 1;
      f.run = [=](Ctx& c, uint64_t i) { for (long x = (long)i * 100 - 5; x < (long)i * 100 + 95 && x <= hi; x++) {
            int32_t r = find_prime_less_than((int32_t)x);
            if (x <= 3) { if (r != 3) fail("find_prime_less_than(%ld) = %d, not 3", x, r); }
            else if (x <= TAB) { if (r != prime_below(x)) fail("find_prime_less_than(%ld) = %d, not %ld", x, r, prime_below(x)); }
            else if (r < TAB || r >= x || !is_prime(r)) fail("find_prime_less_than(%ld) = %d", x, r);
            c.state((uint64_t)r); c.trans(); } c.trace(); };
      f.desc = [](uint64_t i) { return fmt("arguments from %ld", (long)i * 100 - 5); }; v.push_back(f); }
    { Family f; f.name = "find_prime_less_than at extremes"; f.count = 64;
      f.run = [=](Ctx& c, uint64_t i) { long x = i < 31 ? (1L << i) : i < 62 ? -(1L << (i - 31)) : i == 62 ? INT_MAX : INT_MIN; for (long d = -3; d <= 3; d++) { long y = x + d; if (y > INT_MAX || y < INT_MIN) continue; int32_t r = find_prime_less_than((int32_t)y);
            if (y <= 3 ? r != 3 : y <= TAB ? r != prime_below(y) : (r < TAB || r >= y || !is_prime(r))) fail("find_prime_less_than(%ld) = %d", y, r); c.trans(); } c.trace(); };
      f.desc = [](uint64_t i) { return fmt("extreme %lu", (unsigned long)i); }; v.push_back(f); }
    auto gp = [](Ctx& c, long lo, long hi) { long nxt = LONG_MIN; for (long x = lo; x <= hi; x++) { if (nxt <= x) { nxt = x < 2 ? 2 : x + 1; while (!is_prime(nxt)) nxt++; } int32_t r = get_prime((int32_t)x); if (r != nxt) fail("get_prime(%ld) = %d, the next prime is %ld", x, r, nxt); c.trans(); c.state((uint64_t)r ^ 1UL << 40); } c.trace(); };
    { Family f; long hi = th ? 1000000 : 100000; f.name = fmt("get_prime(-1000..%ld)", hi); f.count = (uint64_t)(hi + 1000) / 200;
      f.run = [=](Ctx& c, uint64_t i) { gp(c, (long)i * 200 - 1000, (long)i * 200 - 801); };
      f.desc = [](uint64_t i) { return fmt("arguments from %ld", (long)i * 200 - 1000); }; v.push_back(f); }
    { Family f; f.name = "get_prime around powers of two, prime squares and the largest 32-bit values"; std::vector<long> at; for (int b = 17; b < 31; b++) at.push_back(1L << b); for (long p : {331L, 331L * 331, 1009L * 1009, 10007L * 10007, 46337L * 46337, 46339L * 46339, 46327L * 46337}) at.push_back(p); at.push_back(INT_MAX - 1); at.push_back(INT_MIN + 20); f.count = at.size();
      f.run = [=](Ctx& c, uint64_t i) { long lo = at[i] - (th ? 200 : 20), hi = at[i] + (th ? 200 : 20); if (lo < INT_MIN) lo = INT_MIN; if (hi > INT_MAX - 1) hi = INT_MAX - 1; gp(c, lo, hi); };
      f.desc = [=](uint64_t i) { return fmt("arguments around %ld", at[i]); }; v.push_back(f); }
}

// ---- comparators over all pairs and triples of boundary values
typedef int32_t (*Cmp)(const void*, const void*);
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
template <class T> static void cmp_fam(std::vector<Family>& out, const char* name, std::vector<T> v, Cmp f, Cmp pf) {
    Family F; F.name = fmt("%s: all pairs and triples of %zu boundary values", name, v.size()); F.count = v.size();
    F.run = [=](Ctx& c, uint64_t i) {
        T a = v[i];
        for (T b : v) {
            T x = a, y = b; T *px = &x, *py = &y; int e = a < b ? -1 : a > b, r = sgn(f(&x, &y)), q = sgn(f(&y, &x));
            if (r != e || q != -e) fail("%s_compare(%.20Lg, %.20Lg) has sign %d, reversed %d", name, (long double)a, (long double)b, r, q);
            if (pf) { r = sgn(pf(&px, &py)); q = sgn(pf(&py, &px)); if (r != e || q != -e) fail("%s_ptr_compare(%.20Lg, %.20Lg) has sign %d, reversed %d", name, (long double)a, (long double)b, r, q);
                if (pf(&px, &px) != 0) fail("%s_ptr_compare is not reflexive", name); }
            if (f(&x, &x) != 0) fail("%s_compare is not reflexive", name);
            for (T d : v) { T z = d; if (f(&x, &y) <= 0 && f(&y, &z) <= 0 && f(&x, &z) > 0) fail("%s_compare is not transitive", name); c.trans(); }
            c.state(ex::hbytes(&x, sizeof x, ex::hbytes(&y, sizeof y, ex::hbytes(name, strlen(name)))));
        }
        c.trace(); };
    F.desc = [=](uint64_t i) { return fmt("%s value %.20Lg against all", name, (long double)v[i]); };
    out.push_back(F);
}
template <class T> static void hash_fam(std::vector<Family>& out, const char* name, std::vector<T> v, size_t (*h)(void*, size_t), bool th) {
    Family F; size_t nb = th ? 5000 : 1300; F.name = fmt("%s_hash: %zu boundary values x bucket counts 1..%zu and extremes", name, v.size(), nb); F.count = v.size();
    F.run = [=](Ctx& c, uint64_t i) {
        std::vector<size_t> B; for (size_t b = 1; b <= nb; b++) B.push_back(b); for (int s = 11; s < 64; s++) { B.push_back(1UL << s); B.push_back((1UL << s) + 1); B.push_back((1UL << s) - 1); } B.push_back(SIZE_MAX);
        T* p = (T*)malloc(sizeof(T)); T* q = (T*)malloc(sizeof(T) * 3) + 1; *p = v[i];
        for (size_t b : B) { size_t r = h(p, b); if (r >= b) fail("%s_hash(%.20Lg, %zu) = %zu", name, (long double)v[i], b, r);
            for (T w : v) if (w == v[i]) { *q = w; size_t r2 = h(q, b); if (r2 != r) fail("equal %s keys %.20Lg hash to %zu and %zu of %zu buckets", name, (long double)w, r, r2, b); c.trans(); }
            c.state(ex::mix(r, b)); }
        free(p); free(q - 1); c.trace(); };
    F.desc = [=](uint64_t i) { return fmt("%s key %.20Lg", name, (long double)v[i]); };
    out.push_back(F);
}
static void util_families(std::vector<Family>& v, bool th) {
    auto I = ints<int32_t>(); auto L = ints<long>(); auto S = ints<short>(); auto C = ints<char>(); auto D = reals<double>(); auto Fl = reals<float>();
    std::vector<char> allc; for (int k = -128; k < 128; k++) allc.push_back((char)k); C = allc;
    cmp_fam<int32_t>(v, "int", I, int_compare, int_ptr_compare); cmp_fam<long>(v, "long", L, long_compare, long_ptr_compare); cmp_fam<short>(v, "short", S, short_compare, short_ptr_compare);
    cmp_fam<char>(v, "char", C, char_compare, char_ptr_compare); cmp_fam<double>(v, "double", D, double_compare, double_ptr_compare); cmp_fam<float>(v, "float", Fl, float_compare, float_ptr_compare);
    { std::vector<unsigned long> P; for (int b = 0; b < 64; b++) { P.push_back(1UL << b); P.push_back((1UL << b) - 1); } P.push_back(~0UL); P.push_back(~0UL - 1); cmp_fam<unsigned long>(v, "ptr", P, ptr_compare, NULL); }
    if (th) { std::vector<short> alls; for (int k = -32768; k < 32768; k += 17) alls.push_back((short)k); for (int k = 0; k < 20; k++) alls.push_back((short)(32767 - k)); cmp_fam<short>(v, "short", std::vector<short>(alls.begin(), alls.begin() + 900), short_compare, short_ptr_compare); }
    { // every pair of shorts near and far, through the sign only
      Family F; F.name = "short: all 65536 values against 64 values"; F.count = 64; F.run = [=](Ctx& c, uint64_t i) { short a = (short)(i * 1049 - 32768); for (int k = -32768; k < 32768; k++) { short b = (short)k; int e = a < b ? -1 : a > b; if (sgn(short_compare(&a, &b)) != e || sgn(short_compare(&b, &a)) != -e) fail("short_compare(%d, %d) has the wrong sign", a, b); short *p = &a, *q = &b; if (sgn(short_ptr_compare(&p, &q)) != e) fail("short_ptr_compare(%d, %d) has the wrong sign", a, b); } c.trans(65536); c.trace(); }; F.desc = [](uint64_t i) { return fmt("short value %ld", (long)(i * 1049) - 32768); }; v.push_back(F); }
    hash_fam<int32_t>(v, "int", I, int_hash, th); hash_fam<long>(v, "long", L, long_hash, th); hash_fam<short>(v, "short", S, short_hash, th); hash_fam<char>(v, "char", C, char_hash, th); hash_fam<double>(v, "double", D, double_hash, th); hash_fam<float>(v, "float", Fl, float_hash, th);
    { Family F; static const unsigned char A[] = {'a', 'z', 1, 0x7f, 0x80, 0xff}; F.name = "str_hash: all strings of length 0..4 over 6 bytes, and long ones"; F.count = 1 + 6 + 36 + 216 + 1296 + 64;
      auto mk = [=](uint64_t i) { std::string s; uint64_t n = 0, p = 1; for (n = 0; n <= 4; n++) { if (i < p) break; i -= p; p *= 6; } if (n <= 4) { for (uint64_t k = 0; k < n; k++) { s += (char)A[i % 6]; i /= 6; } } else for (uint64_t k = 0; k < 8 + i * 5; k++) s += (char)(1 + (k * 37 + i * 11) % 255); return s; };
      F.run = [=](Ctx& c, uint64_t i) { std::string s = mk(i); for (size_t off = 0; off < 4; off++) { char* m = (char*)malloc(s.size() + 1 + off); memcpy(m + off, s.c_str(), s.size() + 1); char* m2 = strdup(s.c_str());
            for (size_t b : {(size_t)1, (size_t)2, (size_t)3, (size_t)37, (size_t)101, (size_t)1217, (size_t)1 << 20, (size_t)1 << 40}) { size_t r = str_hash(m + off, b), q = str_hash(m2, b); if (r >= b || r != q) fail("equal strings hash to %zu and %zu of %zu buckets", r, q, b); c.trans(); c.state(ex::mix(r, b)); }
            if (strcmp(m + off, s.c_str())) fail("str_hash changed its key"); free(m); free(m2); } c.trace(); };
      F.desc = [=](uint64_t i) { std::string s = mk(i), h; for (unsigned char ch : s) h += fmt("%02x ", ch); return "bytes " + h; }; v.push_back(F); }
    { Family F; F.name = "type sizes"; F.count = 8; F.run = [](Ctx& c, uint64_t i) { static const size_t E[] = {sizeof(int32_t), sizeof(double), sizeof(float), sizeof(long), sizeof(short), sizeof(char), sizeof(char*), sizeof(void*)}; static const int T[] = {H_INT, H_DOUBLE, H_FLOAT, H_LONG, H_SHORT, H_CHAR, H_STRING, H_PTR}; if (get_htype_size((HTYPES)T[i]) != E[i]) fail("type %d has size %zu, not %zu", T[i], get_htype_size((HTYPES)T[i]), E[i]); c.trans(); c.trace(); }; F.desc = [](uint64_t i) { return fmt("type %lu", (unsigned long)i); }; v.push_back(F); }
    { Family F; F.name = "highestPowerof2: 1..65536 and around all powers of two up to 2^62"; F.count = 65536 + 62; F.run = [](Ctx& c, uint64_t i) { auto chk = [&](size_t n) { size_t r = highestPowerof2(n); if (r <= n || (r & (r - 1))) fail("highestPowerof2(%zu) = %zu", n, r); c.trans(); }; if (i < 65536) chk(i + 1); else { size_t p = 1UL << (i - 65536); for (size_t d = 0; d < 4; d++) { chk(p + d); if (p > d) chk(p - d); } chk(p + p / 2); } c.trace(); }; F.desc = [](uint64_t i) { return fmt("case %lu", (unsigned long)i); }; v.push_back(F); }
    { Family F; F.name = "hashtable_entry_compare orders by key"; F.count = I.size(); F.run = [=](Ctx& c, uint64_t i) { for (int32_t y : I) { int32_t x = I[i]; hashtable_entry a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); a.key = &x; b.key = &y; a.key_compare = b.key_compare = int_compare; hashtable_entry *p = &a, *q = &b; if (sgn(hashtable_entry_compare(&p, &q)) != (x < y ? -1 : x > y)) fail("entries %d and %d are misordered", x, y); c.trans(); } c.trace(); }; F.desc = [=](uint64_t i) { return fmt("key %d", I[i]); }; v.push_back(F); }
}
int main(int argc, char** argv) {
    return ex::main_(argc, argv, [](bool th) { std::vector<Family> v; if (PROP == 24) prime_families(v, th); else util_families(v, th); return v; });
}
