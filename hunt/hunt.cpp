// Looks for an input of the public interface that breaks a property, after a proof obligation has failed.
// usage: hunt <property> <seed> <seconds> <file with proposals> ; prints the failing input and exits with 3.
#include <cerrno>
#include <clocale>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <chrono>
#include <fstream>
#include <limits>
#include <random>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include <sys/time.h>
#include <boost/multiprecision/cpp_int.hpp>
#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
typedef boost::multiprecision::cpp_int Z;
using std::string; using std::vector;

static std::mt19937_64 R;
static char cur[40000];          // the input at hand, for the handlers
static string prop;
static vector<long> consts;      // integer constants of the compiled code
static vector<double> fconsts;   // floating point constants of it
static long someconst();
static uint64_t rnd() { return R(); }
static uint64_t rnd(uint64_t n) { return R() % n; }
static bool coin(unsigned n) { return R() % n == 0; }

static string quote(const string& s) {
    string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
template<typename C> static string narrow(const std::basic_string<C>& s) {
    string o;
    char b[16];
    for (C c : s) {
        if (c >= 32 && c < 127) o += char(c);
        else { snprintf(b, 16, "\\x%lx", (unsigned long)(typename std::make_unsigned<C>::type)c); o += b; }
    }
    return "\"" + o + "\"";
}

[[noreturn]] static void fail(const char* f, ...) {
    char b[20000];
    va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    printf("%s\n  input: %s\n", b, cur);
    fflush(stdout); _exit(3);
}
static void say(const char* s) { (void)!write(1, s, strlen(s)); }
static void handler(int sig) {
    say(sig == SIGALRM ? "call does not return" : sig == SIGABRT ? "call aborts (failed assertion)" : "call crashes");
    say("\n  input: "); say(cur); say("\n"); _exit(3);
}
#ifdef SAN
extern "C" void __sanitizer_set_death_callback(void (*)());
static void death() { say("undefined behaviour, invalid memory access or data race (see the sanitizer report)\n  input: "); say(cur); say("\n"); _exit(3); }
#endif
static void note(const string& s) { size_t n = std::min(s.size(), sizeof cur - 1); memcpy(cur, s.data(), n); cur[n] = 0; }

template<typename F> struct T;
template<> struct T<double> { typedef uint64_t U; static const int p = 53, emax = 1024, qmin = -1074, maxd = 17, W = 64; static const char* name() { return "double"; } static double ref(const char* s, char** e) { return strtod(s, e); } };
template<> struct T<float> { typedef uint32_t U; static const int p = 24, emax = 128, qmin = -149, maxd = 9, W = 32; static const char* name() { return "float"; } static float ref(const char* s, char** e) { return strtof(s, e); } };
template<typename F> static typename T<F>::U bits(F v) { typename T<F>::U u; memcpy(&u, &v, sizeof v); return u; }
template<typename F> static F fromb(typename T<F>::U u) { F v; memcpy(&v, &u, sizeof v); return v; }
template<typename F> static string show(F v) { char b[80]; snprintf(b, 80, "%a (bits 0x%llx)", double(v), (unsigned long long)bits(v)); return b; }

static Z p10(int n) { static vector<Z> t; while ((int)t.size() <= n) t.push_back(t.empty() ? Z(1) : t.back() * 10); return t[n]; }

// ------------------------------------------------------------------ values
template<typename F> static F value() {
    typedef typename T<F>::U U;
    const int mb = T<F>::p - 1, W = T<F>::W;
    const U sign = U(rnd(2)) << (W - 1), em = (U(1) << (W - 1 - mb)) - 1;
    U m = rnd() & ((U(1) << mb) - 1), e = rnd() & em;
    switch (rnd(14)) {
    case 12: if (!fconsts.empty()) {
        F v = F(fconsts[rnd(fconsts.size())]); U u; memcpy(&u, &v, sizeof u);
        u += U(rnd(5)) - 2; if (coin(2)) u ^= U(1) << (W - 1);
        memcpy(&v, &u, sizeof v); return v;
    } break;
    case 13: e = U(someconst() + T<F>::emax - 1 - int(rnd(2) ? rnd(2) * mb : rnd(2) * W)) & em; if (coin(2)) m = coin(2) ? m & ~(~U(0) >> 1 >> rnd(W)) : rnd(3); break;
    case 0: m = rnd(4); break;
    case 1: m = ((U(1) << mb) - 1) - rnd(4); break;
    case 2: e = rnd(3); break;
    case 3: e = 0; m = rnd() & ((U(1) << (1 + rnd(mb))) - 1); break;
    case 4: e = em - rnd(3); break;
    case 5: m = U(1) << rnd(mb); break;
    case 6: m = (U(1) << mb) - (U(1) << rnd(mb)); break;
    case 7: case 8: case 9: {         // decimal of few digits
        char b[64]; string d;
        int n = 1 + rnd(T<F>::maxd);
        for (int i = 0; i < n; ++i) d += char('0' + rnd(10));
        if (d[0] == '0') d[0] = '1';
        int x = coin(3) ? int(rnd(2 * T<F>::emax * 30103 / 100000 + 40)) - T<F>::emax * 30103 / 100000 - 20 : int(rnd(60)) - 30;
        snprintf(b, 64, "%s%se%d", coin(2) ? "-" : "", d.c_str(), x - n);
        return T<F>::ref(b, nullptr);
    }
    case 10: return F(int64_t(rnd() >> rnd(64))) * (coin(2) ? 1 : -1);
    }
    return fromb<F>(sign | (e << mb) | m);
}

struct Parsed { bool ok; string why; bool neg, sci; string digits; int K; };   // d_0...d_(n-1) 10^K
// the documented format
static Parsed text(const string& s) {
    Parsed r{}; size_t i = 0;
    auto bad = [&](const char* w) { r.ok = false; r.why = w; return r; };
    r.neg = i < s.size() && s[i] == '-'; i += r.neg;
    string a, b; bool dot = false;
    auto dig = [&](char c) { return c >= '0' && c <= '9'; };
    while (i < s.size() && dig(s[i])) a += s[i++];
    if (i < s.size() && s[i] == '.') { dot = true; ++i; while (i < s.size() && dig(s[i])) b += s[i++]; }
    if (a.empty() || (dot && b.empty())) return bad("digits are missing");
    if (a.size() > 1 && a[0] == '0') return bad("superfluous leading zero");
    if (!b.empty() && b.back() == '0') return bad("trailing zero of the fraction");
    int x = 0;
    if (i < s.size()) {
        r.sci = true;
        if (s[i++] != 'e') return bad("unexpected character");
        if (a.size() != 1 || a[0] == '0') return bad("one non-zero digit before the point is required in exponent notation");
        bool n = i < s.size() && s[i] == '-'; i += n;
        string e; while (i < s.size() && dig(s[i])) e += s[i++];
        if (i < s.size()) return bad("unexpected character");
        if (e.size() < 2 || e.size() > 3 || (e.size() == 3 && e[0] == '0')) return bad("exponent digits");
        x = atoi(e.c_str()); if (n && !x) return bad("negative zero exponent");
        if (n) x = -x;
    }
    r.digits = a + b; r.K = x - int(b.size());
    while (r.digits.size() > 1 && r.digits[0] == '0') r.digits.erase(0, 1);
    while (r.digits.size() > 1 && r.digits.back() == '0') { r.digits.pop_back(); ++r.K; }
    r.ok = true;
    return r;
}
// 2^q a  vs  d 10^K
static int cmp(const Z& a, int q, const Z& d, int K) {
    Z x = a, y = d;
    if (q > 0) x <<= q; else y <<= -q;
    if (K > 0) y *= p10(K); else x *= p10(-K);
    return x < y ? -1 : x > y;
}

template<typename F, typename C> static void back(F v, const C* buf, size_t n, const string& s) {
    C* end = nullptr;
    auto r = floaxie::atof<F>(buf, &end);
    if (std::isnan(v) ? !std::isnan(r.value) : !(r.value == v)) fail("\"%s\" is parsed as %s", s.c_str(), show(r.value).c_str());
    if (r.status != floaxie::conversion_status::success) fail("\"%s\": status is not success", s.c_str());
    if (end != buf + n) fail("\"%s\": %ld characters are consumed", s.c_str(), long(end - buf));
}
template<typename F> static void back(F, const char16_t*, size_t, const string&) {}
template<typename F> static void back(F, const char32_t*, size_t, const string&) {}

template<typename F, typename C> static void print(F v) {
    typedef typename T<F>::U U;
    const int mb = T<F>::p - 1;
    const size_t N = floaxie::max_buffer_size<F>();
    vector<C> mem(N);                                   // exact size for the address sanitizer
    std::basic_string<C> guard(N + 64, C('#'));
    C* buf = prop == "C03" && coin(2) ? mem.data() : &guard[32];
    note(string("print ") + T<F>::name() + " " + show(v) + (sizeof(C) == 1 ? " as char" : " as wide characters"));
    size_t len = floaxie::ftoa(v, buf);
    size_t n = 0; while (n < N && buf[n]) ++n;
    std::basic_string<C> t(buf, n);
    string s;
    for (C c : t) s += c > 0 && c < 127 ? char(c) : '\x01';
    bool all = prop == "C03";
    if (all) {
        for (size_t i = 0; i < 32; ++i) if (guard[i] != '#' || guard[32 + N + i] != '#') fail("characters outside of max_buffer_size() are written");
        if (n == N) fail("text is not terminated inside of max_buffer_size()");
        if (n != len) fail("returned length %zu, text \"%s\"", len, s.c_str());
    }
    const char* sp = std::isnan(v) ? "nan" : std::isinf(v) ? (v > 0 ? "inf" : "-inf") : v == 0 ? "0" : nullptr;
    if (prop == "C04") {
        if (sp ? s != sp || len != n : s == "nan" || s == "inf" || s == "-inf" || s == "0") fail("special value, or the text of one: \"%s\", length %zu", s.c_str(), len);
    }
    if (prop == "C13") {
        char b2[256]; size_t l2 = floaxie::ftoa(v, b2);
        if (l2 != len || s != b2) fail("wide text %s, narrow text \"%s\"", narrow(t).c_str(), b2);
    }
    if (prop == "C12") back<F>(v, (const C*)buf, n, s);
    if (sp) return;
    Parsed r = text(s);
    if (prop == "C02" && !r.ok) fail("printed \"%s\": %s", s.c_str(), r.why.c_str());
    if (!r.ok) { if (prop == "C01") fail("printed \"%s\" is not a decimal number", s.c_str()); return; }
    int nd = r.digits.size(), dot = nd + r.K;
    if (prop == "C02") {
        if (r.neg != (v < 0)) fail("printed \"%s\": sign", s.c_str());
        if (r.sci != (std::max(dot, -r.K) > 16)) fail("printed \"%s\": notation", s.c_str());
    }
    U b = bits(std::fabs(v));
    int E = b >> mb; U M = b & ((U(1) << mb) - 1);
    Z m = E ? M + (U(1) << mb) : M; int q = E ? E - 1 + T<F>::qmin : T<F>::qmin;
    Z D(r.digits);
    if (prop == "C01") {
        if (r.neg != (v < 0)) fail("printed \"%s\": sign", s.c_str());
        bool pw = E > 1 && !M;
        if (cmp(4 * m + 2, q - 2, D, r.K) <= 0 || cmp(4 * m - (pw ? 1 : 2), q - 2, D, r.K) >= 0) fail("printed \"%s\" is not strictly inside of the rounding interval", s.c_str());
    }
    if (prop == "C05") {
        if (nd > T<F>::maxd) fail("printed \"%s\": %d significant digits", s.c_str(), nd);
        if (E && nd > 1) {
            int mg = T<F>::W == 64 ? 60 : 28;
            // [lo (1 + 2^-mg), hi (1 - 2^-mg)] in units of 2^(q - 2 - mg - 1)
            Z lo = (4 * m - (M ? 2 : 1)) , hi = 4 * m + 2;
            Z l = (lo << (mg + 1)) + 2 * lo, h = (hi << (mg + 1)) - 2 * hi; int qq = q - 2 - mg - 1;
            // multiples of 10^(K+1): floor(h / 10^(K+1)) 10^(K+1) >= l ?
            Z num = h, den = 1;
            if (qq > 0) num <<= qq; else den <<= -qq;
            int K1 = r.K + 1;
            if (K1 > 0) den *= p10(K1); else num *= p10(-K1);
            Z f = num / den;
            if (f > 0 && cmp(l, qq, f, K1) <= 0) fail("printed \"%s\", but %se%d is shorter and well inside of the rounding interval", s.c_str(), f.str().c_str(), K1);
        }
    }
}
template<typename F, typename C> static void wrapper(F v) {
    note(string("to string: ") + T<F>::name() + " " + show(v) + (sizeof(C) == 1 ? " as char" : sizeof(C) == 2 ? " as char16_t" : " as wide characters"));
    C buf[256];
    size_t n = floaxie::ftoa(v, buf);
    std::basic_string<C> s = floaxie::to_basic_string<F, C>(v), t(buf, n);
    if (s != t) fail("wrapper returns %s (%zu characters), buffer interface %s (%zu)", narrow(s).c_str(), s.size(), narrow(t).c_str(), n);
}
template<typename F> static void wrappers(F v) {
    wrapper<F, char>(v); wrapper<F, wchar_t>(v);
    if (floaxie::to_string(v) != floaxie::to_basic_string<F, char>(v) || floaxie::to_wstring(v) != floaxie::to_basic_string<F, wchar_t>(v)) fail("to_string / to_wstring differ from to_basic_string");
#ifdef WIDE_TYPES
    wrapper<F, char16_t>(v); wrapper<F, char32_t>(v);
    if (floaxie::to_u16string(v) != floaxie::to_basic_string<F, char16_t>(v) || floaxie::to_u32string(v) != floaxie::to_basic_string<F, char32_t>(v)) fail("to_u16string / to_u32string differ from to_basic_string");
#endif
}

// ------------------------------------------------------------------ number texts
struct Ref { int kind; size_t end; bool neg, nonzero; };    // 0 nothing, 1 decimal, 2 infinity, 3 nan
template<typename C> static C low(C c) { return c >= 'A' && c <= 'Z' ? C(c + 32) : c; }
template<typename C> static Ref grammar(const C* s) {
    Ref r{0, 0, false, false};
    size_t i = 0;
    auto dig = [](C c) { return c >= '0' && c <= '9'; };
    auto word = [&](size_t p, const char* w) { size_t j = 0; while (w[j] && low(s[p + j]) == C(w[j])) ++j; return !w[j]; };
    if (s[i] == '-' || s[i] == '+') r.neg = s[i++] == '-';
    if (word(i, "nan")) {
        r.kind = 3; r.end = i + 3;
        if (s[r.end] == '(') { size_t j = r.end + 1; while (dig(s[j]) || s[j] == '_' || (low(s[j]) >= 'a' && low(s[j]) <= 'z')) ++j; if (s[j] == ')') r.end = j + 1; }
        return r;
    }
    if (word(i, "inf")) { r.kind = 2; r.end = word(i, "infinity") ? i + 8 : i + 3; return r; }
    size_t n = 0;
    for (; dig(s[i]); ++i, ++n) r.nonzero |= s[i] != '0';
    if (s[i] == '.' && (n || dig(s[i + 1]))) { ++i; for (; dig(s[i]); ++i, ++n) r.nonzero |= s[i] != '0'; }
    if (!n) { r.neg = false; return r; }
    r.kind = 1; r.end = i;
    if (s[i] == 'e' || s[i] == 'E') {
        ++i; if (s[i] == '-' || s[i] == '+') ++i;
        if (dig(s[i])) { while (dig(s[i])) ++i; r.end = i; }
    }
    return r;
}

static string zdec(Z a, int q) {      // exact decimal of a 2^q as digits e K
    int K = 0;
    if (q < 0) { a *= boost::multiprecision::pow(Z(5), -q); K = q; } else a <<= q;
    string d = a.str();
    while (d.size() > 1 && d.back() == '0') { d.pop_back(); ++K; }
    return d + "e" + std::to_string(K);
}
static string place(string d, long K, bool plain) {     // some notation of d 10^K
    string s;
    long n = d.size();
    if (plain && K < 0 && n + K > 0 && coin(2)) return d.substr(0, n + K) + "." + d.substr(n + K);
    if (plain && K < 0 && n + K <= 0 && n + K > -700) return (coin(8) ? "." : "0.") + string(-(n + K), '0') + d;
    if (plain && K >= 0 && K < 700) return d + string(K, '0') + (coin(4) ? "." : "");
    long at = coin(3) ? 1 : rnd(n + 1);
    long x = K + (n - at);
    if (coin(5)) d = string(rnd(30), '0') + d, at = d.size() - n + at;
    s = d.substr(0, at);
    if (at < (long)d.size() || coin(4)) s += "." + d.substr(at);
    if (s == ".") s = "0.";
    if (x || coin(4)) { s += coin(2) ? "e" : "E"; if (x < 0) s += "-"; else if (coin(2)) s += "+"; s += (coin(6) ? string(rnd(5), '0') : "") + std::to_string(std::labs(x)); }
    return s;
}
static long someconst() { return consts.empty() ? long(rnd(800)) : consts[rnd(consts.size())] + long(rnd(5)) - 2; }

template<typename F> static string number() {
    typedef typename T<F>::U U;
    const int lim = T<F>::emax * 30103 / 100000;
    string d; long K = 0;
    switch (rnd(7)) {
    case 0: {                                   // half way between neighbours, possibly changed far behind
        F v = std::fabs(value<F>());
        if (!std::isfinite(v)) v = 1;
        U b = bits(v); const int mb = T<F>::p - 1;
        int E = b >> mb; U M = b & ((U(1) << mb) - 1);
        Z m = E ? M + (U(1) << mb) : M; int q = E ? E - 1 + T<F>::qmin : T<F>::qmin;
        int w = rnd(3);
        string t = zdec(w == 0 ? Z(2 * m + 1) : w == 1 ? Z(2 * m) : Z(4 * m + 2 * (coin(2) ? 1 : -1) + 1), w == 2 ? q - 2 : q - 1);
        size_t e = t.find('e'); d = t.substr(0, e); K = atol(t.c_str() + e + 1);
        if (d[0] == '-') d = d.substr(1);
        if (coin(2)) { size_t n = coin(2) ? 15 + rnd(12) : 1 + rnd(d.size()); if (n < d.size()) { K += d.size() - n; d.resize(n); } }
        if (coin(2)) { Z x(d); x += coin(2) ? 1 : -1; if (x > 0) d = x.str(); }
        if (coin(4)) { int n = rnd(40); K -= n + 1; d += string(n, '0') + char('0' + rnd(10)); }
        break;
    }
    case 1: {                                   // random digits
        int n = coin(3) ? 1 + rnd(40) : coin(8) ? 1 + rnd(1500) : 1 + rnd(22);
        if (coin(10)) n = std::labs(someconst()) % 1800 + 1;
        for (int i = 0; i < n; ++i) d += char('0' + rnd(10));
        K = coin(2) ? long(rnd(2 * lim + 80)) - lim - 40 - n : long(rnd(60)) - 30 - n;
        break;
    }
    case 2: {                                   // structured digits
        int n = 1 + rnd(30);
        char c = "09155"[rnd(5)];
        d = string(1, char('1' + rnd(9))) + string(n, c) + (coin(2) ? string(1, char('0' + rnd(10))) : "");
        K = long(rnd(2 * lim + 80)) - lim - 40 - n;
        break;
    }
    case 3: {                                   // near the limits of the range
        static const char* t[] = {"17976931348623157", "17976931348623158079", "179769313486231580793728971405301", "17976931348623159", "49406564584124654", "2470328229206232720", "24703282292062327208", "24703282292062328", "22250738585072014", "22250738585072011", "2225073858507201136",
                                  "34028234663852886", "340282356779733661637539395458142568447", "34028235677973366", "3402823567797337", "1401298464324817", "70064923216240853546186479164495", "70064923216240854", "7006492321624085", "11754943508222875", "117549428", "117549421"};
        d = t[rnd(22)];
        static const int x[] = {309, -323, -324, -307, 39, -44, -45, -37};
        int n = d.size();
        if (coin(3)) { Z z(d); z += coin(2) ? 1 : -1; d = z.str(); }
        K = x[rnd(8)] - n + (coin(4) ? long(rnd(5)) - 2 : 0);
        break;
    }
    case 4: {                                   // zeros
        d = string(1 + rnd(40), '0'); if (coin(3)) d += char('0' + rnd(10));
        K = coin(2) ? long(rnd(60)) - 30 : someconst();
        break;
    }
    case 5: {                                   // short digits, any exponent
        d = std::to_string(rnd() >> rnd(64)); if (coin(2)) d.resize(1 + rnd(std::min<size_t>(d.size(), 19)));
        K = coin(4) ? long(rnd(20000)) - 10000 : coin(2) ? someconst() : long(rnd(2 * lim + 80)) - lim - 40;
        if (coin(20)) K = K * 1000003;
        break;
    }
    default: {                                  // printed values
        char b[80]; F v = std::fabs(value<F>()); if (!std::isfinite(v)) v = 0;
        if (coin(2)) snprintf(b, 80, "%.17g", double(v)); else snprintf(b, 80, "%.*e", coin(2) ? 5 : 25, double(v));
        return strspn(b, "0123456789.e+-") == strlen(b) ? b : "1";
    }
    }
    if (coin(40)) d = string(rnd(1900 > d.size() ? 1900 - d.size() : 1), '0') + d;
    if (coin(60) && d.size() < 1500) { int n = rnd(1900 - d.size()); d += string(n, '0'); K -= n; }
    string s = place(d, K, coin(3));
    return s.size() > 1950 ? s.substr(0, 1950) : s;
}
static char odd() { return coin(8) ? char(rnd(256)) : "@[`{/:^-$&+.~ (),;\x80\xff\xdf"[rnd(21)]; }     // neighbours of the accepted ones
static string spelling() {
    static const char* w[] = {"nan", "inf", "infinity", "nan()", "nan(1_aZ)", "nan(", "nan(12", "nan(-)", "infinit", "infi", "in", "na", "n", "i", "infinityy", "nan(a b)", "infin", "nan()x", "nan(z)", "nan((", "nanx", "INFINITYe5"};
    string s = w[rnd(22)];
    for (auto& c : s) if (coin(2) && c >= 'a' && c <= 'z') c -= 32;
    if (coin(6)) { s = "nan("; int n = rnd(coin(4) ? 1500 : 8); for (int i = 0; i < n; ++i) s += "abzAZ019_kN"[rnd(11)]; if (n && coin(3)) s[4 + rnd(n)] = odd(); s += coin(3) ? "" : ")"; }
    return s;
}
template<typename F> static string anytext() {
    string s;
    if (coin(3)) s += coin(2) ? "-" : "+";
    switch (rnd(12)) {
    case 0: { int n = rnd(coin(5) ? 60 : 12); for (int i = 0; i < n; ++i) s += "0123456789.eE+-infatyNAN()_ x\x7f\xe0"[rnd(31)]; break; }
    case 1: case 2: s += spelling(); break;
    case 3: { s = number<F>(); size_t k = rnd(s.size() + 1); s.insert(k, 1, ".eE+-0 n"[rnd(8)]); break; }
    case 4: s += number<F>() + (coin(2) ? "e" : "E") + (coin(2) ? "-" : coin(2) ? "+" : "") + (coin(2) ? "" : std::to_string(rnd() >> rnd(64))); break;
    case 5: { s += number<F>(); s += coin(2) ? "." : ""; s += number<F>(); break; }
    default: s += number<F>();
    }
    if (coin(3)) { static const char* t[] = {"x", "e", "e+", "e-", "E-x", ".", "..", " ", "e5", "5", "inf", "nan", "\xff", ".e", "e++1", "f", "e1.5"}; s += t[rnd(17)]; }
    if (!s.empty() && coin(6)) {
        size_t k = rnd(coin(2) ? std::min<size_t>(s.size(), 12) : s.size());
        switch (rnd(5)) { case 0: s[k] ^= 1 << rnd(8); break; case 1: s[k] += coin(2) ? 1 : -1; break; case 2: s.insert(k, 1, odd()); break; case 3: s.erase(k, 1); break; case 4: s[k] = odd(); }
    }
    if (s.size() > 2040) s.resize(2040);
    return s;
}

// is v the correctly rounded value of the decimal number?  (the platform's strtof errs for some exact binary fractions)
template<typename F> static bool exactly(F v, const string& num) {
    typedef typename T<F>::U U;
    const int mb = T<F>::p - 1;
    string d; long K = 0; size_t i = num[0] == '-' || num[0] == '+'; bool dot = false;
    if (std::signbit(v) != (num[0] == '-')) return false;
    for (; i < num.size() && num[i] != 'e' && num[i] != 'E'; ++i) if (num[i] == '.') dot = true; else { d += num[i]; K -= dot; }
    if (i < num.size()) { long x = strtol(num.c_str() + i + 1, nullptr, 10); K += std::max(-100000L, std::min(100000L, x)); }
    size_t z = 0; while (z + 1 < d.size() && d[z] == '0') ++z;
    d = d.substr(z);
    if (d == "0") return v == 0;
    if (long(d.size()) + K > 400) return std::isinf(v);
    if (long(d.size()) + K < -400) return v == 0;
    Z D(d);
    U b = bits(std::fabs(v)); int E = b >> mb; U M = b & ((U(1) << mb) - 1);
    if (std::isnan(v)) return false;
    if (std::isinf(v)) return cmp((Z(1) << (T<F>::p + 1)) - 1, T<F>::emax - T<F>::p - 1, D, K) <= 0;
    Z m = E ? M + (U(1) << mb) : M; int q = E ? E - 1 + T<F>::qmin : T<F>::qmin;
    int up = cmp(4 * m + 2, q - 2, D, K);
    if (v == 0) return up >= 0;
    int lo = cmp(4 * m - (E > 1 && !M ? 1 : 2), q - 2, D, K);
    return (M & 1) ? up > 0 && lo < 0 : up >= 0 && lo <= 0 ;
}

template<typename C> struct FB { static int calls; static const C* str; static C** end; static C* setto; static double val; static int err; };
template<typename C> int FB<C>::calls; template<typename C> const C* FB<C>::str; template<typename C> C** FB<C>::end; template<typename C> C* FB<C>::setto; template<typename C> double FB<C>::val; template<typename C> int FB<C>::err;
template<typename F, typename C> static F fallback(const C* s, C** e) { FB<C>::calls++; FB<C>::str = s; FB<C>::end = e; if (e) *e = FB<C>::setto; if (FB<C>::err) errno = FB<C>::err; return F(FB<C>::val); }

template<typename F> static bool same(F a, F b) { return std::isnan(a) ? std::isnan(b) : bits(a) == bits(b); }
static const char* st(floaxie::conversion_status s) { return s == floaxie::conversion_status::success ? "success" : s == floaxie::conversion_status::overflow ? "overflow" : s == floaxie::conversion_status::underflow ? "underflow" : "invalid status"; }

template<typename F, typename C> static void parse(const std::basic_string<C>& in) {
    vector<C> mem(std::min(in.size(), in.find(C(0))) + 1, C(0));  // exact capacity for the address sanitizer
    std::copy(in.begin(), in.begin() + (mem.size() - 1), mem.begin());
    const C* s = mem.data();
    string shown = (sizeof(C) == 1 ? "" : "L") + narrow(in);
    note(string("parse as ") + T<F>::name() + ": " + shown);
    Ref r = grammar(s);
    static const int errs[] = {0, ERANGE, EDOM, EINVAL};
    int e0 = errs[rnd(4)];
    C* end = nullptr;
    errno = e0;
    auto a = floaxie::atof<F>(s, &end);
    bool small = mem.size() <= 2049;
    if (prop == "C08") {
        if (end < s || end > s + mem.size() - 1) fail("end pointer outside of the string");
        return;
    }
    if (!small) return;
    F want = 0;
    if (r.kind == 1) {
        string num(s, s + r.end);
        char* ee; want = T<F>::ref(num.c_str(), &ee);
        if (ee != num.c_str() + num.size()) { fprintf(stderr, "oracle disagrees on the grammar of %s\n", shown.c_str()); return; }
    }
    else if (r.kind == 2) want = r.neg ? -std::numeric_limits<F>::infinity() : std::numeric_limits<F>::infinity();
    else if (r.kind == 3) want = std::numeric_limits<F>::quiet_NaN();
    if (prop == "C06" && r.kind == 1 && !same(a.value, want) && !exactly(a.value, string(s, s + r.end))) fail("returns %s, correctly rounded is %s", show(a.value).c_str(), show(want).c_str());
    if (prop == "C07") {
        if (end != s + r.end) fail("end at %ld, the number ends at %zu", long(end - s), r.end);
        if (r.kind == 0 && (a.value != 0 || a.status != floaxie::conversion_status::success)) fail("no number: value %s, status %s", show(a.value).c_str(), st(a.status));
        C* e2 = nullptr; floaxie::atof<F>(s, &e2, fallback<F, C>);
    }
    if (prop == "C09") {
        if (r.kind == 1 && (std::isinf(want) || want == 0) != (std::isinf(a.value) || a.value == 0) && exactly(a.value, string(s, s + r.end))) want = a.value;
        auto w = r.kind == 1 && std::isinf(want) ? floaxie::conversion_status::overflow : r.kind == 1 && want == 0 && r.nonzero ? floaxie::conversion_status::underflow : floaxie::conversion_status::success;
        if (a.status != w) fail("status %s, should be %s (errno was %d)", st(a.status), st(w), e0);
        errno = errs[rnd(4)];
        auto n = floaxie::atof<F, C>(s, nullptr);
        if (n.status != w) fail("without end pointer: status %s, should be %s", st(n.status), st(w));
    }
    if (prop == "C11") {
        if (r.kind == 2 || r.kind == 3) {
            if (!same(a.value, want) || a.status != floaxie::conversion_status::success || end != s + r.end) fail("value %s, status %s, end %ld; should be %s, success, %zu", show(a.value).c_str(), st(a.status), long(end - s), show(want).c_str(), r.end);
        }
        else if (std::isnan(a.value)) fail("parsed to a NaN");
        else if (r.kind == 0 && end != s) fail("a spelling is recognised that is none: end %ld", long(end - s));
    }
    if (prop == "C10" && s[0] != '-' && s[0] != '+' && r.kind && mem.size() <= 2048) {
        for (C c : {C('-'), C('+')}) {
            vector<C> m2(1, c); m2.insert(m2.end(), mem.begin(), mem.end());
            C* e2 = nullptr; auto b = floaxie::atof<F>((const C*)m2.data(), &e2);
            F w = c == '-' ? -a.value : a.value;
            if (!same(b.value, w) || b.status != a.status || e2 - m2.data() != end - s + 1) fail("with sign '%c': %s, %s, end %ld; without: %s, %s, end %ld", char(c), show(b.value).c_str(), st(b.status), long(e2 - m2.data()), show(a.value).c_str(), st(a.status), long(end - s));
        }
    }
    if (prop == "C14") {
        std::basic_string<C> str(s);
        errno = e0;
        auto b = floaxie::from_string<F, C>(str);
        if (!same(a.value, b.value) || a.status != b.status) fail("from_string: %s, %s; buffer interface: %s, %s", show(b.value).c_str(), st(b.status), show(a.value).c_str(), st(a.status));
        FB<C>::val = 1.25; FB<C>::setto = nullptr; C* e2;
        auto c = floaxie::from_string<F, C>(str, fallback<F, C>); auto d = floaxie::atof<F>(s, &e2, fallback<F, C>);
        if (!same(c.value, d.value) || c.status != d.status) fail("from_string with a fallback: %s; buffer interface: %s", show(c.value).c_str(), show(d.value).c_str());
    }
    if (prop == "C15") {
        static const int fberrs[] = {0, 0, ERANGE, EDOM, EINVAL, EINTR, EAGAIN, EILSEQ, ENOMEM, EOVERFLOW, -1};
        C other[2];
        bool called = false;
        for (int i = 0; i < 3; ++i) {
            FB<C>::calls = 0; FB<C>::val = i == 0 ? 1.25 : i == 1 ? -0.0 : std::numeric_limits<double>::quiet_NaN(); FB<C>::setto = i == 0 ? other : const_cast<C*>(s) + (mem.size() - 1);
            C* e2 = nullptr; errno = e0; FB<C>::err = fberrs[rnd(sizeof fberrs / sizeof *fberrs)];
            auto b = i == 2 ? floaxie::atof<F, C>(s, nullptr, fallback<F, C>) : floaxie::atof<F>(s, &e2, fallback<F, C>);
            if (i && called != (FB<C>::calls > 0)) fail("the fallback is called, or not, depending on its result");
            called = FB<C>::calls > 0;
            if (FB<C>::calls > 1) fail("the fallback is called %d times", FB<C>::calls);
            if (called && r.kind != 1) fail("the fallback is called for a string without a decimal number");
            if (called && (FB<C>::str != s || (i < 2 && FB<C>::end != &e2))) fail("arguments of the fallback");
            if (called && (!same(b.value, F(FB<C>::val)) || (i < 2 && e2 != FB<C>::setto))) fail("the result of the fallback is changed: %s", show(b.value).c_str());
            if (!called && (!same(b.value, a.value) || b.status != a.status || (i < 2 && e2 != end))) fail("the fallback is not called, but the result is different from the one with the default fallback");
        }
        std::basic_string<C> str(s);
        FB<C>::calls = 0; FB<C>::val = 1.25; FB<C>::setto = nullptr; FB<C>::err = 0; errno = e0;
        auto c = floaxie::from_string<F, C>(str, fallback<F, C>);
        if (called != (FB<C>::calls == 1)) fail("from_string calls the fallback %d times, the buffer interface %d times", FB<C>::calls, int(called));
        if (called && !same(c.value, F(1.25))) fail("from_string changes the result of the fallback: %s", show(c.value).c_str());
        if (!called && (!same(c.value, a.value) || c.status != a.status)) fail("from_string does not call the fallback, but the result is different from the one with the default fallback");
    }
    if (prop == "C13" && sizeof(C) == 1) {
        std::wstring w(s, s + mem.size() - 1);
        for (auto c : w) if (c > 127 || c < 0) return;
        wchar_t* e2 = nullptr; errno = e0;
        auto b = floaxie::atof<F>(w.c_str(), &e2);
        if (!same(a.value, b.value) || a.status != b.status || end - s != e2 - w.c_str()) fail("narrow: %s, %s, end %ld; wide: %s, %s, end %ld", show(a.value).c_str(), st(a.status), long(end - s), show(b.value).c_str(), st(b.status), long(e2 - w.c_str()));
        if (w.size()) {
            // characters that no narrow character stands for are foreign to every number
            std::wstring w2(w); std::string n2(w.begin(), w.end());
            for (unsigned i = 1 + rnd(2); i--;) { size_t k = rnd(w.size()); w2[k] += 256 << rnd(12); n2[k] = '#'; }
            char* e3 = nullptr; e2 = nullptr;
            auto c = floaxie::atof<F>(n2.c_str(), &e3); auto d = floaxie::atof<F>(w2.c_str(), &e2);
            if (!same(c.value, d.value) || c.status != d.status || e3 - n2.c_str() != e2 - w2.c_str()) { note(string("parse as ") + T<F>::name() + ": L" + narrow(w2)); fail("narrow, with # instead of the foreign characters: %s, %s, end %ld; wide: %s, %s, end %ld", show(c.value).c_str(), st(c.status), long(e3 - n2.c_str()), show(d.value).c_str(), st(d.status), long(e2 - w2.c_str())); }
        }
    }
}

// ------------------------------------------------------------------ arithmetic
template<typename F> static uint64_t mant() {
    typedef typename T<F>::U U;
    const int W = T<F>::W;
    U x = rnd();
    switch (rnd(8)) {
    case 6: x = U(someconst()); break;
    case 7: if (coin(2)) x = U(someconst()) << rnd(W); break;
    case 0: x = ~U(0) - rnd(4); break;
    case 1: x = rnd(4); break;
    case 2: x = (U(1) << rnd(W)) - rnd(3); break;
    case 3: x = ~U(0) << rnd(W); break;
    case 4: x = (U(rnd()) << (W / 2)) | (coin(2) ? (~U(0) >> (W / 2)) : 0); break;
    }
    return x;
}
#ifdef ARITH   // the only part that uses more than the public interface
template<typename F> static void arithmetic(const vector<uint64_t>* in) {
    typedef typename T<F>::U U; typedef floaxie::diy_fp<F> D;
    const int W = T<F>::W;
    U f1 = in ? U((*in)[0]) : U(mant<F>()), f2 = in ? U((*in)[2]) : U(mant<F>());
    int e1 = in ? int((*in)[1]) : int(rnd(4000)) - 2000, e2 = in ? int((*in)[3]) : int(rnd(4000)) - 2000;
    char b[300]; snprintf(b, 300, "%s arithmetic: a = {0x%llx, %d}, b = {0x%llx, %d}", T<F>::name(), (unsigned long long)f1, e1, (unsigned long long)f2, e2); note(b);
    for (int alias = 0; alias < 2; ++alias) {
        D x(f1, e1), y(f2, e2); D& yy = alias ? x : y;
        Z p = Z(f1) * Z(alias ? f1 : f2); int pe = e1 + (alias ? e1 : e2) + W;
        D z = x * yy;
        x *= yy;
        for (D* r : {&z, &x}) {
            Z d = (Z(r->m_f) << W) - p;
            if (d > (Z(1) << (W - 1)) || d < -(Z(1) << (W - 1)) || r->m_e != pe) fail("product is {0x%llx, %d}", (unsigned long long)r->m_f, r->m_e);
        }
    }
    if (f1 >= f2) { D x(f1, e1), y(f2, e1); D z = x - y; x -= y; for (D* r : {&z, &x}) if (r->m_f != U(f1 - f2) || r->m_e != e1) fail("difference is {0x%llx, %d}", (unsigned long long)r->m_f, r->m_e); }
    for (U g : {f1, f2}) for (int h : {e1, e2}) {
        const D a(f1, e1), b(g, h);
        bool same = f1 == g && e1 == h;
        if ((a == b) != same || (b == a) != same || (a != b) == same || (b != a) == same) fail("wrong comparison with {0x%llx, %d}", (unsigned long long)g, h);
    }
    D x(f1, e1); D o = x++; D x2(f1, e1); ++x2;
    U wf = f1 == U(-1) ? U(1) << (W - 1) : f1 + 1; int we = e1 + (f1 == U(-1));
    if (o.m_f != f1 || o.m_e != e1 || x.m_f != x2.m_f || x.m_e != x2.m_e || x.m_f != wf || x.m_e != we) fail("increment gives {0x%llx, %d}", (unsigned long long)x.m_f, x.m_e);
    if (f1) {
        D x(f1, e1); D o = x--; D x2(f1, e1); --x2;
        Z v = (Z(f1) << W), g = e1 >= x2.m_e && e1 - x2.m_e <= W ? Z(x2.m_f) << (W - (e1 - x2.m_e)) : Z(-1), un = e1 - x2.m_e <= W && e1 >= x2.m_e ? Z(1) << (W - (e1 - x2.m_e)) : Z(0);
        if (o.m_f != f1 || o.m_e != e1 || x.m_f != x2.m_f || x.m_e != x2.m_e || v - un != g) fail("decrement gives {0x%llx, %d}", (unsigned long long)x.m_f, x.m_e);
    }
}
template<typename F> static void conversion(const vector<uint64_t>* in) {
    typedef typename T<F>::U U; typedef floaxie::diy_fp<F> D;
    const int W = T<F>::W;
    F v = in && in->size() == 1 ? fromb<F>(U((*in)[0])) : std::fabs(value<F>());
    v = std::fabs(v);
    if (std::isfinite(v) && v > 0) {
        note(string(T<F>::name()) + " conversion of " + show(v));
        D x(v);
        if (std::ldexp((long double)x.m_f, x.m_e) != (long double)v) fail("converts to {0x%llx, %d}", (unsigned long long)x.m_f, x.m_e);
        x.normalize();
        if (std::ldexp((long double)x.m_f, x.m_e) != (long double)v || !(x.m_f >> (W - 1))) fail("normalised to {0x%llx, %d}", (unsigned long long)x.m_f, x.m_e);
        auto r = x.downsample();
        if (r.value != v || !r.is_accurate || r.status != floaxie::conversion_status::success) fail("rounded back to %s", show(r.value).c_str());
    }
    U f = U(mant<F>()) | (U(1) << (W - 1)), err = rnd(64); int e = coin(2) ? int(rnd(2 * T<F>::emax + 200)) - T<F>::emax - 100 - W : T<F>::qmin + int(rnd(80)) - 70;
    if (in && in->size() >= 3) { f = U((*in)[0]); e = int((*in)[1]); err = U((*in)[2]); }
    char b[300]; snprintf(b, 300, "%s rounding of {0x%llx, %d}, error bound %llu", T<F>::name(), (unsigned long long)f, e, (unsigned long long)err); note(b);
    D x(f, e);
    auto r = x.downsample(err);
    auto nearest = [&](Z m, int q) {       // m 2^q correctly rounded
        int len = int(msb(m)) + 1, sh = std::max(len - T<F>::p, T<F>::qmin - q);
        Z a = m; int qq = q;
        if (sh > 0) { Z low = m & ((Z(1) << sh) - 1), half = Z(1) << (sh - 1); a = m >> sh; qq = q + sh; if (low > half || (low == half && (a & 1) != 0)) a += 1; }
        if (a == 0) return F(0);
        if (int(msb(a)) + 1 + qq > T<F>::emax) return std::numeric_limits<F>::infinity();
        return F(std::ldexp(static_cast<double>(a.convert_to<uint64_t>()), qq));
    };
    auto want = r.value == 0 ? floaxie::conversion_status::underflow : std::isinf(r.value) ? floaxie::conversion_status::overflow : floaxie::conversion_status::success;
    if (std::isnan(r.value) || std::signbit(r.value) || r.status != want) fail("value %s, status %s", show(r.value).c_str(), st(r.status));
    if (r.is_accurate) {
        // reals within err units; ends are compared on a grid of 2^-3 units
        Z a = (Z(f) << 3);
        for (Z t : {a, Z(a + (Z(err) << 3)), Z(a - (Z(err) << 3))}) if (t > 0 && nearest(t, e - 3) != r.value) fail("flagged accurate, rounded to %s, but a real within the error bound rounds to %s", show(r.value).c_str(), show(nearest(t, e - 3)).c_str());
    }
}
template<typename F> static void powers() {
    typedef typename T<F>::U U;
    const int W = T<F>::W;
    int lo = floaxie::powers_ten<F>::boundaries.first, hi = floaxie::powers_ten<F>::boundaries.second;
    note(string(T<F>::name()) + " table of powers of ten");
    for (int k = lo; k <= hi; ++k) {
        auto c = floaxie::cached_power<F>(k);
        char b[100]; snprintf(b, 100, "cached power of ten: %s, k = %d", T<F>::name(), k); note(b);
        // nearest normalised pair: f 2^e ~ 10^k
        Z num = k >= 0 ? p10(k) : Z(1), den = k >= 0 ? Z(1) : p10(-k);
        if (!(U(c.m_f) >> (W - 1))) fail("is not normalised: {0x%llx, %d}", (unsigned long long)c.m_f, c.m_e);
        Z l = 2 * Z(c.m_f), n = num, d = den;
        if (c.m_e > 0) d <<= c.m_e; else n <<= -c.m_e;
        // |f - n/d| <= 1/2
        Z diff = l * d - 2 * n;
        if (diff > d || diff < -d) fail("is {0x%llx, %d}: not the nearest", (unsigned long long)c.m_f, c.m_e);
    }
    constexpr int al = floaxie::grisu_parameters<F>.alpha, ga = floaxie::grisu_parameters<F>.gamma;
    for (int e = T<F>::qmin - T<F>::W + 2; e <= T<F>::emax - T<F>::W; ++e) {
        char b[100]; snprintf(b, 100, "power selection: %s, binary exponent %d", T<F>::name(), e); note(b);
        int k = floaxie::k_comp_exp<al, ga>(e);
        if (k < lo || k > hi) fail("selects k = %d outside of the table", k);
        auto c = floaxie::cached_power<F>(k);
        int x = c.m_e + e + W;
        if (x < al || x > ga) fail("selects k = %d, scaled exponent %d", k, x);
    }
}

#else
template<typename F> static void arithmetic(const vector<uint64_t>*) {}
template<typename F> static void conversion(const vector<uint64_t>*) {}
template<typename F> static void powers() {}
#endif
template<typename C> static std::basic_string<C> widen(const string& s) {
    std::basic_string<C> w;
    for (unsigned char c : s) w += C(c);
    return w;
}

// C20: calls in another order, and calls in other threads, give the same results
template<typename F> struct Item { F v; string s; std::wstring w; };
template<typename F> static string results(const Item<F>& i) {
    std::ostringstream o;
    char b[256]; wchar_t wb[256];
    o << floaxie::ftoa(i.v, b) << '|'; o << b << '|';
    size_t n = floaxie::ftoa(i.v, wb); o << n << '|'; for (size_t k = 0; k < n; ++k) o << int(wb[k]) << ' ';
    o << floaxie::to_string(i.v) << '|';
    char* e = nullptr; auto r = floaxie::atof<F>(i.s.c_str(), &e);
    o << bits(r.value) << ' ' << int(r.status) << ' ' << e - i.s.c_str() << '|';
    wchar_t* we = nullptr; auto q = floaxie::atof<F>(i.w.c_str(), &we);
    o << bits(q.value) << ' ' << int(q.status) << ' ' << we - i.w.c_str() << '|';
    auto t = floaxie::from_string<F>(i.s); o << bits(t.value) << ' ' << int(t.status);
    return o.str();
}
template<typename C> static std::basic_string<C> widen(const string& s);
template<typename F> static void stateless() {
    vector<Item<F>> v(24);
    for (auto& i : v) {
        i.v = value<F>(); i.s = coin(3) ? anytext<F>() : number<F>(); if (i.s.size() > 2046) i.s.resize(2046);
        i.w = widen<wchar_t>(i.s);
    }
    vector<string> a;
    auto about = [&](size_t k) { return T<F>::name() + string(" ") + show(v[k].v) + " and text " + quote(v[k].s); };
    for (size_t k = 0; k < v.size(); ++k) { note(about(k)); a.push_back(results(v[k])); }
    for (int n = 0; n < 48; ++n) {
        size_t k = rnd(v.size()); note(about(k)); string r = results(v[k]);
        if (r != a[k]) fail("the result depends on earlier calls: %s first, %s now", a[k].c_str(), r.c_str());
    }
    note("concurrent calls, " + about(0));
    size_t bad[4]; string got[4]; vector<std::thread> ts;
    for (int t = 0; t < 4; ++t) {
        bad[t] = size_t(-1);
        vector<size_t> o; for (int n = 0; n < 60; ++n) o.push_back(rnd(v.size()));
        ts.emplace_back([&, t, o]() { for (size_t k : o) { string r = results(v[k]); if (r != a[k]) { bad[t] = k; got[t] = r; break; } } });
    }
    for (auto& t : ts) t.join();
    for (int t = 0; t < 4; ++t) if (bad[t] != size_t(-1)) { note(about(bad[t])); fail("the result depends on concurrent calls: %s alone, %s with others", a[bad[t]].c_str(), got[t].c_str()); }
}
template<typename F> static void once() {
    int p = atoi(prop.c_str() + 1);
    if (p == 20) { stateless<F>(); return; }
    if (p <= 5) { F v = value<F>(); if (coin(4)) print<F, wchar_t>(v); else print<F, char>(v); if (p == 3 && coin(4)) print<F, char16_t>(v); }
    else if (p == 12) { F v = value<F>(); print<F, char>(v); if (coin(4)) print<F, wchar_t>(v); }
    else if (p == 13) { if (coin(2)) { F v = value<F>(); print<F, wchar_t>(v); print<F, char16_t>(v); print<F, char32_t>(v); } else parse<F, char>(anytext<F>()); }
    else if (p == 14) { if (coin(2)) wrappers<F>(value<F>()); else { string s = anytext<F>(); if (coin(3)) parse<F, wchar_t>(widen<wchar_t>(s)); else parse<F, char>(s); } }
    else if (p == 16) conversion<F>(nullptr);
    else if (p == 17) arithmetic<F>(nullptr);
    else if (p == 18) powers<F>();
    else {
        string s = p == 11 && coin(2) ? (coin(2) ? coin(2) ? "-" : "+" : "") + spelling() + (coin(3) ? anytext<F>() : "") : anytext<F>();
        if (s.size() > 2046) s.resize(2046);
        if (p == 8 && coin(50)) s = string(rnd(20000), "0159."[rnd(5)]) + s + string(rnd(5000), '7');
        if (coin(3)) {
            std::wstring w = widen<wchar_t>(s);
            if (coin(3) && !w.empty()) { static const int32_t odd[] = {int32_t(0x80000000), -1, 0x7fffffff, 0x130, 0x131, 0x1000030, int32_t(0x80000030), 0x230}; w[rnd(w.size())] = wchar_t(odd[rnd(8)]); }
            parse<F, wchar_t>(w);
        }
        else parse<F, char>(s);
    }
}
template<typename F> static void proposal(const vector<string>& w) {
    // kind value...
    vector<uint64_t> n;
    for (size_t i = 2; i < w.size(); ++i) n.push_back(w[i][0] == '-' ? uint64_t(strtoll(w[i].c_str(), nullptr, 0)) : strtoull(w[i].c_str(), nullptr, 0));
    int p = atoi(prop.c_str() + 1);
    if (w[0] == "bits" && (p <= 5 || p == 12 || p == 13)) { F v = fromb<F>(n[0]); print<F, char>(v); print<F, wchar_t>(v); print<F, char16_t>(v); }
    else if (w[0] == "bits" && p == 14) wrappers<F>(fromb<F>(n[0]));
    else if (w[0] == "bits" && p == 16) conversion<F>(&n);
    else if (w[0] == "round" && p == 16) conversion<F>(&n);
    else if (w[0] == "arith" && p == 17) arithmetic<F>(&n);
    else if (w[0] == "text") { string s = w.size() > 2 ? w[2] : ""; if (p >= 6) { parse<F, char>(s); parse<F, wchar_t>(widen<wchar_t>(s)); } else { F v = T<F>::ref(s.c_str(), nullptr); print<F, char>(v); print<F, wchar_t>(v); } }
}

int main(int, char** v) {
    prop = v[1];
    R.seed(strtoull(v[2], nullptr, 0));
    double secs = atof(v[3]);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = handler;
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
#ifdef SAN
    __sanitizer_set_death_callback(death);
#endif
    std::ifstream f(v[4]); string ln;
    while (std::getline(f, ln)) {
        std::istringstream i(ln); vector<string> w; string x;
        while (i >> x) w.push_back(x);
        if (w.size() >= 2 && w[0] == "const") { consts.push_back(atol(w[1].c_str())); continue; }
        if (w.size() >= 2 && w[0] == "fconst") { fconsts.push_back(strtod(w[1].c_str(), nullptr)); continue; }
        if (w.size() < 2) continue;
        alarm(20);
        if (w[1] == "d") proposal<double>(w); else proposal<float>(w);
    }
    auto t0 = std::chrono::steady_clock::now();
    unsigned long n = 0;
    for (;; ++n) {
        if (n % 64 == 0) { alarm(20); if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break; }
        if (rnd(2)) once<double>(); else once<float>();
        if (prop == "C18" && n > 4) break;
    }
    printf("%lu inputs tried\n", n);
    return 0;
}
