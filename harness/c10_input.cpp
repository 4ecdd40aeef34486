#include "fracx.hpp"
#include "intx.hpp"
#include "complex.hpp"
#include "streams.hpp"
#include "strx.hpp"
using pyincpp::Complex;

namespace
{
const char* WS = " \t\n\v\f\r";
bool ws(char c)
{
    return c != 0 && strchr(WS, c);
}
bool digit(char c)
{
    return c >= '0' && c <= '9';
}
// characters whose role as a blank is not specified: control characters that isspace() does not know
bool odd_blank(const std::string& s)
{
    for (unsigned char c : s)
        if (c <= 0x20 && !ws(char(c)))
            return true;
    return false;
}
std::size_t sint(const std::string& s, std::size_t p) // [+-]?digits, returns end or npos
{
    if (p < s.size() && (s[p] == '+' || s[p] == '-'))
        ++p;
    const std::size_t b = p;
    while (p < s.size() && digit(s[p]))
        ++p;
    return p > b ? p : std::string::npos;
}
std::size_t sreal(const std::string& s, std::size_t p)
{
    if (p < s.size() && (s[p] == '+' || s[p] == '-'))
        ++p;
    std::size_t n = 0;
    while (p < s.size() && digit(s[p]))
        ++p, ++n;
    if (p < s.size() && s[p] == '.')
    {
        ++p;
        while (p < s.size() && digit(s[p]))
            ++p, ++n;
    }
    if (n == 0)
        return std::string::npos;
    if (p < s.size() && (s[p] == 'e' || s[p] == 'E'))
    {
        const std::size_t q = sint(s, p + 1);
        if (q == std::string::npos)
            return std::string::npos;
        p = q;
    }
    return p;
}
bool ends(const std::string& s, std::size_t p) // a blank or the end
{
    return p == s.size() || ws(s[p]);
}
enum class Want
{
    value,
    reject,
    any, // not specified: only termination, memory and the target on error are checked
    skip // no value of the type can hold it (undefined by construction): not run
};
std::size_t skip(const std::string& s)
{
    std::size_t p = 0;
    while (p < s.size() && ws(s[p]))
        ++p;
    return p;
}
std::size_t token_end(const std::string& s, std::size_t p)
{
    while (p < s.size() && !ws(s[p]))
        ++p;
    return p;
}
struct Int_
{
    using T = Int;
    static constexpr const char* name = "Int";
    static constexpr bool plain_blanks = true; // only what isspace() knows is a blank
    T value;
    Want parse(const std::string& s, std::size_t& end)
    {
        const std::size_t b = skip(s);
        end = token_end(s, b);
        const std::size_t p = sint(s, b);
        if (p != end || p == std::string::npos)
            return Want::reject;
        value = mk(s.substr(b, end - b));
        return Want::value;
    }
    static bool same(const T& a, const T& b)
    {
        return text(a) == text(b) && a == b;
    }
    static T target(Rng& r)
    {
        return mk(gen_int(r, 12));
    }
    static std::string show(const T& v)
    {
        return text(v);
    }
    static std::string literal(Rng& r)
    {
        return r.of<std::string>({"", "", "+", "-"}) + (r.chance(1, 8) ? "00" : "") + gen_digits(r, 30);
    }
    static constexpr const char* alphabet = "0123456789+-0011 \n.a/j";
};
struct Fraction_
{
    using T = Fraction;
    static constexpr const char* name = "Fraction";
    static constexpr bool plain_blanks = false;
    T value;
    Want parse(const std::string& s, std::size_t& end)
    {
        const std::size_t b = skip(s);
        end = token_end(s, b);
        std::size_t p = sint(s, b);
        if (p == std::string::npos)
            return Want::reject;
        std::string n = s.substr(b, p - b), d = "1";
        if (p < s.size() && s[p] == '/')
        {
            const std::size_t q = sint(s, p + 1);
            if (q == std::string::npos)
                return Want::reject;
            d = s.substr(p + 1, q - p - 1);
            p = q;
        }
        if (!ends(s, p))
            return Want::reject;
        const Big N = big(n), D = big(d);
        if (D == 0)
            return Want::reject;
        if (N < INT_MIN || N > INT_MAX || D < INT_MIN || D > INT_MAX)
            return Want::any; // parts that do not fit
        const Q q = mkq(int(N), int(D));
        if (!fits(q))
            return Want::skip;
        value = Fraction(int(q.n), int(q.d));
        return Want::value;
    }
    static bool same(const T& a, const T& b)
    {
        return a.numerator() == b.numerator() && a.denominator() == b.denominator();
    }
    static T target(Rng& r)
    {
        return Fraction(r.range(-99, 99), r.range(1, 99));
    }
    static std::string show(const T& v)
    {
        return fs(v);
    }
    static std::string literal(Rng& r)
    {
        auto part = [&](bool den)
        {
            long long v = r.chance(1, 10) ? INT_MAX - r.range(0, 3) : r.chance(1, 2) ? r.range(0, 20) : r.range(0, 100000);
            if (den && v == 0)
                v = 1;
            return r.of<std::string>({"", "", "+", "-"}) + (r.chance(1, 10) ? "00" : "") + std::to_string(v);
        };
        return r.chance(1, 3) ? part(false) : part(false) + "/" + part(true);
    }
    static constexpr const char* alphabet = "0123456789+-///12 \n.ajx";
};
struct Complex_
{
    using T = Complex;
    static constexpr const char* name = "Complex";
    static constexpr bool plain_blanks = false;
    T value;
    Want parse(const std::string& s, std::size_t& end)
    {
        const std::size_t b = skip(s);
        end = token_end(s, b);
        const std::string tok = s.substr(b, end - b);
        // a bare j for 1j, and words the number parser may know, are not specified
        if (tok.find_first_of("xXpPnNiI") != std::string::npos)
            return tok.empty() || !(digit(tok[0]) || tok[0] == '+' || tok[0] == '-' || tok[0] == '.') ? Want::reject : Want::any;
        for (std::size_t i = 0; i < tok.size(); ++i)
            if (tok[i] == 'j' && (i == 0 || !(digit(tok[i - 1]) || tok[i - 1] == '.')))
                return Want::any;
        std::size_t p = sreal(s, b);
        if (p == std::string::npos)
            return Want::reject;
        const std::string re = s.substr(b, p - b);
        double R, I = 0;
        if (!num(re, R))
            return Want::any;
        if (ends(s, p))
        {
            value = Complex(R);
            return Want::value;
        }
        if (s[p] == 'j')
        {
            if (!ends(s, p + 1))
                return Want::reject;
            value = Complex(0, R);
            return Want::value;
        }
        if (s[p] != '+' && s[p] != '-')
            return Want::reject;
        const std::size_t q = sreal(s, p);
        if (q == std::string::npos || q >= s.size() || s[q] != 'j' || !ends(s, q + 1))
            return Want::reject;
        if (!num(s.substr(p, q - p), I))
            return Want::any;
        value = Complex(R, I);
        return Want::value;
    }
    static bool num(const std::string& t, double& v)
    {
        v = std::strtod(t.c_str(), nullptr);
        // out of the range of double: not specified
        return std::isfinite(v) && !(v == 0 && t.find_first_of("123456789") < t.find_first_of("eE")) && (v == 0 || std::abs(v) > 1e-300);
    }
    static bool same(const T& a, const T& b)
    {
        return a.real() == b.real() && a.imag() == b.imag();
    }
    static T target(Rng& r)
    {
        return Complex(r.range(-99, 99), r.range(-99, 99));
    }
    static std::string show(const T& v)
    {
        std::ostringstream o;
        o.precision(17);
        o << "(" << v.real() << ", " << v.imag() << ")";
        return o.str();
    }
    static std::string literal(Rng& r)
    {
        auto real = [&](bool sign)
        {
            std::string s = sign ? r.of<std::string>({"+", "-"}) : r.of<std::string>({"", "", "+", "-"});
            switch (r.range(0, 4))
            {
                case 0: s += std::to_string(r.range(0, 99)); break;
                case 1: s += std::to_string(r.range(0, 99)) + "." + std::to_string(r.range(0, 999)); break;
                case 2: s += "." + std::to_string(r.range(0, 999)); break;
                case 3: s += std::to_string(r.range(0, 99)) + "."; break;
                default: s += gen_digits(r, 18) + "." + gen_digits(r, 12);
            }
            if (r.chance(1, 4))
                s += r.of<std::string>({"e", "E"}) + r.of<std::string>({"", "+", "-"}) + std::to_string(r.range(0, 40));
            return s;
        };
        switch (r.range(0, 2))
        {
            case 0: return real(false);
            case 1: return real(false) + "j";
            default: return real(false) + real(true) + "j";
        }
    }
    static constexpr const char* alphabet = "0123456789+-..jjee12 \n/a";
};

std::string rest(std::istream& is)
{
    is.clear();
    return std::string(std::istreambuf_iterator<char>(is), {});
}
template <typename K>
void extract(const std::string& in, Rng& rng)
{
    using T = typename K::T;
    K k;
    std::size_t end = 0;
    Want w = k.parse(in, end);
    if (w == Want::skip)
        return;
    if (!K::plain_blanks && odd_blank(in))
        w = Want::any;
    if (w == Want::skip)
        return;
    const std::string ctx = std::string(K::name) + " from " + mon::esc(in);
    NOTE(ctx << (w == Want::value ? " expects " + K::show(k.value) : w == Want::reject ? " expects a rejection" : " unspecified"));
    const T before = K::target(rng);
    T t = before;
    std::istringstream is(in);
    mon::set_op(K::name);
    const auto o = mon::attempt([&] { is >> t; });
    const bool failed = o != mon::Out::ok || is.fail();
    mon::evaluated();
    if (o != mon::Out::ok)
    {
        EXPECT(o == mon::Out::runtime_error, std::string("input-exception-type:") + K::name, ctx << ": " << name(o));
        EXPECT(K::same(t, before), std::string("input-target-changed:") + K::name, ctx << ": an error was thrown but the target changed from " << K::show(before) << " to " << K::show(t));
    }
    if (w == Want::value)
    {
        EXPECT(!failed, std::string("input-rejected:") + K::name, ctx << ": rejected (" << name(o) << ")");
        EXPECT(K::same(t, k.value), std::string("input-value:") + K::name, ctx << ": read " << K::show(t) << " want " << K::show(k.value));
        const std::string r = rest(is);
        EXPECT(r == in.substr(end), std::string("input-consumed:") + K::name, ctx << ": left " << mon::esc(r) << " want " << mon::esc(in.substr(end)));
        mon::count_n((std::string(K::name) + " accepted").c_str(), 1);
    }
    else if (w == Want::reject)
    {
        EXPECT(failed, std::string("input-accepted:") + K::name, ctx << ": accepted as " << K::show(t));
        mon::count_n((std::string(K::name) + " rejected").c_str(), 1);
    }
    else
        mon::count_n((std::string(K::name) + " unspecified").c_str(), 1);
    // the same from a source that comes in small portions, which throws on failure
    if (w != Want::any && rng.chance(1, 2))
    {
        streams::Trickle source(in, int(rng.range(1, 4)));
        std::istream ts(&source);
        if (rng.chance(1, 2))
            ts.exceptions(std::ios::badbit | std::ios::failbit);
        T u = before;
        const auto to = mon::attempt([&] { ts >> u; });
        EXPECT(w == Want::value ? to == mon::Out::ok && !ts.fail() && K::same(u, k.value) : to != mon::Out::ok || ts.fail(), std::string("input-portions:") + K::name, ctx << ": from a stream that comes in portions " << name(to) << ", read " << K::show(u));
        if (w == Want::value)
            EXPECT(source.rest() == in.substr(end), std::string("input-consumed:") + K::name, ctx << ": from a stream that comes in portions left " << mon::esc(source.rest()) << " want " << mon::esc(in.substr(end)));
        else if (to != mon::Out::ok)
            EXPECT(K::same(u, before), std::string("input-target-changed:") + K::name, ctx << ": an error was thrown but the target changed from " << K::show(before) << " to " << K::show(u));
        mon::evaluated();
    }
    mon::nontrivial(hash2(K::name, in, ""));
    SAMPLE(std::string(std::string(K::name) + (w == Want::value ? " value" : w == Want::reject ? " reject" : " any")).c_str(), ctx << (failed ? " -> rejected" : " -> " + K::show(t)));
}
std::string blanks(Rng& r, int lo)
{
    std::string s;
    for (int i = r.range(lo, 3); i > 0; --i)
        s += WS[r.range(0, 5)];
    return s;
}
std::string mutate(Rng& r, std::string s, const char* al)
{
    const int n = strlen(al);
    for (int k = r.range(1, 2); k > 0; --k)
    {
        const char c = r.chance(1, 12) ? char(r.range(0, 255)) : al[r.range(0, n - 1)];
        const int pos = r.range(0, s.size());
        switch (r.range(0, 3))
        {
            case 0: s.insert(s.begin() + pos, c); break;
            case 1:
                if (pos < int(s.size()))
                    s[pos] = c;
                break;
            case 2:
                if (pos < int(s.size()))
                    s.erase(pos, 1);
                break;
            default: s = s.substr(0, pos); // cut short
        }
    }
    return s;
}
template <typename K>
void literals(Rng& rng)
{
    for (int i = 0; i < 10; ++i)
    {
        std::string s = K::literal(rng);
        extract<K>(s, rng);
        extract<K>(blanks(rng, 0) + s + blanks(rng, 0), rng);
        extract<K>(blanks(rng, 0) + mutate(rng, s, K::alphabet), rng);
        extract<K>(mutate(rng, blanks(rng, 0) + s, K::alphabet) + blanks(rng, 0) + "7", rng);
    }
}
// every string up to a length over a small alphabet
template <typename K>
void exhaustive(const std::string& al, std::uint64_t idx, Rng& rng)
{
    const int n = al.size();
    if (idx >= std::uint64_t(n * n))
        return;
    const std::string pre = {al[idx / n], al[idx % n]};
    if (idx == 0)
    {
        extract<K>("", rng);
        for (int c = 0; c < 256; ++c)
            extract<K>(std::string(1, char(c)), rng);
    }
    extract<K>(pre, rng);
    for (char a : al)
    {
        extract<K>(pre + a, rng);
        for (char b : al)
        {
            extract<K>(pre + a + b, rng);
            if (mon::thorough || rng.chance(1, 6))
                for (char c : al)
                    extract<K>(pre + a + b + c, rng);
        }
    }
}
// several values in one stream, then the end of the stream
template <typename K>
void sequence(Rng& rng)
{
    std::vector<std::string> lit(rng.range(0, 8));
    std::string in = blanks(rng, 0);
    for (auto& l : lit)
    {
        l = K::literal(rng);
        in += l + blanks(rng, 1);
    }
    if (rng.chance(1, 2) && !lit.empty())
        while (!in.empty() && ws(in.back()))
            in.pop_back();
    NOTE("sequence " << mon::esc(in));
    std::istringstream is(in);
    typename K::T t = K::target(rng);
    for (std::size_t i = 0; i < lit.size(); ++i)
    {
        K k;
        std::size_t e;
        if (k.parse(lit[i], e) != Want::value)
            return;
        mon::set_op("sequence");
        is >> t;
        EXPECT(!is.fail() && K::same(t, k.value), std::string("input-sequence:") + K::name, "value " << i << " of " << mon::esc(in) << " is " << K::show(t) << " want " << K::show(k.value));
        mon::evaluated();
    }
    // nothing is left: two more attempts end and are rejected
    for (int i = 0; i < 2; ++i)
    {
        const auto o = mon::attempt([&] { is >> t; });
        EXPECT(o != mon::Out::ok || is.fail(), std::string("input-at-end:") + K::name, "reading at the end of " << mon::esc(in) << " is accepted as " << K::show(t));
        mon::evaluated();
    }
    mon::nontrivial(hash2("seq", in, K::name));
    SAMPLE((std::string(K::name) + " sequence").c_str(), mon::esc(in));
}
} // namespace

SUITE(int_literals, 1000, 20000) { literals<Int_>(rng); }
SUITE(fraction_literals, 1000, 20000) { literals<Fraction_>(rng); }
SUITE(complex_literals, 1500, 30000) { literals<Complex_>(rng); }
SUITE(int_exhaustive, 64, 64) { exhaustive<Int_>("+-019 a\n", idx, rng); }
SUITE(fraction_exhaustive, 81, 81) { exhaustive<Fraction_>("+-02/ .x\n", idx, rng); }
SUITE(complex_exhaustive, 81, 81) { exhaustive<Complex_>("+-05.je z", idx, rng); }
SUITE(int_sequences, 1500, 20000) { sequence<Int_>(rng); }
SUITE(fraction_sequences, 1500, 20000) { sequence<Fraction_>(rng); }
SUITE(complex_sequences, 1500, 20000) { sequence<Complex_>(rng); }
// garbage: only termination, memory safety and the untouched target
SUITE(garbage, 3000, 100000)
{
    std::string s = gen_bytes(rng, 24);
    extract<Int_>(s, rng);
    extract<Fraction_>(s, rng);
    extract<Complex_>(s, rng);
}
// mixed types and a word in between
SUITE(mixed, 1500, 20000)
{
    const std::string a = Int_::literal(rng), b = Fraction_::literal(rng), c = Complex_::literal(rng);
    const std::string line = gen_bytes(rng, 12);
    std::string l2;
    for (char ch : line)
        if (ch != '\n')
            l2 += ch;
    Fraction_ fb;
    Complex_ fc;
    std::size_t e;
    if (fb.parse(b, e) != Want::value || fc.parse(c, e) != Want::value)
        return;
    const std::string in = blanks(rng, 0) + a + blanks(rng, 1) + b + blanks(rng, 1) + c + "\n" + l2 + "\nword";
    std::istringstream is(in);
    Int x;
    Fraction f;
    Complex z;
    Str s("old"), nl("old");
    std::string w;
    NOTE(mon::esc(in));
    OP("mixed extraction");
    is >> x >> f >> z;
    EXPECT(text(x) == big(a).str() && Fraction_::same(f, fb.value) && Complex_::same(z, fc.value), "input-mixed", mon::esc(in) << ": read " << text(x) << " " << fs(f) << " " << Complex_::show(z));
    is >> nl; // the rest of the current line: empty
    EXPECT(raw(nl).empty(), "input-mixed-line", mon::esc(in) << ": rest of line is " << mon::esc(raw(nl)));
    is >> s;
    EXPECT(raw(s) == l2, "input-mixed-line", mon::esc(in) << ": line is " << mon::esc(raw(s)));
    is >> w;
    EXPECT(w == "word", "input-mixed-tail", mon::esc(in) << ": tail is " << mon::esc(w));
    mon::evaluated(6);
    mon::nontrivial(hash2("mixed", in, ""));
}
SUITE(str_lines, 5000, 80000)
{
    std::string in;
    std::vector<std::string> lines;
    const bool final_nl = rng.chance(1, 2);
    const int n = rng.range(0, 5);
    for (int i = 0; i < n; ++i)
    {
        std::string l = gen_bytes(rng, 20);
        if (rng.chance(1, 60)) // past every buffer of a stream
        {
            const std::string u = l + "a\r";
            const int want = rng.chance(1, 8) ? rng.range(60000, 140000) : rng.chance(1, 2) ? rng.of<int>({127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8192}) : int(rng.range(100, 9000));
            while (int(l.size()) < want)
                l += u;
            l.resize(want);
        }
        std::erase(l, '\n');
        if (i == n - 1 && !final_nl && l.empty())
            l = "x";
        lines.push_back(l);
        in += l;
        if (i < n - 1 || final_nl)
            in += '\n';
    }
    NOTE(mon::esc(in));
    std::istringstream is(in);
    Str s("before");
    for (int i = 0; i < n; ++i)
    {
        OP("Str >>");
        is >> s;
        EXPECT(!is.fail() && raw(s) == lines[i] && s.size() == int(lines[i].size()), "input-value:Str", "line " << i << " of " << mon::esc(in) << " is " << mon::esc(raw(s)));
        mon::evaluated();
    }
    {
        streams::Trickle source(in, int(rng.range(1, 4)));
        std::istream ts(&source);
        if (rng.chance(1, 2))
            ts.exceptions(std::ios::badbit | std::ios::failbit);
        Str u("before");
        OP("Str >> in portions");
        for (int i = 0; i < n; ++i)
        {
            ts >> u;
            EXPECT(!ts.fail() && raw(u) == lines[i], "input-portions:Str", "line " << i << " of " << mon::esc(in) << " is " << mon::esc(raw(u)));
            mon::evaluated();
        }
    }
    OP("Str >> end");
    const auto o = mon::attempt([&] { is >> s; });
    EXPECT(o != mon::Out::ok || is.fail(), "input-at-end:Str", "reading at the end of " << mon::esc(in) << " is accepted as " << mon::esc(raw(s)));
    mon::evaluated();
    mon::nontrivial(hash2("lines", in, ""));
    SAMPLE("lines", mon::esc(in));
}
// integers of tens of thousands of digits, one after the other
SUITE(very_long_integers, 24, 400)
{
    std::vector<std::string> v;
    std::string in;
    const int n = rng.range(1, 4);
    for (int i = 0; i < n; ++i)
    {
        std::string d = rng.of<std::string>({"1", "9", "5"});
        const int len = rng.range(1, rng.chance(1, 6) ? 70000 : 3000);
        const int kind = rng.range(0, 2);
        while (int(d.size()) < len)
            d += kind == 0 ? '9' : kind == 1 ? '0' : char('0' + rng.range(0, 9));
        const bool neg = rng.chance(1, 2);
        in += blanks(rng, 1) + (neg ? "-" : rng.chance(1, 3) ? "+" : "") + std::string(rng.chance(1, 3) ? rng.range(1, 5000) : 0, '0') + d;
        v.push_back((neg ? "-" : "") + d);
    }
    in += rng.chance(1, 2) ? " " : "";
    NOTE(brief(in));
    std::istringstream is(in);
    for (auto& want : v)
    {
        Int x = 7;
        OP("Int >>");
        is >> x;
        EXPECT(!is.fail() && text(x) == want && x == mk(want), "input-value:Int", "read " << brief(text(x)) << " want " << brief(want));
        mon::evaluated();
    }
    mon::nontrivial(hash2("long", in, ""));
}
