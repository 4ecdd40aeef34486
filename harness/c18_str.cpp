// C18: Str search and editing against naive byte-string definitions.
#include "strx.hpp"
#include "intx.hpp"
#include <climits>
using pyincpp::List;
namespace
{
using S = std::string;
bool at(const S& s, const S& p, long long i, long long stop) // p occurs at i and ends by stop
{
    if (i < 0 || i + (long long)p.size() > stop)
        return false;
    for (std::size_t k = 0; k < p.size(); ++k)
        if (s[i + k] != p[k])
            return false;
    return true;
}
int nfind(const S& s, const S& p, long long start, long long stop)
{
    stop = std::min<long long>(stop, s.size());
    for (long long i = start; i <= stop; ++i)
        if (at(s, p, i, stop))
            return i;
    return -1;
}
int ncount(const S& s, const S& p)
{
    if (p.empty())
        return s.size() + 1;
    int c = 0;
    for (std::size_t i = 0; i < s.size();)
        if (at(s, p, i, s.size()))
            ++c, i += p.size();
        else
            ++i;
    return c;
}
S nreplace(const S& s, const S& a, const S& b)
{
    S o;
    if (a.empty())
    {
        o = b;
        for (char c : s)
            o += c, o += b;
        return o;
    }
    for (std::size_t i = 0; i < s.size();)
        if (at(s, a, i, s.size()))
            o += b, i += a.size();
        else
            o += s[i++];
    return o;
}
std::vector<S> nsplit(const S& s, const S& sep, bool keep)
{
    std::vector<S> all{""};
    for (std::size_t i = 0; i < s.size();)
        if (at(s, sep, i, s.size()))
            all.push_back(""), i += sep.size();
        else
            all.back() += s[i++];
    if (!keep)
        std::erase(all, S());
    return all;
}
S njoin(const S& sep, const std::vector<S>& v)
{
    S o;
    for (std::size_t i = 0; i < v.size(); ++i)
        o += (i ? sep : S()) + v[i];
    return o;
}
bool blank(unsigned char c)
{
    return c <= 0x20;
}
template <typename P>
S nstrip(const S& s, P drop)
{
    std::size_t a = 0, b = s.size();
    while (a < b && drop(s[a]))
        ++a;
    while (b > a && drop(s[b - 1]))
        --b;
    return s.substr(a, b - a);
}
std::string show(const std::vector<S>& v)
{
    std::string o = "[";
    for (auto& s : v)
        o += (o.size() > 1 ? ", " : "") + mon::esc(s);
    return o + "]";
}
void same(const Str& got, const S& want, const char* key, const std::string& ctx)
{
    EXPECT(raw(got) == want && got.size() == int(want.size()) && got.is_empty() == want.empty() && S(got.data(), got.size()) == want && (got.size() == 0 || got.data()[got.size()] == 0), std::string("str-value:") + key, ctx << " = " << mon::esc(raw(got)) << " (size " << got.size() << ") want " << mon::esc(want));
    mon::evaluated();
}
std::vector<S> lists(const List<Str>& l)
{
    std::vector<S> v;
    for (auto& e : l)
        v.push_back(raw(e));
    return v;
}
void find_all(const Str& s, const S& t, const Str& p, const S& pt, long long a, long long b)
{
    const int want = nfind(t, pt, a, b);
    OP("Str find");
    const int got = s.find(p, a, b);
    EXPECT(got == want, "str-find", mon::esc(t) << ".find(" << mon::esc(pt) << ", " << a << ", " << b << ") = " << got << " want " << want);
    OP("Str contains");
    EXPECT(s.contains(p, a, b) == (want != -1), "str-contains", mon::esc(t) << ".contains(" << mon::esc(pt) << ", " << a << ", " << b << ")");
    mon::evaluated(2);
}
// everything that takes a pattern
void patterns(const Str& s, const S& t, const Str& p, const S& pt, const Str& q, const S& qt, Rng& r)
{
    const std::string ctx = mon::esc(t) + " with " + mon::esc(pt) + " and " + mon::esc(qt);
    NOTE(ctx);
    const int n = t.size();
    find_all(s, t, p, pt, 0, INT_MAX);
    EXPECT(s.find(p) == nfind(t, pt, 0, INT_MAX) && s.contains(p) == (nfind(t, pt, 0, INT_MAX) >= 0), "str-find-default", ctx);
    for (int i = 0; i < 4; ++i)
        find_all(s, t, p, pt, r.range(0, n + 1), r.chance(1, 5) ? r.of<int>({INT_MAX, INT_MAX - 1, -1, INT_MIN}) : int(r.range(-1, n + 2)));
    OP("Str count");
    EXPECT(s.count(p) == ncount(t, pt), "str-count", mon::esc(t) << ".count(" << mon::esc(pt) << ") = " << s.count(p) << " want " << ncount(t, pt));
    OP("Str starts_with");
    EXPECT(s.starts_with(p) == at(t, pt, 0, n), "str-starts_with", ctx);
    OP("Str ends_with");
    EXPECT(s.ends_with(p) == at(t, pt, n - (int)pt.size(), n), "str-ends_with", ctx);
    OP("Str replace");
    same(s.replace(p, q), nreplace(t, pt, qt), "replace", mon::esc(t) + ".replace(" + mon::esc(pt) + ", " + mon::esc(qt) + ")");
    if (!pt.empty())
    {
        OP("Str split");
        const auto kept = s.split(p, true), dropped = s.split(p), dropped2 = s.split(p, false);
        const auto wk = nsplit(t, pt, true), wd = nsplit(t, pt, false);
        EXPECT(lists(kept) == wk, "str-split-keep", mon::esc(t) << ".split(" << mon::esc(pt) << ", true) = " << show(lists(kept)) << " want " << show(wk));
        EXPECT(lists(dropped) == wd && lists(dropped2) == wd, "str-split", mon::esc(t) << ".split(" << mon::esc(pt) << ") = " << show(lists(dropped)) << " want " << show(wd));
        OP("Str join");
        same(p.join(kept), t, "join of split", ctx);
        same(q.join(kept), njoin(qt, wk), "join", mon::esc(qt) + ".join(" + show(wk) + ")");
        same(q.join(dropped), njoin(qt, wd), "join", mon::esc(qt) + ".join(" + show(wd) + ")");
    }
    OP("Str + Str");
    same(s + p, t + pt, "+", ctx);
    mon::evaluated(6);
}
void edits(const Str& s, const S& t, Rng& r)
{
    const int n = t.size();
    const std::string ctx = mon::esc(t);
    OP("Str strip");
    same(s.strip(), nstrip(t, blank), "strip", ctx + ".strip()");
    for (int i = 0; i < 2; ++i)
    {
        const signed char c = n && r.chance(3, 4) ? (signed char)t[r.chance(1, 2) ? 0 : n - 1] : (signed char)r.range(-128, 127);
        if (c == -1) // the default: blanks
            continue;
        same(s.strip(c), nstrip(t, [=](char x) { return (unsigned char)x == (unsigned char)c; }), "strip(char)", ctx + ".strip(" + std::to_string(int(c)) + ")");
    }
    OP("Str lower/upper");
    S lo, up;
    for (unsigned char c : t)
    {
        lo += char(c >= 65 && c <= 90 ? c + 32 : c);
        up += char(c >= 97 && c <= 122 ? c - 32 : c);
    }
    same(s.lower(), lo, "lower", ctx + ".lower()");
    same(s.upper(), up, "upper", ctx + ".upper()");
    OP("Str reverse");
    same(s.reverse(), S(t.rbegin(), t.rend()), "reverse", ctx + ".reverse()");
    OP("Str erase");
    for (int i = 0; i < 2; ++i)
    {
        const int a = r.range(0, n), b = r.range(a, n);
        same(s.erase(a, b), t.substr(0, a) + t.substr(b), "erase", ctx + ".erase(" + std::to_string(a) + ", " + std::to_string(b) + ")");
    }
    OP("Str rotate");
    for (int i = 0; i < 3; ++i)
    {
        const int k = i == 0 ? r.of<int>({INT_MIN, INT_MAX, INT_MIN + 1, n, -n, n - 1, 1 - n, 0}) : i == 1 ? int(r.range(-2 * n - 2, 2 * n + 2)) : int(r.range(INT_MIN, INT_MAX));
        for (int left = 0; left < 2; ++left)
        {
            S w(n, 0);
            for (int j = 0; j < n; ++j)
                w[((j + (left ? -1LL : 1LL) * k) % n + n) % n] = t[j];
            same(left ? s << k : s >> k, w, left ? "<<" : ">>", ctx + (left ? " << " : " >> ") + std::to_string(k));
        }
    }
    OP("Str repeat");
    const int times = r.of<int>({0, 1, 2, 3, 5});
    S w;
    for (int i = 0; i < times; ++i)
        w += t;
    same(s * times, w, "*", ctx + " * " + std::to_string(times));
    OP("Str + char");
    const char c = r.range(-128, 127);
    same(s + c, t + c, "+char", ctx + " + " + std::to_string(int(c)));
}
void all(const S& t, const S& pt, const S& qt, Rng& r)
{
    const Str s(t), p(pt), q(qt);
    patterns(s, t, p, pt, q, qt, r);
    edits(s, t, r);
    same(s, t, "operand", "after the operations");
    same(p, pt, "operand", "after the operations");
    same(q, qt, "operand", "after the operations");
    mon::nontrivial(hash2(t, pt, qt));
    SAMPLE("strings", mon::esc(t) << " pattern " << mon::esc(pt) << " replacement " << mon::esc(qt));
}
S around(Rng& r, const S& t) // a pattern that has to do with the text
{
    const int n = t.size();
    switch (r.range(0, 6))
    {
        case 0:
        case 1:
        {
            const int a = r.range(0, n);
            return t.substr(a, r.range(0, 4));
        }
        case 2: return t.substr(r.range(0, n));
        case 3: return t.substr(0, r.range(0, n));
        case 4: return gen_bytes(r, 4);
        case 5:
        {
            S p = t.substr(r.range(0, n), r.range(0, 4));
            if (!p.empty())
                p[r.range(0, p.size() - 1)] ^= 1 << r.range(0, 7);
            return p;
        }
        default: return t;
    }
}
} // namespace
SUITE(random_strings, 12000, 500000)
{
    S t = gen_bytes(rng, 40);
    if (rng.chance(1, 4)) // periodic
    {
        const S u = gen_bytes(rng, 3);
        for (int i = rng.range(0, 8); i > 0; --i)
            t += u;
    }
    all(t, around(rng, t), rng.chance(1, 3) ? around(rng, t) : gen_bytes(rng, 4), rng);
}
SUITE(long_strings, 120, 4000)
{
    S t;
    const S u = gen_bytes(rng, 6), v = gen_bytes(rng, 6);
    for (int i = rng.range(0, 400); i > 0; --i)
        t += rng.chance(3, 4) ? u : v;
    all(t, rng.chance(1, 2) ? u : around(rng, t), v, rng);
}
// long patterns in long texts, found early, late, overlapping and nearly
SUITE(long_patterns, 160, 5000)
{
    S t = gen_bytes(rng, 30), p;
    const S u = gen_bytes(rng, 5);
    const int len = rng.of<int>({7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 600});
    while (int(p.size()) < len)
        p += rng.chance(5, 6) ? u + "a" : S(1, char(rng.range(0, 255)));
    for (int i = rng.range(0, 4); i >= 0; --i)
    {
        S q = p;
        switch (rng.range(0, 3))
        {
            case 0: q[rng.range(0, q.size() - 1)] ^= 1; break;
            case 1: q = q.substr(0, rng.range(0, q.size())); break;
            default:;
        }
        t += rng.chance(1, 2) ? q : u + q + u;
    }
    all(t, p, rng.chance(1, 2) ? p : u, rng);
}
// every text up to length 6 over two letters with every pattern up to length 3 (7 in thorough)
SUITE(small_exhaustive, 128, 256)
{
    const int L = mon::thorough ? 7 : 6;
    // idx encodes a text: a leading 1 bit, then the letters
    auto decode = [](unsigned v)
    {
        S t;
        if (v == 0)
            return t;
        int top = 31;
        while (!(v >> top & 1))
            --top;
        for (int i = top - 1; i >= 0; --i)
            t += char('a' + (v >> i & 1));
        return t;
    };
    if (idx == 0 || idx >= (1u << (L + 1)))
        return;
    const S t = decode(idx);
    const Str s(t);
    for (unsigned pv = 1; pv < 16; ++pv)
    {
        const S pt = decode(pv);
        const Str p(pt);
        for (int a = 0; a <= int(t.size()) + 1; ++a)
            for (int b = -1; b <= int(t.size()) + 1; ++b)
                find_all(s, t, p, pt, a, b);
        for (const char* q : {"", "a", "ab", "bab"})
            patterns(s, t, p, pt, Str(q), q, rng);
        mon::nontrivial(hash2("small", t, pt));
    }
    for (int a = 0; a <= int(t.size()); ++a)
        for (int b = a; b <= int(t.size()); ++b)
            same(s.erase(a, b), t.substr(0, a) + t.substr(b), "erase", mon::esc(t));
    edits(s, t, rng);
}
SUITE(bytes, 256, 256) // every single byte in every role
{
    const S c(1, char(idx));
    for (const S& t : {c, "x" + c, c + "x", "x" + c + "y", c + c, c + "x" + c, " " + c + "\t"})
        for (const S& p : {c, S("x"), c + c, S()})
            all(t, p, c, rng);
}
SUITE(aliased, 1500, 40000)
{
    const S t = gen_bytes(rng, 16);
    Str s(t);
    NOTE(mon::esc(t));
    patterns(s, t, s, t, s, t, rng);
    OP("Str aliased");
    List<Str> l{s, s};
    same(s.join(l), t + t + t, "join itself", mon::esc(t));
    same(l[0].join(l), t + t + t, "join by an element of the list", mon::esc(t));
    if (!t.empty())
    {
        Str u(t);
        u = u + u[0];
        same(u, t + t[0], "+ own char", mon::esc(t));
        u = u.replace(u, u);
        same(u, t + t[0], "replace itself", mon::esc(t));
        if (t[0] != char(-1))
        {
            u = u.strip(u[0]);
            same(u, nstrip(t + t[0], [&](char x) { return x == t[0]; }), "strip own char", mon::esc(t));
        }
    }
    mon::nontrivial(hash2("alias", t, ""));
}
SUITE(join_lists, 2000, 60000)
{
    std::vector<S> v(rng.range(0, 6));
    std::vector<Str> l;
    for (auto& x : v)
    {
        x = gen_bytes(rng, 10);
        l.push_back(Str(x));
    }
    const S sep = gen_bytes(rng, 3);
    OP("Str join");
    same(Str(sep).join(List<Str>(l)), njoin(sep, v), "join", mon::esc(sep) + ".join(" + show(v) + ")");
    // split undoes join where no piece can create the separator
    bool clean = !sep.empty() && !v.empty();
    for (auto& x : v)
        for (char c : x)
            clean = clean && sep.find(c) == S::npos;
    if (clean)
    {
        const auto back = lists(Str(sep).join(List<Str>(l)).split(Str(sep), true));
        // the separator itself may overlap with itself (aaa), which splits elsewhere
        if (nsplit(njoin(sep, v), sep, true) == v)
            EXPECT(back == v, "str-split-of-join", mon::esc(sep) << " " << show(v) << " comes back as " << show(back));
        mon::nontrivial(hash2("join", sep, show(v)));
    }
    // defaults
    const S t = gen_bytes(rng, 20);
    OP("Str split");
    EXPECT(lists(Str(t).split()) == nsplit(t, " ", false), "str-split-default", mon::esc(t));
    mon::evaluated(2);
}
SUITE(very_long_strings, 8, 200) // beyond every 16-bit index
{
    S t;
    const S u = gen_bytes(rng, 9) + "ab", v = gen_bytes(rng, 6);
    const int n = rng.range(33000, 140000), kind = rng.range(0, 2);
    while (int(t.size()) < n)
        t += kind == 0 ? "x" : rng.chance(1, 50) ? u : kind == 1 ? v + "y" : S(rng.range(1, 99), char(rng.range(0, 255)));
    const S p = rng.chance(1, 2) ? u : around(rng, t);
    all(t, p.size() > 2000 ? u : p, v, rng);
    all(t, t.substr(t.size() - rng.range(1, 60)), u, rng);
}
SUITE(every_length, 400, 1200) // every length up to 1600 (4800 in thorough)
{
    for (int n = 4 * int(idx) + 1; n <= 4 * int(idx) + 4; ++n)
    {
        S t;
        const int kind = rng.range(0, 3);
        const S u = gen_bytes(rng, 5) + "a";
        while (int(t.size()) < n)
            t += kind == 0 ? S("a") : kind == 1 ? u : S(1, char(kind == 2 ? rng.range(0, 255) : 'a' + rng.range(0, 2)));
        t.resize(n);
        S p;
        switch (rng.range(0, 3))
        {
            case 0: p = t.substr(n - std::min(n, int(rng.range(1, 5)))); break;
            case 1: p = t.substr(0, rng.range(1, 5)); break;
            case 2: p = around(rng, t); break;
            default: p = t.substr(rng.range(0, n / 2), rng.range(1, n)); // a long pattern
        }
        all(t, p, gen_bytes(rng, 4), rng);
        if (n < 300) // blanks on both sides
            all(S(rng.range(0, n), ' ') + t + S(rng.range(0, n), '\t'), S(n, ' '), "", rng);
    }
}
