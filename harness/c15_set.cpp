// C15: Set against set theory over random operation histories.
#include "ranges.hpp"
#include "elems.hpp"
#include "set.hpp"
#include <list>
using pyincpp::Set;
namespace
{
using Model = std::vector<int>; // the member keys in ascending order of the values
template <typename T>
void norm(Model& m)
{
    std::sort(m.begin(), m.end(), key_less<T>);
    m.erase(std::unique(m.begin(), m.end()), m.end());
}
bool in(const Model& m, int k)
{
    return std::find(m.begin(), m.end(), k) != m.end();
}
template <typename T>
bool in(const Model& m, int k) // the same, fast for the many
{
    return m.size() < 200 ? in(m, k) : std::binary_search(m.begin(), m.end(), k, key_less<T>);
}
template <typename T>
void same(const Set<T>& s, const Model& m, const char* key, const std::string& ctx)
{
    Model got;
    for (auto it = s.begin(); it != s.end(); ++it)
        got.push_back(As<T>::key(*it));
    EXPECT(got == m && s.size() == int(m.size()) && s.is_empty() == m.empty(), std::string("set-content:") + key,
           "Set<" << As<T>::name << "> " << ctx << ": holds " << show_keys(got) << " (size " << s.size() << ") want " << show_keys(m));
    mon::evaluated();
}
template <typename T>
Set<T> build(Rng& r, const Model& m)
{
    std::vector<T> v;
    for (int k : m)
        v.push_back(As<T>::make(k));
    for (std::size_t i = v.size(); i > 1; --i)
        std::swap(v[i - 1], v[r.range(0, i - 1)]);
    if (!v.empty() && r.chance(1, 3)) // with a duplicate
        v.push_back(v[r.range(0, v.size() - 1)]);
    switch (r.range(0, 4))
    {
        case 0: return Set<T>(v.begin(), v.end());
        case 1: return Set<T>(std::set<T>(v.begin(), v.end()));
        case 2:
        {
            Set<T> s;
            for (auto& e : v)
                s.add(e);
            return s;
        }
        case 3:
        {
            Set<T> s;
            s.extend(v.begin(), v.end());
            return s;
        }
        default:
            if (v.size() == 3)
                return Set<T>{v[0], v[1], v[2]};
            Set<T> s;
            s.extend(v.rbegin(), v.rend());
            return s;
    }
}
template <typename T>
Model gen(Rng& r, int maxn, int keys)
{
    Model m(r.range(0, maxn));
    for (int& k : m)
        k = r.range(-keys, keys);
    norm<T>(m);
    return m;
}
template <typename T>
Model combine(const Model& a, const Model& b, int op) // & | - ^
{
    Model out;
    for (int k : a)
        if (op == 1 || in<T>(b, k) == (op == 0))
            out.push_back(k);
    if (op == 1 || op == 3)
        for (int k : b)
            if (!in<T>(a, k))
                out.push_back(k);
    norm<T>(out);
    return out;
}
const char* OPS[] = {"&", "|", "-", "^"};
template <typename T>
void relations(const Set<T>& a, const Set<T>& b, const Model& ma, const Model& mb, const std::string& ctx)
{
    const bool sub = std::all_of(ma.begin(), ma.end(), [&](int k) { return in<T>(mb, k); });
    const bool sup = std::all_of(mb.begin(), mb.end(), [&](int k) { return in<T>(ma, k); });
    const bool eq = sub && sup;
    OP("Set relations");
    const bool ok = (a == b) == eq && (a != b) == !eq && (a <= b) == sub && (a >= b) == sup && (a < b) == (sub && !sup) && (a > b) == (sup && !sub);
    EXPECT(ok, "set-relation", "Set<" << As<T>::name << "> " << show_keys(ma) << " and " << show_keys(mb) << " " << ctx << ": == " << (a == b) << " <= " << (a <= b) << " < " << (a < b) << " >= " << (a >= b) << " > " << (a > b) << " want subset " << sub << " superset " << sup);
    mon::evaluated(6);
}
template <typename T>
void algebra(const Set<T>& a, const Set<T>& b, const Model& ma, const Model& mb)
{
    const std::string ctx = show_keys(ma) + " with " + show_keys(mb);
    for (int op = 0; op < 4; ++op)
    {
        const Model want = combine<T>(ma, mb, op);
        OP("Set algebra");
        same(op == 0 ? a & b : op == 1 ? a | b : op == 2 ? a - b : a ^ b, want, OPS[op], ctx);
        Set<T> c = a;
        OP("Set in-place algebra");
        EXPECT(&(op == 0 ? c &= b : op == 1 ? c |= b : op == 2 ? c -= b : c ^= b) == &c, "set-return:in-place algebra", ctx);
        same(c, want, (std::string(OPS[op]) + "=").c_str(), ctx);
    }
    same(a, ma, "algebra left operand", ctx);
    same(b, mb, "algebra right operand", ctx);
    relations(a, b, ma, mb, "");
    relations(b, a, mb, ma, "");
    if (!ma.empty() && !mb.empty())
        mon::nontrivial(mon::hash_mix(hash_vec(ma), hash_vec(mb)));
}
template <typename T>
void aliased(const Set<T>& a, const Model& ma)
{
    for (int op = 0; op < 4; ++op)
    {
        const Model want = combine<T>(ma, ma, op);
        OP("Set aliased algebra");
        same(op == 0 ? a & a : op == 1 ? a | a : op == 2 ? a - a : a ^ a, want, (std::string(OPS[op]) + " itself").c_str(), show_keys(ma));
        Set<T> c = a;
        op == 0 ? c &= c : op == 1 ? c |= c : op == 2 ? c -= c : c ^= c;
        same(c, want, (std::string(OPS[op]) + "= itself").c_str(), show_keys(ma));
    }
    relations(a, a, ma, ma, "itself");
}
template <typename T>
void history(Rng& r, int maxn, int steps, int keys)
{
    Model m = gen<T>(r, r.chance(1, 3) ? maxn : 4, keys);
    Set<T> s = build<T>(r, m);
    NOTE("Set<" << As<T>::name << "> " << show_keys(m));
    same(s, m, "construct", "after construction");
    std::uint64_t h = hash_vec(m);
    for (int st = 0; st < steps; ++st)
    {
        const int n = m.size();
        int k = r.range(-keys, keys);
        const bool own = n > 0 && r.chance(1, 4);
        const int at = own ? int(r.range(0, n - 1)) : 0;
        if (own)
            k = m[at];
        const T fresh = As<T>::make(k);
        const T& e = own ? *std::next(s.begin(), at) : fresh;
        const bool had = in(m, k);
        const std::string ctx0 = " from " + show_keys(m);
        std::ostringstream what;
        const char* key = "";
        const int op = r.range(0, 15);
        switch (op)
        {
            case 0:
            case 1:
            case 2:
            {
                key = "add";
                what << "add(" << k << ")" << (own ? " (own element)" : "");
                NOTE(what.str());
                OP("Set add");
                const bool ret = s.add(e);
                EXPECT(ret == !had, "set-return:add", what.str() << " returned " << ret << ctx0);
                if (!had)
                    m.push_back(k), norm<T>(m);
                break;
            }
            case 3:
            case 4:
            {
                key = "remove";
                what << "remove(" << k << ")" << (own ? " (own element)" : "");
                NOTE(what.str());
                OP("Set remove");
                const bool ret = s.remove(e);
                EXPECT(ret == had, "set-return:remove", what.str() << " returned " << ret << ctx0);
                std::erase(m, k);
                break;
            }
            case 5:
            {
                if (n == 0)
                    continue;
                key = "pop";
                what << "pop()";
                NOTE(what.str());
                OP("Set pop");
                const T out = s.pop();
                const int got = As<T>::key(out);
                EXPECT(in(m, got), "set-return:pop", "returned " << got << ctx0);
                std::erase(m, got);
                break;
            }
            case 6:
            {
                key = "extend";
                const Model am = gen<T>(r, 6, keys);
                what << "extend(" << show_keys(am) << ")";
                NOTE(what.str());
                OP("Set extend");
                if (r.chance(1, 4))
                    s.extend(s.begin(), s.end());
                else
                {
                    std::list<T> a;
                    for (int x : am)
                        a.push_front(As<T>::make(x));
                    s.extend(a.begin(), a.end());
                    m = combine<T>(m, am, 1);
                }
                break;
            }
            case 7:
                if (!r.chance(1, 8))
                    continue;
                key = "clear";
                what << "clear()";
                NOTE(what.str());
                OP("Set clear");
                s.clear();
                m.clear();
                break;
            case 8:
            case 9:
            {
                const int o = r.range(0, 3);
                Model am = gen<T>(r, r.chance(1, 4) ? 2 * n + 1 : 8, keys);
                if (o == 0 && r.chance(3, 4)) // keep something
                    am = combine<T>(am, Model(m.begin(), m.begin() + n * 3 / 4), 1);
                if (o == 1 && n + int(am.size()) > maxn)
                    continue;
                key = OPS[o];
                what << OPS[o] << "= " << show_keys(am);
                NOTE(what.str());
                Set<T> a = build<T>(r, am);
                OP("Set in-place algebra");
                o == 0 ? s &= a : o == 1 ? s |= a : o == 2 ? s -= a : s ^= a;
                same(a, am, "operand", what.str());
                m = combine<T>(m, am, o);
                break;
            }
            case 10:
            {
                key = "algebra";
                what << "algebra";
                Model am = gen<T>(r, 8, keys);
                switch (r.range(0, 7))
                {
                    case 4: // nearly the same
                        am = m;
                        for (int t = r.range(1, 2); t > 0 && !am.empty(); --t)
                            am[r.chance(1, 2) ? r.range(0, am.size() - 1) : r.chance(1, 2) ? std::max<int>(0, am.size() - 1 - r.range(0, 2)) : std::min<int>(am.size() - 1, r.range(0, 2))] = r.range(-keys, keys);
                        norm<T>(am);
                        break;
                    case 5: am = gen<T>(r, 2 * n + 1, keys); break; // of about the same size
                    case 6: // all above or all below
                        for (int& x : am)
                            x = r.chance(1, 2) ? keys + 1 + r.range(0, keys) : -keys - 1 - r.range(0, keys);
                        norm<T>(am);
                        break;
                    case 0: am = combine<T>(am, m, 1); break;                                    // superset
                    case 1: am = Model(m.begin() + (n + 1) / 3, m.end()); break;                  // subset
                    case 2: am = m; break;
                    default:;
                }
                NOTE("algebra with " << show_keys(am));
                algebra(s, build<T>(r, am), m, am);
                break;
            }
            case 11:
                key = "aliased";
                what << "aliased algebra";
                aliased(s, m);
                break;
            case 12:
            {
                key = "copy/move";
                what << "copy or move";
                NOTE(what.str());
                OP("Set copy/move");
                switch (r.range(0, 3))
                {
                    case 0:
                    {
                        Set<T> c = s;
                        same(c, m, "copy", ctx0);
                        c.add(As<T>::make(keys + 1));
                        same(s, m, "changed through a copy", ctx0);
                        c.remove(As<T>::make(keys + 1));
                        s = c;
                        break;
                    }
                    case 1:
                    {
                        Set<T> c = std::move(s);
                        same(c, m, "move", ctx0);
                        same(s, {}, "moved-from", ctx0);
                        s = std::move(c);
                        break;
                    }
                    case 2: s = *&s; break;
                    default:
                    {
                        Set<T> c;
                        std::swap(s, c);
                        same(c, m, "swap", ctx0);
                        std::swap(s, c);
                    }
                }
                break;
            }
            default:
            {
                key = "query";
                what << "queries about " << k;
                NOTE(what.str());
                OP("Set queries");
                EXPECT(s.contains(e) == had, "set-query:contains", "contains(" << k << ") = " << s.contains(e) << ctx0);
                auto it = s.find(e);
                EXPECT((it != s.end()) == had && (!had || As<T>::key(*it) == k), "set-query:find", "find(" << k << ")" << ctx0);
                if (n > 0)
                {
                    EXPECT(As<T>::key(s.min()) == m.front(), "set-query:min", "min() = " << As<T>::key(s.min()) << ctx0);
                    EXPECT(As<T>::key(s.max()) == m.back(), "set-query:max", "max() = " << As<T>::key(s.max()) << ctx0);
                }
                mon::evaluated(4);
            }
        }
        h = mon::hash_mix(hash_vec(m, h), op);
        same(s, m, key, what.str() + ctx0);
        if (es.bad)
            check_canaries("set", what.str() + ctx0);
        if (!m.empty())
            mon::nontrivial(mon::hash_mix(h, st));
    }
    SAMPLE(As<T>::name, steps << " operations end in " << show_keys(m));
}
template <typename T>
void counted(Rng& r, int maxn, int steps, int keys)
{
    const auto live = es.live;
    history<T>(r, maxn, steps, keys);
    EXPECT(es.live == live, "set-elements-leaked", "live elements " << es.live - live << " after the history of Set<" << As<T>::name << ">");
    check_canaries("set", "end of history");
}
} // namespace
SUITE(int_history, 2500, 80000) { history<int>(rng, 60, 50, rng.of<int>({2, 6, 40})); }
SUITE(str_history, 900, 30000) { history<pyincpp::Str>(rng, 30, 40, rng.of<int>({2, 6, 40})); }
SUITE(stdstring_history, 900, 30000) { history<std::string>(rng, 30, 40, rng.of<int>({2, 6, 40})); }
SUITE(bigint_history, 600, 20000) { history<pyincpp::Int>(rng, 30, 40, rng.of<int>({2, 6, 40})); }
SUITE(fraction_history, 600, 20000) { history<pyincpp::Fraction>(rng, 30, 40, rng.of<int>({2, 6, 40})); }
SUITE(nested_history, 600, 20000) { history<pyincpp::List<int>>(rng, 30, 40, rng.of<int>({2, 6, 40})); }
SUITE(elem_nothrow_history, 900, 30000) { counted<ElemN>(rng, 30, 40, rng.of<int>({2, 6, 40})); }
SUITE(elem_copyonly_history, 900, 30000) { counted<ElemC>(rng, 30, 40, rng.of<int>({2, 6, 40})); }
SUITE(elem_throwing_history, 400, 10000) { counted<ElemT>(rng, 30, 40, rng.of<int>({2, 6, 40})); }
SUITE(long_history, 60, 1000) { history<int>(rng, 1500, 80, 1500); }
// thousands of elements on both sides
SUITE(huge_algebra, 8, 200)
{
    const int keys = rng.of<int>({2000, 6000, 100000});
    const Model a = gen<int>(rng, 4000, keys);
    Model b = gen<int>(rng, 4000, keys);
    switch (rng.range(0, 4))
    {
        case 0: b = a; break;
        case 1: b = Model(a.begin() + a.size() / 3, a.end()); break;
        case 2:
            b = a;
            if (!b.empty())
                b[rng.range(0, b.size() - 1)] = rng.range(-keys, keys);
            norm<int>(b);
            break;
        case 3: b.resize(std::min<std::size_t>(b.size(), rng.range(0, 9))); break;
        default:;
    }
    const Set<int> sa = build<int>(rng, a), sb = build<int>(rng, b);
    algebra(sa, sb, a, b);
    algebra(sb, sa, b, a);
    aliased(sa, a);
}
// all pairs of subsets of a universe of 5 (6 in thorough) elements
SUITE(all_pairs, 64, 64)
{
    const int U = mon::thorough ? 6 : 5;
    if (idx >= (1u << U))
        return;
    auto subset = [&](unsigned bits)
    {
        Model m;
        for (int i = 0; i < U; ++i)
            if (bits >> i & 1)
                m.push_back(i - 2);
        return m;
    };
    const Model a = subset(idx);
    const Set<int> sa(a.begin(), a.end());
    aliased(sa, a);
    for (unsigned j = 0; j < (1u << U); ++j)
    {
        const Model b = subset(j);
        algebra(sa, Set<int>(b.begin(), b.end()), a, b);
    }
}
SUITE(very_long, 4, 60) // beyond every 16-bit count
{
    const int keys = 1 << 30, n = rng.range(33000, 80000);
    Model a, b;
    for (int i = 0; i < n; ++i)
    {
        const int k = int(rng.range(-keys, keys));
        if (rng.chance(2, 3))
            a.push_back(k);
        if (rng.chance(2, 3))
            b.push_back(k);
    }
    norm<int>(a), norm<int>(b);
    const Set<int> sa = build<int>(rng, a), sb = build<int>(rng, b);
    algebra(sa, sb, a, b);
    aliased(sa, a);
}
SUITE(every_size, 300, 900) // every size up to 1200 (3600 in thorough), the other set almost the same, shifted, nested or apart
{
    for (int n = 4 * int(idx) + 1; n <= 4 * int(idx) + 4; ++n)
    {
        Model a(n), b;
        for (int i = 0; i < n; ++i)
            a[i] = 2 * i;
        b = a;
        switch (rng.range(0, 6))
        {
            case 0: b.back() += 1; break;
            case 1: b.front() -= 1; break;
            case 2: for (int& k : b) k += 2; break;
            case 3: b.erase(b.begin() + rng.range(0, n - 1)); break;
            case 4: for (int& k : b) k += 2 * n; break;
            case 5: for (int& k : b) k += 1; break;
            default: b.resize(rng.range(0, n));
        }
        norm<int>(b);
        const Set<int> sa = build<int>(rng, a), sb = build<int>(rng, b);
        algebra(sa, sb, a, b);
        algebra(sb, sa, b, a);
        Set<int> c = sa;
        Model m = a;
        OP("Set every size");
        for (int k : {-1, 0, 2 * n - 2, 2 * n, n, int(rng.range(0, 2 * n))})
        {
            EXPECT(c.contains(k) == in(m, k) && (c.find(k) != c.end()) == in(m, k), "set-query:contains", "size " << n << " element " << k);
            if (in(m, k))
                m.erase(std::find(m.begin(), m.end(), k)), c.remove(k);
            else
                m.push_back(k), norm<int>(m), c.add(k);
            same(c, m, "every-size", "size " + std::to_string(n) + " element " + std::to_string(k));
            Set<int> o = sa; // its own elements
            auto it = o.begin();
            std::advance(it, std::min(std::max(0, k / 2), n - 1));
            const int own = *it;
            EXPECT(!o.add(*it), "set-return:add", "size " << n << " own element " << own);
            same(o, a, "every-size-add-own", "size " + std::to_string(n) + " element " + std::to_string(own));
            EXPECT(o.remove(*it) && !o.contains(own) && o.size() == n - 1, "set-return:remove", "size " << n << " own element " << own);
            EXPECT(o.add(own), "set-return:add", "size " << n << " element again " << own);
            same(o, a, "every-size-again", "size " + std::to_string(n) + " element " + std::to_string(own));
        }
    }
}

// Ranges of every category, single-pass ones too, as arguments.
template <typename T>
static void ranged(Rng& rng, int n)
{
    std::vector<T> values;
    Model m;
    for (int i = 0; i < n; ++i)
        m.push_back(int(rng.range(0, 3 * n))), values.push_back(As<T>::make(m.back()));
    Model half(m.begin(), m.begin() + n / 2);
    norm<T>(half), norm<T>(m);
    const Set<T> base(values.begin(), values.begin() + n / 2);
    Set<T> shifted;
    Model w = m;
    for (int k : half)
        shifted.add(As<T>::make(k + n)), w.push_back(k + n);
    norm<T>(w);
    ranges::each(values, [&](const char* kind, const auto& first, const auto& last)
                 {
                     OP("Set from a range");
                     same(Set<T>(first, last), m, "range-constructor", std::string(kind) + " of " + std::to_string(n)); });
    ranges::each(values, [&](const char* kind, const auto& first, const auto& last)
                 {
                     OP("Set extend by a range");
                     Set<T> s = base;
                     s.extend(first, last);
                     same(s, m, "range-extend", std::string(kind) + " of " + std::to_string(n)); });
    ranges::each(values, [&](const char* kind, const auto& first, const auto& last)
                 {
                     OP("Set extend by a range");
                     Set<T> s = shifted;
                     s.extend(first, last);
                     same(s, w, "range-extend", std::string(kind) + " of " + std::to_string(n)); });
    mon::nontrivial(mon::hash_mix(mon::hash_str(As<T>::name, n), m.empty() ? 0 : m[m.size() / 2]));
    mon::evaluated(30);
}
SUITE(range_kinds, 100, 2000)
{
    const int n = idx < 40 ? int(idx) : int(rng.range(0, idx % 10 ? 60 : 1200));
    ranged<int>(rng, n);
    ranged<std::string>(rng, n);
    ranged<pyincpp::Str>(rng, n);
    ranged<pyincpp::Int>(rng, n / 2);
}
// A set of n elements with one of up to six: its first, last, middle, and elements below, between and above, in every combination.
template <typename T>
static void lopsided(Rng& rng, int n)
{
    Model a(n);
    for (int i = 0; i < n; ++i)
        a[i] = 2 * i;
    norm<T>(a);
    const Set<T> sa = build<T>(rng, a);
    const int few[] = {a.front(), a.back(), a[n / 2], -1, 2 * (n / 2) + 1, 2 * n + 1};
    for (unsigned bits = 0; bits < 64; ++bits)
    {
        Model b;
        for (int i = 0; i < 6; ++i)
            if (bits >> i & 1)
                b.push_back(few[i]);
        norm<T>(b);
        const Set<T> sb(build<T>(rng, b));
        relations(sa, sb, a, b, "lopsided");
        relations(sb, sa, b, a, "lopsided");
        for (int op = 0; op < 4; ++op)
        {
            OP("Set algebra");
            const std::string ctx = std::to_string(n) + " elements and " + show_keys(b);
            same(op == 0 ? sa & sb : op == 1 ? sa | sb : op == 2 ? sa - sb : sa ^ sb, combine<T>(a, b, op), OPS[op], ctx);
            same(op == 0 ? sb & sa : op == 1 ? sb | sa : op == 2 ? sb - sa : sb ^ sa, combine<T>(b, a, op), OPS[op], ctx);
            if (bits % 7 == n % 7u)
            {
                Set<T> c = sa, d = sb;
                op == 0 ? c &= sb : op == 1 ? c |= sb : op == 2 ? c -= sb : c ^= sb;
                op == 0 ? d &= sa : op == 1 ? d |= sa : op == 2 ? d -= sa : d ^= sa;
                same(c, combine<T>(a, b, op), OPS[op], ctx + " in place");
                same(d, combine<T>(b, a, op), OPS[op], ctx + " in place");
            }
        }
        if (!b.empty())
            mon::nontrivial(mon::hash_mix(mon::hash_str(As<T>::name, n), bits));
    }
}
SUITE(lopsided, 130, 600)
{
    lopsided<int>(rng, idx < 100 ? int(idx) + 1 : int(rng.range(100, mon::thorough ? 3000 : 500)));
    if (idx < 70)
        lopsided<pyincpp::Str>(rng, int(idx) + 1);
}
