// C11: List against a mathematical sequence over random operation histories.
#include "ranges.hpp"
#include "elems.hpp"
using pyincpp::List;
namespace
{
using Model = std::vector<int>;

template <typename T>
void same(const List<T>& l, const Model& m, const char* key, const std::string& ctx)
{
    Model got;
    for (auto it = l.begin(); it != l.end(); ++it)
        got.push_back(As<T>::key(*it));
    EXPECT(got == m && l.size() == int(m.size()) && l.is_empty() == m.empty(), std::string("list-content:") + key,
           "List<" << As<T>::name << "> " << ctx << ": holds " << show_keys(got) << " (size " << l.size() << ") want " << show_keys(m));
    mon::evaluated();
}
template <typename T>
List<T> build(Rng& r, const Model& m) // along one of the constructors or operations
{
    std::vector<T> v;
    for (int k : m)
        v.push_back(As<T>::make(k));
    switch (r.range(0, 5))
    {
        case 0: return List<T>(v);
        case 1: return List<T>(v.begin(), v.end());
        case 2:
        {
            List<T> l;
            for (auto& e : v)
                l += e;
            return l;
        }
        case 3:
        {
            List<T> l;
            l.extend(v.begin(), v.end());
            return l;
        }
        case 4:
            if (v.size() == 3)
                return List<T>{v[0], v[1], v[2]};
            return List<T>(v);
        default:
        {
            if (v.size() > 20000) // one by one at the front is quadratic
                return List<T>(v);
            List<T> l;
            for (std::size_t i = 0; i < v.size(); ++i)
                l.insert(0, v[v.size() - 1 - i]);
            return l;
        }
    }
}
int model_index(const Model& m, int k, long long start, long long stop)
{
    stop = std::min<long long>(stop, m.size());
    for (long long i = start; i < stop; ++i)
        if (m[i] == k)
            return i;
    return -1;
}
template <typename T>
void history(Rng& r, int maxsize, int steps, int keys)
{
    Model m(r.range(0, r.chance(1, 3) ? maxsize : 4));
    for (int& k : m)
        k = r.range(-keys, keys);
    List<T> l = build<T>(r, m);
    const std::string tname = As<T>::name;
    NOTE("List<" << tname << "> " << show_keys(m));
    same(l, m, "construct", "after construction");
    std::uint64_t h = hash_vec(m);
    for (int s = 0; s < steps; ++s)
    {
        const int n = m.size();
        const int op = r.range(0, 24);
        int k = r.range(-keys, keys);
        // the argument is an element of the list itself now and then
        const bool own = n > 0 && r.chance(1, 4);
        const int at = own ? int(r.range(0, n - 1)) : 0;
        if (own)
            k = m[at];
        const T fresh = As<T>::make(k);
        const T& e = own ? std::as_const(l)[at] : fresh;
        const std::string ctx0 = "from " + (n <= 40 ? show_keys(m) : "size " + std::to_string(n));
        std::ostringstream what;
        const char* key = "";
        bool produced = false;
        List<T> p;
        Model pm;
        switch (op)
        {
            case 0:
            case 1:
            case 2:
            {
                if (n >= maxsize)
                    continue;
                key = "+=element";
                what << "+= " << k << (own ? " (own element)" : "");
                NOTE(what.str());
                OP("List += element");
                EXPECT(&(l += e) == &l, "list-return:+=element", what.str());
                m.push_back(k);
                break;
            }
            case 3:
            case 4:
            case 5:
            {
                if (n >= maxsize)
                    continue;
                key = "insert";
                const int i = r.range(-n, n);
                what << "insert(" << i << ", " << k << ")" << (own ? " (own element)" : "");
                NOTE(what.str());
                OP("List insert");
                l.insert(i, e);
                m.insert(m.begin() + (i < 0 ? i + n : i), k);
                break;
            }
            case 6:
            case 7:
            {
                if (n == 0)
                    continue;
                key = "remove";
                const int i = r.range(-n, n - 1);
                what << "remove(" << i << ")";
                NOTE(what.str());
                OP("List remove");
                const T out = l.remove(i);
                const int pos = i < 0 ? i + n : i;
                EXPECT(As<T>::key(out) == m[pos], "list-return:remove", what.str() << " " << ctx0 << " returned " << As<T>::key(out));
                m.erase(m.begin() + pos);
                break;
            }
            case 8:
            {
                if (2 * n > maxsize)
                    continue;
                Model am(r.range(0, 5));
                for (int& x : am)
                    x = r.range(-keys, keys);
                const bool self = r.chance(1, 4);
                key = self ? "+=self" : "+=list";
                List<T> a = build<T>(r, am);
                what << "+= " << (self ? "itself" : show_keys(am));
                NOTE(what.str());
                OP("List += list");
                EXPECT(&(self ? l += l : l += a) == &l, "list-return:+=list", what.str());
                if (self)
                    am = m;
                else
                    same(a, am, "+=list operand", what.str());
                m.insert(m.end(), am.begin(), am.end());
                break;
            }
            case 9:
            {
                if (2 * n > maxsize)
                    continue;
                const bool self = r.chance(1, 3);
                Model am(r.range(0, 5));
                for (int& x : am)
                    x = r.range(-keys, keys);
                std::vector<T> a;
                for (int x : am)
                    a.push_back(As<T>::make(x));
                key = self ? "extend self" : "extend";
                if (self)
                {
                    const int b = r.range(0, n), e2 = r.range(b, n);
                    am.assign(m.begin() + b, m.begin() + e2);
                    what << "extend(own range " << b << ", " << e2 << ")";
                    NOTE(what.str());
                    OP("List extend self");
                    l.extend(l.begin() + b, l.begin() + e2);
                }
                else
                {
                    what << "extend(" << show_keys(am) << ")";
                    NOTE(what.str());
                    OP("List extend");
                    l.extend(a.begin(), a.end());
                }
                m.insert(m.end(), am.begin(), am.end());
                break;
            }
            case 10:
            {
                key = "-=";
                what << "-= " << k << (own ? " (own element)" : "");
                NOTE(what.str());
                OP("List -=");
                EXPECT(&(l -= e) == &l, "list-return:-=", what.str());
                if (auto it = std::find(m.begin(), m.end(), k); it != m.end())
                    m.erase(it);
                break;
            }
            case 11:
            {
                if (n > 3 && !r.chance(1, 3))
                    continue;
                key = "/=";
                what << "/= " << k << (own ? " (own element)" : "");
                NOTE(what.str());
                OP("List /=");
                EXPECT(&(l /= e) == &l, "list-return:/=", what.str());
                std::erase(m, k);
                break;
            }
            case 12:
            {
                key = "erase";
                int a = r.range(0, n), b = r.range(a, std::min<int>(n, a + (r.chance(1, 6) ? n : 3)));
                what << "erase(" << a << ", " << b << ")";
                NOTE(what.str());
                OP("List erase");
                EXPECT(&l.erase(a, b) == &l, "list-return:erase", what.str());
                m.erase(m.begin() + a, m.begin() + b);
                break;
            }
            case 13:
            {
                if (n == 0)
                    continue;
                key = "element assignment";
                const int i = r.range(-n, n - 1);
                what << "[" << i << "] = " << k << (own ? " (own element)" : "");
                NOTE(what.str());
                OP("List element assignment");
                l[i] = e;
                m[i < 0 ? i + n : i] = k;
                break;
            }
            case 14:
                if (!r.chance(1, 6))
                    continue;
                key = "clear";
                what << "clear()";
                NOTE(what.str());
                OP("List clear");
                l.clear();
                m.clear();
                break;
            case 15:
                key = "+element";
                what << "+ " << k;
                NOTE(what.str());
                OP("List + element");
                p = l + e;
                pm = m;
                pm.push_back(k);
                produced = true;
                break;
            case 16:
            {
                key = "+list";
                const bool self = r.chance(1, 4);
                Model am(r.range(0, 5));
                for (int& x : am)
                    x = r.range(-keys, keys);
                if (self)
                    am = m;
                List<T> a = build<T>(r, am);
                what << "+ " << (self ? "itself" : show_keys(am));
                NOTE(what.str());
                OP("List + list");
                p = self ? l + l : l + a;
                pm = m;
                pm.insert(pm.end(), am.begin(), am.end());
                produced = true;
                break;
            }
            case 17:
                key = "-element";
                what << "- " << k;
                NOTE(what.str());
                OP("List - element");
                p = l - e;
                pm = m;
                if (auto it = std::find(pm.begin(), pm.end(), k); it != pm.end())
                    pm.erase(it);
                produced = true;
                break;
            case 18:
                key = "/element";
                what << "/ " << k;
                NOTE(what.str());
                OP("List / element");
                p = l / e;
                pm = m;
                std::erase(pm, k);
                produced = true;
                break;
            case 19:
            {
                key = "copy/move";
                switch (r.range(0, 3))
                {
                    case 0:
                    {
                        what << "copy construction and assignment";
                        List<T> c = l;
                        same(c, m, "copy", ctx0);
                        l = c;
                        break;
                    }
                    case 1:
                    {
                        what << "move construction and assignment";
                        List<T> c = std::move(l);
                        same(c, m, "move", ctx0);
                        same(l, {}, "moved-from", ctx0);
                        l = std::move(c);
                        same(c, {}, "moved-from", ctx0);
                        break;
                    }
                    case 2:
                        what << "self assignment";
                        l = *&l;
                        break;
                    default:
                    {
                        what << "swap";
                        List<T> c = build<T>(r, {k, 1});
                        std::swap(l, c);
                        same(c, m, "swap", ctx0);
                        std::swap(l, c);
                        same(c, {k, 1}, "swap", ctx0);
                    }
                }
                OP("List copy/move");
                NOTE(what.str());
                break;
            }
            default: // queries
            {
                key = "query";
                OP("List queries");
                what << "queries about " << k;
                NOTE(what.str());
                const int cnt = std::count(m.begin(), m.end(), k);
                const int idx = model_index(m, k, 0, INT_MAX);
                EXPECT(l.count(e) == cnt, "list-query:count", ctx0 << " count(" << k << ") = " << l.count(e) << " want " << cnt);
                EXPECT(l.index(e) == idx, "list-query:index", ctx0 << " index(" << k << ") = " << l.index(e) << " want " << idx);
                EXPECT(l.contains(e) == (idx >= 0), "list-query:contains", ctx0 << " contains(" << k << ")");
                auto it = l.find(e);
                EXPECT(idx < 0 ? it == l.end() : it - l.begin() == idx, "list-query:find", ctx0 << " find(" << k << ") at " << (it - l.begin()));
                for (int t = 0; t < 4; ++t)
                {
                    const int a = r.range(0, n + 2);
                    const int b = r.chance(1, 6) ? r.of<int>({INT_MAX, INT_MIN, -1, INT_MAX - 1}) : int(r.range(-2, n + 3));
                    const int want = model_index(m, k, a, b);
                    const int got = l.index(e, a, b);
                    EXPECT(got == want, "list-query:index-range", ctx0 << " index(" << k << ", " << a << ", " << b << ") = " << got << " want " << want);
                    EXPECT(l.contains(e, a, b) == (want >= 0), "list-query:contains-range", ctx0 << " contains(" << k << ", " << a << ", " << b << ")");
                }
                if (n > 0)
                {
                    const int i = r.range(-n, n - 1);
                    EXPECT(As<T>::key(std::as_const(l)[i]) == m[i < 0 ? i + n : i] && As<T>::key(l[i]) == m[i < 0 ? i + n : i], "list-query:[]", ctx0 << " [" << i << "]");
                }
                List<T> o = build<T>(r, m);
                EXPECT(l == o && !(l != o), "list-query:==", ctx0 << " is not equal to the same sequence");
                Model om = m;
                if (n > 0 && r.chance(1, 2))
                    om[r.range(0, n - 1)] += 1;
                else if (n > 0 && r.chance(1, 2))
                    om.pop_back();
                else
                    om.push_back(k);
                o = build<T>(r, om);
                EXPECT(!(l == o) && l != o, "list-query:==", ctx0 << " is equal to " << show_keys(om));
                mon::evaluated(12);
            }
        }
        h = mon::hash_mix(hash_vec(m, h), op);
        if (produced)
        {
            same(p, pm, key, what.str() + " " + ctx0);
            h = hash_vec(pm, h);
        }
        same(l, m, key, what.str() + " " + ctx0);
        if (es.bad)
            check_canaries("list", what.str() + " " + ctx0);
        if (!m.empty())
            mon::nontrivial(mon::hash_mix(h, s));
    }
    SAMPLE(As<T>::name, steps << " operations end in " << show_keys(m));
}
template <typename T>
void with_leak_check(Rng& r, int maxsize, int steps, int keys)
{
    const auto live = es.live;
    history<T>(r, maxsize, steps, keys);
    EXPECT(es.live == live, "list-elements-leaked", "live elements " << es.live - live << " after the history of List<" << As<T>::name << ">");
    check_canaries("list", "end of history");
}
} // namespace
SUITE(int_history, 3000, 120000) { history<int>(rng, 60, 60, rng.of<int>({1, 3, 50})); }
SUITE(str_history, 1200, 40000) { history<pyincpp::Str>(rng, 30, 50, rng.of<int>({1, 3, 20})); }
SUITE(stdstring_history, 1200, 40000) { history<std::string>(rng, 30, 50, rng.of<int>({1, 3, 20})); }
SUITE(bigint_history, 800, 30000) { history<pyincpp::Int>(rng, 30, 50, rng.of<int>({1, 3, 20})); }
SUITE(nested_history, 1200, 40000) { history<List<int>>(rng, 30, 50, rng.of<int>({1, 3, 20})); }
SUITE(elem_nothrow_history, 1200, 40000) { with_leak_check<ElemN>(rng, 40, 50, rng.of<int>({1, 3, 20})); }
SUITE(elem_copyonly_history, 1200, 40000) { with_leak_check<ElemC>(rng, 40, 50, rng.of<int>({1, 3, 20})); }
SUITE(elem_throwing_history, 800, 30000) { with_leak_check<ElemT>(rng, 40, 50, rng.of<int>({1, 3, 20})); }
SUITE(long_history, 24, 400) { history<int>(rng, 5000, 600, 30); }
SUITE(big_lists, 24, 400)
{
    Model m(rng.range(500, 4000));
    for (int& k : m)
        k = rng.range(-50, 50);
    List<int> l = build<int>(rng, m);
    same(l, m, "construct", "big");
    for (int i = 0; i < 5; ++i)
    {
        OP("List += self (big)");
        if (m.size() < 20000)
        {
            l += l;
            const Model c = m;
            m.insert(m.end(), c.begin(), c.end());
            same(l, m, "+=self", "big");
        }
        const int k = rng.range(-50, 50);
        l /= k;
        std::erase(m, k);
        same(l, m, "/=", "big");
        mon::nontrivial(hash_vec(m));
    }
}
// every history of a few operations from a small alphabet
SUITE(small_exhaustive, 144, 144)
{
    // operations on a list over {0,1}; sequences of 4 (quick) or 5 (thorough), the first two fixed by idx
    const int A = 12;
    if (idx >= A * A)
        return;
    auto apply = [](List<int>& l, Model& m, int op)
    {
        const int n = m.size();
        switch (op)
        {
            case 0: l += 0, m.push_back(0); break;
            case 1: l += 1, m.push_back(1); break;
            case 2: l.insert(0, 1), m.insert(m.begin(), 1); break;
            case 3: l.insert(-n, 0), m.insert(m.begin(), 0); break;
            case 4:
                if (n)
                    l.insert(-1, 1), m.insert(m.end() - 1, 1);
                break;
            case 5:
                if (n)
                    l.remove(0), m.erase(m.begin());
                break;
            case 6:
                if (n)
                    l.remove(-1), m.pop_back();
                break;
            case 7:
            {
                l -= 0;
                auto it = std::find(m.begin(), m.end(), 0);
                if (it != m.end())
                    m.erase(it);
                break;
            }
            case 8: l /= 1, std::erase(m, 1); break;
            case 9: l += l, m = [&] { Model d = m; d.insert(d.end(), m.begin(), m.end()); return d; }(); break;
            case 10:
                if (n >= 2)
                    l.erase(1, 2), m.erase(m.begin() + 1);
                break;
            default:
                if (n)
                    l[-1] = 0, m.back() = 0;
        }
    };
    const int depth = mon::thorough ? 5 : 4;
    long total = 1;
    for (int i = 2; i < depth; ++i)
        total *= A;
    OP("List small exhaustive histories");
    for (long t = 0; t < total; ++t)
    {
        List<int> l{0, 1};
        Model m{0, 1};
        apply(l, m, idx / A);
        apply(l, m, idx % A);
        for (long u = t, i = 2; i < depth; ++i, u /= A)
            apply(l, m, u % A);
        same(l, m, "small", "operations " + std::to_string(idx) + "/" + std::to_string(t));
        mon::nontrivial(mon::hash_mix(idx, t));
    }
}
// beyond every 16-bit index
SUITE(very_long_history, 12, 200)
{
    Model m(rng.range(33000, 140000));
    const int keys = rng.of<int>({2, 1000, 1 << 30});
    for (int& k : m)
        k = rng.range(-keys, keys);
    List<int> l = build<int>(rng, m);
    same(l, m, "construct", "very long");
    for (int i = 0; i < 12; ++i)
    {
        const int n = m.size(), at = rng.chance(1, 2) ? int(rng.range(n - 40, n - 1)) : int(rng.range(0, n - 1)), k = rng.chance(1, 3) ? keys / 2 : m[rng.range(0, n - 1)];
        const int b = int(rng.range(at, n));
        const std::string ctx = "size " + std::to_string(n) + " at " + std::to_string(at) + " key " + std::to_string(k);
        NOTE("step " << i << " " << ctx);
        OP("List very long");
        const auto first = std::find(m.begin(), m.end(), k);
        EXPECT(l.index(k) == (first == m.end() ? -1 : first - m.begin()), "list-query:index", ctx << " index = " << l.index(k));
        const auto part = std::find(m.begin() + at, m.begin() + b, k);
        EXPECT(l.index(k, at, b) == (part == m.begin() + b ? -1 : part - m.begin()), "list-query:index-range", ctx << " index to " << b << " = " << l.index(k, at, b));
        EXPECT(l.count(k) == std::count(m.begin(), m.end(), k), "list-query:count", ctx << " count = " << l.count(k));
        EXPECT(l.contains(k) == (first != m.end()) && (l.find(k) - l.begin()) == first - m.begin(), "list-query:contains", ctx);
        EXPECT(l[at] == m[at] && std::as_const(l)[at - n] == m[at], "list-query:[]", ctx);
        EXPECT(l.size() == n, "list-query:size", ctx << " size() = " << l.size());
        switch (rng.range(0, 8))
        {
            case 0: l.insert(at, k), m.insert(m.begin() + at, k); break;
            case 1: EXPECT(l.remove(at) == m[at], "list-query:removed", ctx); m.erase(m.begin() + at); break;
            case 2: l.erase(at, b), m.erase(m.begin() + at, m.begin() + b); break;
            case 3: l -= k; if (first != m.end()) m.erase(first); break;
            case 4: l += k, m.push_back(k); break;
            case 5: l[at] = i, m[at] = i; break;
            case 6: l.insert(at - n, k), m.insert(m.begin() + at, k); break;
            case 7: l.extend(l.begin() + at, l.begin() + b), m = [&] { Model d = m; d.insert(d.end(), m.begin() + at, m.begin() + b); return d; }(); break;
            default:
                if (std::count(m.begin(), m.end(), k) < 2000)
                    l /= k, std::erase(m, k);
        }
        same(l, m, "very-long", ctx);
        mon::evaluated(7);
        mon::nontrivial(hash_vec(m));
        if (m.size() < 33000)
            break;
    }
}
// every size up to 2100 (6000 in thorough), every operation by position at and near both ends and inside
SUITE(every_size, 420, 1200)
{
    for (int n = 5 * int(idx) + 1; n <= 5 * int(idx) + 5; ++n)
    {
        Model m(n);
        for (int i = 0; i < n; ++i)
            m[i] = i;
        const List<int> base(m);
        auto is = [&](const List<int>& l, const Model& w, const char* key, int at)
        {
            EXPECT(l.size() == int(w.size()) && std::equal(l.begin(), l.end(), w.begin(), w.end()), std::string("list-content:every-size-") + key, "size " << n << " at " << at << ": " << show_keys(Model(l.begin(), l.end())));
            mon::evaluated();
        };
        std::vector<int> places;
        for (int k = 0; k < 9; ++k)
            places.push_back(k), places.push_back(n - k);
        places.push_back(n / 2), places.push_back(int(rng.range(0, n))), places.push_back(int(rng.range(0, n)));
        std::sort(places.begin(), places.end());
        places.erase(std::unique(places.begin(), places.end()), places.end());
        OP("List every size");
        for (int at : places)
        {
            if (at < 0 || at > n)
                continue;
            const bool neg = rng.chance(1, 2);
            Model w = m;
            List<int> l = base;
            if (!(neg && at == n))
            {
                l.insert(neg ? at - n : at, -1);
                w.insert(w.begin() + at, -1);
                is(l, w, "insert", at);
            }
            if (at < n)
            {
                EXPECT(base.index(at) == at && base.contains(at) && base.count(at) == 1 && base.find(at) - base.begin() == at, "list-query:index", "size " << n << " at " << at);
                EXPECT(base[at] == at && base[at - n] == at && base.index(at, at) == at && base.index(at, at + 1, n) == -1 && base.index(at, 0, at) == -1, "list-query:[]", "size " << n << " at " << at);
                w = m;
                l = base;
                EXPECT(l.remove(neg ? at - n : at) == at, "list-query:removed", "size " << n << " at " << at);
                w.erase(w.begin() + at);
                is(l, w, "remove", at);
                const int own = rng.of<int>({0, n - 1, at, std::max(0, at - 1), std::min(n - 1, at + 1), int(rng.range(0, n - 1))}); // an element of itself
                w = m;
                l = base;
                l.insert(at, std::as_const(l)[own]);
                w.insert(w.begin() + at, own);
                is(l, w, "insert-own", at);
                l += std::as_const(l)[own], w.push_back(w[own]); // there is room now
                is(l, w, "append-own", own);
                l.insert(at, std::as_const(l)[own]), w.insert(w.begin() + at, int(w[own]));
                is(l, w, "insert-own", at);
                l = base;
                l /= std::as_const(l)[at];
                w = m;
                w.erase(w.begin() + at);
                is(l, w, "remove-own", at);
                l = base;
                l -= std::as_const(l)[at];
                is(l, w, "remove-own", at);
                w = m;
                l = base;
                neg ? void(l -= at) : void(l /= at);
                w.erase(w.begin() + at);
                is(l, w, "remove-element", at);
                const int to = std::min<int>(n, at + rng.range(0, 9));
                w = m;
                l = base;
                l.erase(at, to);
                w.erase(w.begin() + at, w.begin() + to);
                is(l, w, "erase", at);
                l = base;
                l.erase(to, n);
                w = Model(m.begin(), m.begin() + to);
                is(l, w, "erase-tail", to);
                w = m;
                l = base;
                l.extend(l.begin() + at, l.end());
                w.insert(w.end(), m.begin() + at, m.end());
                is(l, w, "extend-itself", at);
            }
        }
        EXPECT(base.index(n) == -1 && !base.contains(n) && base.count(n) == 0 && base.find(n) == base.end(), "list-query:index", "size " << n << " absent");
        Model w = m;
        w.push_back(-1);
        is(base + -1, w, "+", n);
        w = m;
        w.insert(w.end(), m.begin(), m.end());
        is(base + base, w, "+list", n);
        mon::nontrivial(mon::hash_mix(n, 77));
    }
}

// Ranges of every category, single-pass ones too, as arguments.
template <typename T>
static void ranged(Rng& rng, int n)
{
    std::vector<T> values;
    Model m;
    for (int i = 0; i < n; ++i)
        m.push_back(int(rng.range(0, 3 * n))), values.push_back(As<T>::make(m.back()));
    Model w(m.begin(), m.begin() + n / 2);
    const List<T> base(values.begin(), values.begin() + n / 2);
    w.insert(w.end(), m.begin(), m.end());
    ranges::each(values, [&](const char* kind, const auto& first, const auto& last)
                 {
                     OP("List from a range");
                     same(List<T>(first, last), m, "range-constructor", std::string(kind) + " of " + std::to_string(n)); });
    ranges::each(values, [&](const char* kind, const auto& first, const auto& last)
                 {
                     OP("List extend by a range");
                     List<T> l = base;
                     l.extend(first, last);
                     same(l, w, "range-extend", std::string(kind) + " of " + std::to_string(n)); });
    mon::nontrivial(mon::hash_mix(mon::hash_str(As<T>::name, n), m.empty() ? 0 : m[m.size() / 2]));
    mon::evaluated(30);
}
SUITE(range_kinds, 100, 2000)
{
    const int n = idx < 40 ? int(idx) : int(rng.range(0, idx % 10 ? 60 : 1200));
    ranged<int>(rng, n);
    ranged<std::string>(rng, n);
    ranged<pyincpp::Str>(rng, n);
    ranged<pyincpp::Int>(rng, n / 2);
}
