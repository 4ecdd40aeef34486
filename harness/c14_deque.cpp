// C14: Deque against a mathematical double-ended sequence over random operation histories.
#include "ranges.hpp"
#include "deque.hpp"
#include "elems.hpp"
#include <deque>
#include <list>
using pyincpp::Deque;
namespace
{
using Model = std::vector<int>;
template <typename T>
void same(const Deque<T>& d, const Model& m, const char* key, const std::string& ctx)
{
    Model got;
    for (auto it = d.begin(); it != d.end(); ++it)
        got.push_back(As<T>::key(*it));
    EXPECT(got == m && d.size() == int(m.size()) && d.is_empty() == m.empty(), std::string("deque-content:") + key,
           "Deque<" << As<T>::name << "> " << ctx << ": holds " << show_keys(got) << " (size " << d.size() << ") want " << show_keys(m));
    if (!m.empty())
        EXPECT(As<T>::key(d.front()) == m.front() && As<T>::key(d.back()) == m.back(), std::string("deque-ends:") + key, "Deque<" << As<T>::name << "> " << ctx);
    mon::evaluated();
}
template <typename T>
Deque<T> build(Rng& r, const Model& m)
{
    std::vector<T> v;
    for (int k : m)
        v.push_back(As<T>::make(k));
    switch (r.range(0, 5))
    {
        case 0: return Deque<T>(v.begin(), v.end());
        case 1: return Deque<T>(std::deque<T>(v.begin(), v.end()));
        case 2:
        {
            Deque<T> d;
            for (auto& e : v)
                d.push_back(e);
            return d;
        }
        case 3:
        {
            Deque<T> d;
            for (auto it = v.rbegin(); it != v.rend(); ++it)
                d.push_front(*it);
            return d;
        }
        case 4:
        {
            Deque<T> d;
            d.extend_front(v.begin(), v.end());
            return d;
        }
        default:
            if (v.size() == 2)
                return Deque<T>{v[0], v[1]};
            Deque<T> d;
            d.extend_back(v.begin(), v.end());
            return d;
    }
}
template <typename T>
void history(Rng& r, int maxsize, int steps, int keys)
{
    Model m(r.range(0, r.chance(1, 3) ? maxsize : 4));
    for (int& k : m)
        k = r.range(-keys, keys);
    Deque<T> d = build<T>(r, m);
    NOTE("Deque<" << As<T>::name << "> " << show_keys(m));
    same(d, m, "construct", "after construction");
    std::uint64_t h = hash_vec(m);
    const int bias = r.range(0, 3); // let the content wander in one direction
    for (int s = 0; s < steps; ++s)
    {
        const int n = m.size();
        int k = r.range(-keys, keys);
        const bool own = n > 0 && r.chance(1, 4);
        const int at = own ? int(r.range(0, n - 1)) : 0;
        if (own)
            k = m[at];
        const T fresh = As<T>::make(k);
        const T& e = own ? (r.chance(1, 2) && at == 0 ? std::as_const(d).front() : std::as_const(d)[at]) : fresh;
        const std::string ctx0 = " from " + (n <= 40 ? show_keys(m) : "size " + std::to_string(n));
        std::ostringstream what;
        const char* key = "";
        int op = r.range(0, 17);
        if (bias == 1 && r.chance(1, 3))
            op = r.of<int>({0, 6});
        if (bias == 2 && r.chance(1, 3))
            op = r.of<int>({2, 4});
        switch (op)
        {
            case 0:
            case 1:
                if (n >= maxsize)
                    continue;
                key = "push_back";
                what << "push_back(" << k << ")" << (own ? " (own element)" : "");
                NOTE(what.str());
                OP("Deque push_back");
                d.push_back(e);
                m.push_back(k);
                break;
            case 2:
            case 3:
                if (n >= maxsize)
                    continue;
                key = "push_front";
                what << "push_front(" << k << ")" << (own ? " (own element)" : "");
                NOTE(what.str());
                OP("Deque push_front");
                d.push_front(e);
                m.insert(m.begin(), k);
                break;
            case 4:
            case 5:
            {
                if (n == 0)
                    continue;
                key = "pop_back";
                what << "pop_back()";
                NOTE(what.str());
                OP("Deque pop_back");
                const T out = d.pop_back();
                EXPECT(As<T>::key(out) == m.back(), "deque-return:pop_back", "returned " << As<T>::key(out) << ctx0);
                m.pop_back();
                break;
            }
            case 6:
            case 7:
            {
                if (n == 0)
                    continue;
                key = "pop_front";
                what << "pop_front()";
                NOTE(what.str());
                OP("Deque pop_front");
                const T out = d.pop_front();
                EXPECT(As<T>::key(out) == m.front(), "deque-return:pop_front", "returned " << As<T>::key(out) << ctx0);
                m.erase(m.begin());
                break;
            }
            case 8:
            case 9:
            {
                if (2 * n > maxsize)
                    continue;
                const bool back = op == 8;
                const int kind = r.range(0, 4);
                Model am;
                if (kind <= 1) // its own elements
                {
                    const int b = r.range(0, n), e2 = r.chance(1, 2) ? n : int(r.range(b, n));
                    if (kind == 0)
                    {
                        am.assign(m.begin() + b, m.begin() + e2);
                        what << (back ? "extend_back" : "extend_front") << "(own range " << b << ", " << e2 << ")";
                        NOTE(what.str());
                        OP("Deque extend self");
                        back ? d.extend_back(d.begin() + b, d.begin() + e2) : d.extend_front(d.begin() + b, d.begin() + e2);
                    }
                    else
                    {
                        am.assign(m.rbegin() + b, m.rbegin() + e2);
                        what << (back ? "extend_back" : "extend_front") << "(own reversed range " << b << ", " << e2 << ")";
                        NOTE(what.str());
                        OP("Deque extend self reversed");
                        back ? d.extend_back(d.rbegin() + b, d.rbegin() + e2) : d.extend_front(d.rbegin() + b, d.rbegin() + e2);
                    }
                }
                else
                {
                    am.resize(r.range(0, r.chance(1, 8) ? maxsize / 2 : 5));
                    for (int& x : am)
                        x = r.range(-keys, keys);
                    what << (back ? "extend_back" : "extend_front") << show_keys(am);
                    NOTE(what.str());
                    OP("Deque extend");
                    if (kind == 2)
                    {
                        std::list<T> a;
                        for (int x : am)
                            a.push_back(As<T>::make(x));
                        back ? d.extend_back(a.begin(), a.end()) : d.extend_front(a.begin(), a.end());
                    }
                    else
                    {
                        Deque<T> a = build<T>(r, am);
                        back ? d.extend_back(a.begin(), a.end()) : d.extend_front(a.begin(), a.end());
                        same(a, am, "extend operand", what.str());
                    }
                }
                key = back ? "extend_back" : "extend_front";
                m.insert(back ? m.end() : m.begin(), am.begin(), am.end());
                break;
            }
            case 10:
            case 11:
            {
                const bool left = op == 10;
                const int k2 = r.chance(1, 4) ? r.of<int>({INT_MIN, INT_MAX, INT_MIN + 1, n, -n, n - 1, 1 - n}) : int(r.range(-2 * n - 1, 2 * n + 1));
                key = left ? "<<=" : ">>=";
                what << key << " " << k2;
                NOTE(what.str());
                OP("Deque rotate");
                EXPECT(&(left ? d <<= k2 : d >>= k2) == &d, "deque-return:rotate", what.str());
                Model w(n);
                for (int i = 0; i < n; ++i)
                    w[((i + (left ? -1LL : 1LL) * k2) % n + n) % n] = m[i];
                m = w;
                break;
            }
            case 12:
                key = "reverse";
                what << "reverse()";
                NOTE(what.str());
                OP("Deque reverse");
                EXPECT(&d.reverse() == &d, "deque-return:reverse", what.str());
                std::reverse(m.begin(), m.end());
                break;
            case 13:
            {
                if (n == 0)
                    continue;
                key = "assignment";
                const int i = r.range(-n, n - 1);
                switch (r.range(0, 2))
                {
                    case 0:
                        what << "[" << i << "] = " << k;
                        d[i] = e;
                        m[i < 0 ? i + n : i] = k;
                        break;
                    case 1:
                        what << "front() = " << k;
                        d.front() = e;
                        m.front() = k;
                        break;
                    default:
                        what << "back() = " << k;
                        d.back() = e;
                        m.back() = k;
                }
                OP("Deque element assignment");
                NOTE(what.str());
                break;
            }
            case 14:
                if (!r.chance(1, 6))
                    continue;
                key = "clear";
                what << "clear()";
                NOTE(what.str());
                OP("Deque clear");
                d.clear();
                m.clear();
                break;
            case 15:
                key = "copy/move";
                what << "copy or move";
                NOTE(what.str());
                OP("Deque copy/move");
                switch (r.range(0, 3))
                {
                    case 0:
                    {
                        Deque<T> c = d;
                        same(c, m, "copy", ctx0);
                        d = c;
                        break;
                    }
                    case 1:
                    {
                        Deque<T> c = std::move(d);
                        same(c, m, "move", ctx0);
                        same(d, {}, "moved-from", ctx0);
                        d = std::move(c);
                        break;
                    }
                    case 2: d = *&d; break;
                    default:
                    {
                        Deque<T> c = build<T>(r, {k, 1});
                        std::swap(d, c);
                        same(c, m, "swap", ctx0);
                        std::swap(d, c);
                    }
                }
                break;
            default:
            {
                key = "query";
                what << "queries";
                NOTE(what.str());
                OP("Deque queries");
                if (n > 0)
                {
                    const int i = r.range(-n, n - 1);
                    EXPECT(As<T>::key(std::as_const(d)[i]) == m[i < 0 ? i + n : i] && As<T>::key(d[i]) == m[i < 0 ? i + n : i], "deque-query:[]", "[" << i << "]" << ctx0);
                    EXPECT(As<T>::key(d.front()) == m.front() && As<T>::key(d.back()) == m.back(), "deque-query:ends", ctx0);
                    EXPECT(&d.front() == &d[0] && &d.back() == &d[-1], "deque-query:ends", "front() and back() are not the elements themselves" << ctx0);
                }
                Deque<T> o = build<T>(r, m);
                EXPECT(d == o && !(d != o), "deque-query:==", "is not equal to the same sequence" << ctx0);
                Model om = m;
                if (n > 0 && r.chance(1, 2))
                    om[r.range(0, n - 1)] += 1;
                else if (n > 0 && r.chance(1, 2))
                    om.pop_back();
                else
                    om.push_back(k);
                o = build<T>(r, om);
                EXPECT(!(d == o) && d != o, "deque-query:==", "is equal to " << show_keys(om) << ctx0);
                mon::evaluated(4);
            }
        }
        h = mon::hash_mix(hash_vec(m, h), op);
        same(d, m, key, what.str() + ctx0);
        if (es.bad)
            check_canaries("deque", what.str() + ctx0);
        if (!m.empty())
            mon::nontrivial(mon::hash_mix(h, s));
    }
    SAMPLE(As<T>::name, steps << " operations end in " << show_keys(m));
}
template <typename T>
void counted(Rng& r, int maxsize, int steps, int keys)
{
    const auto live = es.live;
    history<T>(r, maxsize, steps, keys);
    EXPECT(es.live == live, "deque-elements-leaked", "live elements " << es.live - live << " after the history of Deque<" << As<T>::name << ">");
    check_canaries("deque", "end of history");
}
} // namespace
SUITE(int_history, 3000, 100000) { history<int>(rng, 60, 60, rng.of<int>({1, 3, 50})); }
SUITE(str_history, 1200, 40000) { history<pyincpp::Str>(rng, 40, 50, 20); }
SUITE(stdstring_history, 1200, 40000) { history<std::string>(rng, 40, 50, 20); }
SUITE(bigint_history, 600, 20000) { history<pyincpp::Int>(rng, 40, 50, 20); }
SUITE(nested_history, 1000, 30000) { history<pyincpp::List<int>>(rng, 40, 50, 20); }
SUITE(elem_nothrow_history, 1200, 40000) { counted<ElemN>(rng, 40, 50, 20); }
SUITE(elem_copyonly_history, 1200, 40000) { counted<ElemC>(rng, 40, 50, 20); }
SUITE(elem_throwing_history, 600, 20000) { counted<ElemT>(rng, 40, 50, 20); }
// many blocks of 512 bytes
SUITE(long_int_history, 120, 1500) { history<int>(rng, 3000, 250, 1000); }
SUITE(long_string_history, 40, 600) { history<std::string>(rng, 400, 150, 1000); }
SUITE(long_elem_history, 40, 600) { counted<ElemN>(rng, 400, 150, 1000); }
SUITE(queue_use, 60, 800) // a queue wandering through memory
{
    Deque<int> d;
    Model m;
    int next = 0;
    const bool forward = rng.chance(1, 2);
    OP("Deque queue use");
    for (int i = 0; i < 6000; ++i)
    {
        if (m.size() < 20 || rng.chance(1, 2))
        {
            forward ? d.push_back(next) : d.push_front(next);
            m.insert(forward ? m.end() : m.begin(), next++);
        }
        else
        {
            const int got = forward ? d.pop_front() : d.pop_back();
            const int want = forward ? m.front() : m.back();
            EXPECT(got == want, "deque-queue", "step " << i << ": got " << got << " want " << want);
            m.erase(forward ? m.begin() : m.end() - 1);
        }
        if (i % 500 == 0)
            same(d, m, "queue", "step " + std::to_string(i));
        mon::evaluated();
    }
    mon::nontrivial(mon::hash_mix(hash_vec(m), forward));
}
SUITE(self_extension, 240, 3000) // every size around the block size, both ends
{
    const int n = idx < 140 ? int(idx) : int(rng.range(140, 1500));
    Model m(n);
    for (int& k : m)
        k = rng.range(0, 1000);
    for (int back = 0; back < 2; ++back)
    {
        Deque<int> d = build<int>(rng, m);
        Model w = m;
        w.insert(w.end(), m.begin(), m.end());
        OP("Deque extend itself");
        back ? d.extend_back(d.begin(), d.end()) : d.extend_front(d.begin(), d.end());
        same(d, w, back ? "extend_back itself" : "extend_front itself", "size " + std::to_string(n));
        Deque<std::string> ds = build<std::string>(rng, m);
        back ? ds.extend_back(ds.begin(), ds.end()) : ds.extend_front(ds.begin(), ds.end());
        same(ds, w, back ? "extend_back itself" : "extend_front itself", "size " + std::to_string(n));
    }
    mon::nontrivial(hash_vec(m));
}
SUITE(very_long, 8, 120) // beyond every 16-bit index
{
    Model m(rng.range(33000, 140000));
    for (int& k : m)
        k = rng.range(-1000, 1000);
    Deque<int> d = build<int>(rng, m);
    same(d, m, "construct", "very long");
    for (int i = 0; i < 8; ++i)
    {
        const int n = m.size(), rot = rng.chance(1, 4) ? int(rng.range(INT_MIN, INT_MAX)) : int(rng.range(-n - 3, n + 3)), part = int(rng.range(0, 40000));
        const std::string ctx = "size " + std::to_string(n) + " rotate " + std::to_string(rot);
        NOTE("step " << i << " " << ctx);
        OP("Deque very long");
        const long long left = ((rot % (long long)n) + n) % n;
        switch (rng.range(0, 5))
        {
            case 0: d <<= rot; std::rotate(m.begin(), m.begin() + left, m.end()); break;
            case 1: d >>= rot; std::rotate(m.begin(), m.begin() + (n - left) % n, m.end()); break;
            case 2: d.reverse(); std::reverse(m.begin(), m.end()); break;
            case 3:
            {
                const Model u(m.begin(), m.begin() + std::min(part, n));
                d.extend_front(u.begin(), u.end()); // keeps the order
                m.insert(m.begin(), u.begin(), u.end());
                break;
            }
            case 4:
            {
                const Model u(m.begin(), m.begin() + std::min(part, n));
                d.extend_back(u.begin(), u.end());
                m.insert(m.end(), u.begin(), u.end());
                break;
            }
            default:
                for (int k = 0; k < part && m.size() > 1; ++k)
                {
                    EXPECT(d.pop_back() == m.back(), "deque-queue", ctx);
                    m.pop_back();
                }
        }
        same(d, m, "very-long", ctx);
        mon::nontrivial(hash_vec(m));
    }
}
SUITE(every_size, 420, 1200) // every size up to 2100 (6000 in thorough)
{
    for (int n = 5 * int(idx) + 1; n <= 5 * int(idx) + 5; ++n)
    {
        Model m(n), w;
        for (int i = 0; i < n; ++i)
            m[i] = i;
        const Deque<int> base = build<int>(rng, m);
        auto is = [&](const Deque<int>& d, const Model& want, const char* key, int by)
        {
            EXPECT(d.size() == int(want.size()) && std::equal(d.begin(), d.end(), want.begin(), want.end()), std::string("deque-content:every-size-") + key, "size " << n << " by " << by << ": " << show_keys(Model(d.begin(), d.end())) << " want " << show_keys(want));
            mon::evaluated();
        };
        OP("Deque every size");
        for (int by : {1, 2, n / 2, n - 1, n, n + 1, int(rng.range(0, n)), -1, -int(rng.range(0, n)), 1 - n})
        {
            const int left = ((by % n) + n) % n;
            w = m;
            std::rotate(w.begin(), w.begin() + left, w.end());
            Deque<int> d = base;
            is(d <<= by, w, "rotate-left", by);
            is(d >>= by, m, "rotate-back", by);
            d = base;
            d >>= -by;
            is(d, w, "rotate-right", -by);
        }
        Deque<int> d = base;
        (w = m), std::reverse(w.begin(), w.end());
        d.reverse();
        is(d, w, "reverse", 0);
        for (int at : {0, 1, n / 2, n - 1})
            EXPECT(at >= n || (base[at] == at && base[at - n] == at), "deque-ends:every-size", "size " << n << " at " << at);
        d = base;
        w = m;
        for (int i = 0; i < 3 && n > 1 + i; ++i)
        {
            EXPECT(d.pop_back() == w.back(), "deque-queue", "size " << n << " pop_back " << i);
            w.pop_back();
            d.push_front(-i);
            w.insert(w.begin(), -i);
            is(d, w, "push_front", i);
            d.push_back(i);
            w.push_back(i);
            EXPECT(d.pop_front() == w.front(), "deque-queue", "size " << n << " pop_front " << i);
            w.erase(w.begin());
            is(d, w, "push_back", i);
        }
        for (int at : {0, 1, 2, n / 2, n - 2, n - 1, int(rng.range(0, n - 1))}) // its own elements
        {
            if (at < 0 || at >= n)
                continue;
            d = base;
            d.push_front(std::as_const(d)[at]);
            w = m;
            w.insert(w.begin(), m[at]);
            is(d, w, "push_front-own", at);
            d = base;
            d.push_back(std::as_const(d)[at]);
            w = m;
            w.push_back(m[at]);
            is(d, w, "push_back-own", at);
            d.push_back(d.front()), w.push_back(w.front());
            d.push_front(d.back()), w.insert(w.begin(), w.back());
            is(d, w, "own-ends", at);
            d = base;
            d.extend_back(d.begin() + at, d.end());
            w = m;
            w.insert(w.end(), m.begin() + at, m.end());
            is(d, w, "extend_back-own", at);
            d = base;
            d.extend_front(d.begin() + at, d.end());
            w = Model(m.begin() + at, m.end());
            w.insert(w.end(), m.begin(), m.end());
            is(d, w, "extend_front-own", at);
        }
        Model u(rng.of<int>({1, 2, n / 2 + 1, n, n + 1}));
        for (int& k : u)
            k = rng.range(-9, -1);
        d = base;
        d.extend_front(u.begin(), u.end());
        w = u;
        w.insert(w.end(), m.begin(), m.end());
        is(d, w, "extend_front", u.size());
        d = base;
        d.extend_back(u.begin(), u.end());
        w = m;
        w.insert(w.end(), u.begin(), u.end());
        is(d, w, "extend_back", u.size());
        mon::nontrivial(hash_vec(m));
    }
}

// Ranges of every category, single-pass ones too, as arguments.
template <typename T>
static void ranged(Rng& rng, int n)
{
    std::vector<T> values;
    Model m;
    for (int i = 0; i < n; ++i)
        m.push_back(int(rng.range(0, 3 * n))), values.push_back(As<T>::make(m.back()));
    const Model half(m.begin(), m.begin() + n / 2);
    const Deque<T> base(values.begin(), values.begin() + n / 2);
    Model w = half, u = m;
    w.insert(w.end(), m.begin(), m.end());
    u.insert(u.end(), half.begin(), half.end());
    ranges::each(values, [&](const char* kind, const auto& first, const auto& last)
                 {
                     OP("Deque from a range");
                     same(Deque<T>(first, last), m, "range-constructor", std::string(kind) + " of " + std::to_string(n)); });
    ranges::each(values, [&](const char* kind, const auto& first, const auto& last)
                 {
                     OP("Deque extend_back by a range");
                     Deque<T> d = base;
                     d.extend_back(first, last);
                     same(d, w, "range-extend_back", std::string(kind) + " of " + std::to_string(n)); });
    ranges::each(values, [&](const char* kind, const auto& first, const auto& last)
                 {
                     OP("Deque extend_front by a range");
                     Deque<T> d = base;
                     d.extend_front(first, last);
                     same(d, u, "range-extend_front", std::string(kind) + " of " + std::to_string(n)); });
    mon::nontrivial(mon::hash_mix(mon::hash_str(As<T>::name, n), m.empty() ? 0 : m[m.size() / 2]));
    mon::evaluated(30);
}
SUITE(range_kinds, 100, 2000)
{
    const int n = idx < 40 ? int(idx) : int(rng.range(0, idx % 10 ? 60 : 1200));
    ranged<int>(rng, n);
    ranged<std::string>(rng, n);
    ranged<pyincpp::Str>(rng, n);
    ranged<pyincpp::Int>(rng, n / 2);
}
