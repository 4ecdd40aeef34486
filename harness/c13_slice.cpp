// C13: indexing and slicing of List, Str and Deque.
#include "deque.hpp"
#include "elems.hpp"
#include "strx.hpp"
using pyincpp::Deque;
using pyincpp::List;
namespace
{
const std::vector<int>& extremes()
{
    static const std::vector<int> v{INT_MIN, INT_MIN + 1, INT_MIN / 2, -1000000007, INT_MAX, INT_MAX - 1, INT_MAX / 2, INT_MAX / 2 + 1, 1000000007};
    return v;
}
// the positions a slice visits, or not ok
bool plan(int n, long long start, long long stop, long long step, std::vector<int>& out)
{
    out.clear();
    if (step == 0 || start < -n || start >= n || stop < -n - 1 || stop > n)
        return false;
    if (start < 0)
        start += n;
    if (stop < 0)
        stop += n;
    for (long long i = start; step > 0 ? i < stop : i > stop; i += step)
        out.push_back(i);
    return true;
}
template <typename S, typename Make, typename Key>
struct Seq
{
    const char* name;
    Make make;
    Key key;
};
template <typename S, typename V>
void slice_one(const char* name, const S& s, const V& content, int start, int stop, int step)
{
    const int n = content.size();
    std::vector<int> pos;
    const bool ok = plan(n, start, stop, step, pos);
    V want;
    for (int p : pos)
        want.push_back(content[p]);
    S out;
    mon::set_op("slice");
    const auto o = mon::attempt([&] { out = s.slice(start, stop, step); });
    auto ctx = [&]
    {
        std::ostringstream c;
        c << name << " of " << n << " elements, slice(" << start << ", " << stop << ", " << step << ")";
        return c.str();
    };
    mon::evaluated();
    if (!ok)
    {
        EXPECT(o == mon::Out::runtime_error, std::string("slice-accepted:") + name, ctx() << " must be an error, got " << mon::name(o));
        return;
    }
    EXPECT(o == mon::Out::ok, std::string("slice-rejected:") + name, ctx() << " must work, got " << mon::name(o));
    V got(out.begin(), out.end());
    EXPECT(got == want && out.size() == int(want.size()), std::string("slice-value:") + name, ctx() << " has " << got.size() << " elements, want " << want.size() << (got.size() == want.size() ? " others" : ""));
    if (step == 1)
    {
        S d;
        EXPECT(mon::attempt([&] { d = s.slice(start, stop); }) == mon::Out::ok, std::string("slice-default-step:") + name, ctx());
        EXPECT(V(d.begin(), d.end()) == want, std::string("slice-default-step:") + name, ctx());
    }
    mon::nontrivial(mon::hash_mix(mon::hash_mix(mon::hash_mix(n, start), stop), mon::hash_mix(step, name[0])));
}
template <typename S, typename V>
void index_one(const char* name, S& s, const V& content, int i)
{
    const int n = content.size();
    const bool ok = i >= -n && i < n;
    const int p = i < 0 ? int((long long)i + n) : i;
    mon::set_op("index");
    mon::evaluated(2);
    using E = typename V::value_type;
    E got{};
    const void* addr = nullptr;
    auto o = mon::attempt([&] { const auto& e = std::as_const(s)[i]; got = e; addr = &e; });
    EXPECT(ok == (o == mon::Out::ok) && (ok || o == mon::Out::runtime_error), std::string("index-bounds:") + name, name << " of " << n << " elements [" << i << "] const: " << mon::name(o));
    if (ok)
    {
        EXPECT(got == content[p], std::string("index-value:") + name, name << " of " << n << " elements [" << i << "] const");
        EXPECT(addr == (const void*)&*(s.begin() + p), std::string("index-reference:") + name, name << " [" << i << "] is not the element itself");
        mon::nontrivial(mon::hash_mix(mon::hash_mix(n, i), name[1]));
    }
}
template <typename S, typename V, typename E>
void assign_one(const char* name, S& s, V& content, int i, const E& v)
{
    const int n = content.size();
    const bool ok = i >= -n && i < n;
    mon::set_op("index assignment");
    auto o = mon::attempt([&] { s[i] = v; });
    EXPECT(ok == (o == mon::Out::ok) && (ok || o == mon::Out::runtime_error), std::string("index-bounds:") + name, name << " of " << n << " elements [" << i << "] = : " << mon::name(o));
    if (ok)
        content[i < 0 ? (long long)i + n : i] = v;
    EXPECT(V(s.begin(), s.end()) == content, std::string("index-assign:") + name, name << " of " << n << " elements [" << i << "] =");
    mon::evaluated();
}
struct Three // the three kinds of sequence with the same content
{
    std::vector<int> ints;
    std::string chars;
    List<int> l;
    Deque<int> d;
    Str s;
    explicit Three(int n, Rng& r)
    {
        for (int i = 0; i < n; ++i)
        {
            ints.push_back(1000 + i);
            chars += n <= 256 ? char(i) : char(r.range(0, 255));
        }
        l = List<int>(ints.begin(), ints.end());
        s = Str(chars);
        // the deque starts somewhere inside its blocks
        const int pre = r.range(0, 300);
        for (int i = 0; i < pre; ++i)
            d.push_back(-1);
        d.extend_back(ints.begin(), ints.end());
        for (int i = 0; i < pre; ++i)
            d.pop_front();
    }
};
template <typename T>
void other_types(Rng& r)
{
    const int n = r.range(0, 12);
    std::vector<int> keys;
    std::vector<T> v;
    for (int i = 0; i < n; ++i)
    {
        keys.push_back(r.range(0, 100));
        v.push_back(As<T>::make(keys.back()));
    }
    List<T> l(v);
    for (int t = 0; t < 20; ++t)
    {
        const int a = r.range(-n - 2, n + 1), b = r.range(-n - 3, n + 2), st = r.chance(1, 8) ? r.pick(extremes()) : int(r.range(-4, 4));
        std::vector<int> pos, got, want;
        const bool ok = plan(n, a, b, st, pos);
        OP("slice of other types");
        auto o = mon::attempt([&] { const List<T> out = l.slice(a, b, st); for (auto& e : out) got.push_back(As<T>::key(e)); });
        for (int p : pos)
            want.push_back(keys[p]);
        EXPECT(ok == (o == mon::Out::ok) && got == want, std::string("slice-value:List<") + As<T>::name + ">", "n=" << n << " slice(" << a << ", " << b << ", " << st << ") gives " << show_keys(got) << " want " << show_keys(want) << " " << mon::name(o));
        mon::evaluated();
        mon::nontrivial(mon::hash_mix(hash_vec(keys), mon::hash_mix(mon::hash_mix(a, b), st)));
    }
}
} // namespace
// every start, stop and step for all small sizes, with extreme values mixed in
SUITE(slice_exhaustive, 120, 180)
{
    const int n = idx / 15, part = idx % 15; // sizes 0..7 (0..11 in thorough)
    Three t(n, rng);
    std::vector<int> starts, stops, steps;
    for (int i = -n - 3; i <= n + 3; ++i)
        starts.push_back(i), stops.push_back(i);
    for (int i = -n - 3; i <= n + 3; ++i)
        steps.push_back(i);
    for (int e : extremes())
        starts.push_back(e), stops.push_back(e), steps.push_back(e);
    OP("slice exhaustive");
    for (std::size_t i = part; i < starts.size(); i += 15)
        for (int b : stops)
            for (int st : steps)
            {
                slice_one("List", t.l, t.ints, starts[i], b, st);
                slice_one("Str", t.s, t.chars, starts[i], b, st);
            }
    EXPECT(std::vector<int>(t.l.begin(), t.l.end()) == t.ints && raw(t.s) == t.chars, "slice-changed-operand", "n=" << n);
    SAMPLE("slice", "all slices of " << n << " elements with start among " << starts.size() << " values, part " << part);
}
SUITE(slice_random, 8000, 400000)
{
    const int n = rng.chance(1, 10) ? rng.range(100, 2000) : rng.range(1, 40);
    Three t(n, rng);
    for (int k = 0; k < 12; ++k)
    {
        auto pos = [&] { return rng.chance(1, 12) ? rng.pick(extremes()) : int(rng.range(-n - 2, n + 2)); };
        const int a = rng.chance(1, 10) ? pos() : int(rng.range(-n, n - 1)), b = pos(), st = rng.chance(1, 10) ? pos() : rng.chance(1, 3) ? int(rng.range(-n - 1, n + 1)) : int(rng.range(-5, 5));
        OP("slice random");
        slice_one("List", t.l, t.ints, a, b, st);
        slice_one("Str", t.s, t.chars, a, b, st);
    }
}
SUITE(index_all, 300, 3000)
{
    const int n = idx < 40 ? int(idx) : int(rng.chance(1, 4) ? rng.range(400, 3000) : rng.range(0, 200));
    Three t(n, rng);
    std::vector<int> is;
    if (n < 64)
        for (int i = -2 * n - 2; i <= 2 * n + 2; ++i)
            is.push_back(i);
    else
        for (int i = 0; i < 100; ++i)
            is.push_back(rng.range(-n - 3, n + 3));
    for (int e : extremes())
        is.push_back(e);
    for (int i : {-n - 1, -n, -n + 1, n - 1, n, n + 1, -1, 0, 1})
        is.push_back(i);
    OP("index");
    for (int i : is)
    {
        index_one("List", t.l, t.ints, i);
        index_one("Deque", t.d, t.ints, i);
        index_one("Str", t.s, t.chars, i);
        if (n <= 300)
        {
            int v = rng.range(0, 1 << 20);
            auto c = t.ints;
            List<int> l2 = t.l;
            Deque<int> d2 = t.d;
            assign_one("List", l2, c, i, v);
            c = t.ints;
            assign_one("Deque", d2, c, i, v);
        }
    }
    EXPECT(std::vector<int>(t.d.begin(), t.d.end()) == t.ints && std::vector<int>(t.l.begin(), t.l.end()) == t.ints && raw(t.s) == t.chars, "index-changed-operand", "n=" << n);
    SAMPLE("index", "size " << n << " with " << is.size() << " indices");
}
SUITE(slice_types, 1500, 60000)
{
    other_types<Str>(rng);
    other_types<pyincpp::Int>(rng);
    other_types<List<int>>(rng);
    other_types<ElemN>(rng);
    other_types<ElemC>(rng);
    other_types<std::string>(rng);
}
// beyond every 16-bit index
SUITE(very_long, 8, 200)
{
    const int n = rng.range(33000, 140000);
    Three t(n, rng);
    for (int k = 0; k < 8; ++k)
    {
        const int a = int(rng.range(-n, n - 1)), b = rng.chance(1, 4) ? rng.of<int>({-n - 1, n, n - 1}) : int(rng.range(-n - 1, n)), st = rng.of<int>({1, -1, 2, -3, 32768, -32768, 65536, 70000, -65537, int(rng.range(1, n))});
        OP("slice very long");
        slice_one("List", t.l, t.ints, a, b, st);
        slice_one("Str", t.s, t.chars, a, b, st);
    }
    OP("index very long");
    for (int k = 0; k < 60; ++k)
    {
        const int i = k < 20 ? rng.of<int>({32767, 32768, 65535, 65536, -32768, -32769, -65536, -65537, n, n - 1, -n, -n - 1, 131072, -131073}) : int(rng.range(-n - 2, n + 1));
        index_one("List", t.l, t.ints, i);
        index_one("Deque", t.d, t.ints, i);
        index_one("Str", t.s, t.chars, i);
    }
}
// every size up to 1600 (4800 in thorough)
SUITE(every_size, 400, 1200)
{
    for (int n = 4 * int(idx) + 1; n <= 4 * int(idx) + 4; ++n)
    {
        Three t(n, rng);
        OP("slice every size");
        for (int i : {0, 1, n - 1, n, -1, -n, -n - 1, n / 2, int(rng.range(0, n - 1))})
        {
            index_one("List", t.l, t.ints, i);
            index_one("Deque", t.d, t.ints, i);
            index_one("Str", t.s, t.chars, i);
        }
        auto both = [&](int a, int b, int st)
        {
            slice_one("List", t.l, t.ints, a, b, st);
            slice_one("Str", t.s, t.chars, a, b, st);
        };
        for (int st : {1, 2, 3, n - 1, n, n + 1, int(rng.range(1, n))})
        {
            const int a = rng.range(0, n - 1);
            both(0, n, st), both(a, n, st), both(0, a, st), both(-n, -1, st);
            if (st > 0)
                both(n - 1, -n - 1, -st), both(-1, -n - 1, -st), both(a, -n - 1, -st), both(n - 1, a, -st);
        }
        EXPECT(std::vector<int>(t.d.begin(), t.d.end()) == t.ints && std::vector<int>(t.l.begin(), t.l.end()) == t.ints && raw(t.s) == t.chars, "index-changed-operand", "n=" << n);
    }
}
