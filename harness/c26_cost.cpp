// C26: cost in element operations. An element type counts its comparisons, copies and moves; each operation is charged
// against its bound at sizes over several orders of magnitude. The bounds leave a constant factor, not another growth.
#include "elems.hpp"
#include "pyincpp.hpp"
#include <cmath>
using namespace pyincpp;
using E = ElemN;

struct Cost
{
    long long compares, copies, moves;
};
template <typename F>
static Cost measure(F f)
{
    es.reset_counts();
    f();
    return {es.compares, es.copies + es.copy_assigns, es.moves + es.move_assigns};
}
static constexpr long long ANY = -1;
static void charge(const char* op, long long n, const Cost& c, double compares, double copies, double moves)
{
    mon::set_op(op);
    mon::count_n(op, 1);
    auto over = [](long long got, double limit) { return limit != ANY && got > limit; };
    const char* what = over(c.compares, compares) ? "comparisons" : over(c.copies, copies) ? "copies" : over(c.moves, moves) ? "moves" : nullptr;
    if (what)
        FAIL(std::string("cost:") + op + ":" + what, op << " at size " << n << " took " << c.compares << " comparisons (limit " << compares << "), " << c.copies << " copies (limit " << copies << "), " << c.moves << " moves (limit " << moves << "); -1 is no limit");
    check_canaries("cost", op);
    mon::evaluated();
    mon::nontrivial(mon::hash_mix(mon::hash_str(op, std::uint64_t(n)), mon::hash_mix(std::uint64_t(c.compares), std::uint64_t(c.copies * 31 + c.moves))));
    SAMPLE(op, op << " at size " << n << ": " << c.compares << " comparisons, " << c.copies << " copies, " << c.moves << " moves");
}
static int gen_size(Rng& r)
{
    const int top = mon::thorough ? 17 : 13;
    const double e = r.unit() * top;
    return int(std::pow(2.0, e));
}
static double lg(long long n)
{
    return std::log2(double(n) + 2);
}
static std::vector<E> gen_elems(Rng& r, int n, int span)
{
    std::vector<E> v;
    v.reserve(n);
    for (int i = 0; i < n; ++i)
        v.push_back(E(int(r.range(0, span)), i));
    return v;
}
// lookup, insertion, removal: a constant times log n comparisons, and only the element itself is copied
static double look(long long n)
{
    return 8 * lg(n) + 16;
}

SUITE(set_cost, 70, 3000)
{
    const int n0 = gen_size(rng), span = n0 * int(rng.of<int>({1, 2, 10}));
    Set<E> s;
    for (int i = 0; i < n0; ++i) // ascending, descending or random: the tree has to balance
    {
        const E e(idx % 3 == 0 ? i : idx % 3 == 1 ? n0 - i : int(rng.range(0, span)));
        bool fresh = false;
        const int n = s.size();
        const Cost c = measure([&] { fresh = s.add(e); });
        charge("Set add", n, c, look(n), 6, 6);
        (void)fresh;
    }
    const Set<E>& cs = s;
    for (int k = 0; k < 12; ++k)
    {
        const int n = s.size();
        const E e(int(rng.range(-1, span + 1)));
        charge("Set contains", n, measure([&] { mon::keep(cs.contains(e)); }), look(n), 0, 0);
        charge("Set find", n, measure([&] { mon::keep(cs.find(e)); }), look(n), 0, 0);
        if (n)
        {
            charge("Set min", n, measure([&] { mon::keep(cs.min().key); }), look(n), 4, 4);
            charge("Set max", n, measure([&] { mon::keep(cs.max().key); }), look(n), 4, 4);
        }
        charge("Set remove", n, measure([&] { mon::keep(s.remove(e)); }), look(n), 0, 0);
        charge("Set add again", n, measure([&] { mon::keep(s.add(e)); }), look(n), 6, 6);
        charge("Set pop", n, measure([&] { mon::keep(s.pop().key); }), look(n), 6, 6);
        charge("Set size", n, measure([&] { mon::keep(cs.size() + cs.is_empty()); }), 0, 0, 0);
    }
    // linear: algebra and inclusion, against sets of the same and of another size, overlapping, apart, subset
    const int m0 = rng.chance(1, 2) ? n0 : gen_size(rng);
    Set<E> t;
    const int shift = rng.of<int>({0, span, -span, span / 2});
    for (int i = 0; i < m0; ++i)
        t.add(E(shift + int(rng.range(0, span))));
    for (const Set<E>& u : {t, s, Set<E>()})
    {
        const long long n = s.size() + u.size();
        const double lin = 24.0 * n + 64, few = 8.0 * n + 32;
        charge("Set <=", n, measure([&] { mon::keep(cs <= u); }), lin, 0, 0);
        charge("Set <", n, measure([&] { mon::keep(cs < u); }), lin, 0, 0);
        charge("Set >=", n, measure([&] { mon::keep(cs >= u); }), lin, 0, 0);
        charge("Set >", n, measure([&] { mon::keep(cs > u); }), lin, 0, 0);
        charge("Set ==", n, measure([&] { mon::keep((cs == u) + (cs != u)); }), lin, 0, 0);
        charge("Set &", n, measure([&] { mon::keep((cs & u).size()); }), lin, few, few);
        charge("Set |", n, measure([&] { mon::keep((cs | u).size()); }), lin, few, few);
        charge("Set -", n, measure([&] { mon::keep((cs - u).size()); }), lin, few, few);
        charge("Set ^", n, measure([&] { mon::keep((cs ^ u).size()); }), lin, few, few);
        Set<E> a(s), b(s), c(s), d(s);
        charge("Set &=", n, measure([&] { a &= u; }), lin, few, few);
        charge("Set |=", n, measure([&] { b |= u; }), lin, few, few);
        charge("Set -=", n, measure([&] { c -= u; }), lin, few, few);
        charge("Set ^=", n, measure([&] { d ^= u; }), lin, few, few);
    }
    const int n = s.size();
    charge("Set copy", n, measure([&] { Set<E> a(s); mon::keep(a); }), ANY, 4.0 * n, 4.0 * n);
    long long sum = 0;
    charge("Set iterate", n, measure([&] { for (const auto& e : cs) sum += e.key; for (auto it = cs.rbegin(); it != cs.rend(); ++it) sum -= it->key; }), 0, 0, 0);
    Set<E> moved;
    charge("Set move", n, measure([&] { Set<E> a(std::move(s)); moved = std::move(a); std::swap(moved, s); }), 0, 0, 0);
    charge("Set clear", n, measure([&] { s.clear(); }), 0, 0, 0);
}
SUITE(dict_cost, 70, 3000)
{
    const int n0 = gen_size(rng), span = n0 * int(rng.of<int>({1, 2, 10}));
    Dict<E, E> d;
    for (int i = 0; i < n0; ++i)
    {
        const E k(idx % 3 == 0 ? i : idx % 3 == 1 ? n0 - i : int(rng.range(0, span))), v(i);
        const int n = d.size();
        charge("Dict add", n, measure([&] { mon::keep(d.add(k, v)); }), look(n), 10, 10);
    }
    const Dict<E, E>& cd = d;
    const E other(-5);
    for (int j = 0; j < 12; ++j)
    {
        const int n = d.size();
        const E k(int(rng.range(-1, span + 1)));
        charge("Dict contains", n, measure([&] { mon::keep(cd.contains(k)); }), look(n), 0, 0);
        charge("Dict find", n, measure([&] { mon::keep(cd.find(k)); }), look(n), 0, 0);
        charge("Dict get", n, measure([&] { mon::keep(cd.get(k, other).key); }), 2 * look(n), 0, 0);
        charge("Dict []", n, measure([&] { mon::attempt([&] { mon::keep(d[k].key); }); }), look(n), 0, 0);
        charge("Dict [] const", n, measure([&] { mon::attempt([&] { mon::keep(cd[k].key); }); }), look(n), 0, 0);
        charge("Dict [] =", n, measure([&] { mon::attempt([&] { d[k] = other; }); }), look(n), 1, 1);
        if (n)
        {
            charge("Dict min", n, measure([&] { mon::keep(cd.min().key); }), look(n), 4, 4);
            charge("Dict max", n, measure([&] { mon::keep(cd.max().key); }), look(n), 4, 4);
        }
        charge("Dict remove", n, measure([&] { mon::keep(d.remove(k)); }), look(n), 0, 0);
        charge("Dict add again", n, measure([&] { mon::keep(d.add(k, other)); }), look(n), 10, 10);
        charge("Dict pop", n, measure([&] { mon::keep(d.pop().first.key); }), look(n), 10, 10);
        charge("Dict size", n, measure([&] { mon::keep(cd.size() + cd.is_empty()); }), 0, 0, 0);
    }
    const int n = d.size();
    long long sum = 0;
    charge("Dict iterate", n, measure([&] { for (const auto& p : cd) sum += p.first.key + p.second.key; for (auto it = cd.rbegin(); it != cd.rend(); ++it) sum -= it->first.key; }), 0, 0, 0);
    charge("Dict ==", n, measure([&] { Dict<E, E>* p = &d; mon::keep(cd == *p); }), 10.0 * n + 16, 0, 0);
    charge("Dict copy", n, measure([&] { Dict<E, E> a(d); mon::keep(a); }), ANY, 8.0 * n, 8.0 * n);
    Dict<E, E> moved;
    charge("Dict move", n, measure([&] { Dict<E, E> a(std::move(d)); moved = std::move(a); std::swap(moved, d); }), 0, 0, 0);
    charge("Dict clear", n, measure([&] { d.clear(); }), 0, 0, 0);
}
SUITE(list_cost, 90, 4000)
{
    const int n0 = gen_size(rng);
    const auto v = gen_elems(rng, n0, idx % 4 == 0 ? 3 : n0);
    // appending, from an empty list and from lists left behind by other operations
    List<E> l;
    if (idx % 3 == 1)
        l = List<E>(v), l.clear();
    if (idx % 3 == 2)
        l = List<E>(v).slice(0, 1);
    const int start = l.size();
    charge("List += element, n times", n0, measure([&] { for (const auto& e : v) l += e; }), 0, 5.0 * n0 + 16, 16.0 * n0 + 64);
    (void)start;
    // alternating appends and removals at the end
    charge("List += and remove(-1), n times", n0, measure([&] { for (int i = 0; i < n0; ++i) { l += v[i]; mon::keep(l.remove(-1).key); } }), 0, 5.0 * n0 + 16, 20.0 * n0 + 12.0 * l.size() + 64);
    l = List<E>(v);
    const List<E>& cl = l;
    const int n = n0;
    const double lin = 20.0 * n + 64;
    const E e(int(rng.range(0, n0)));
    const int i = int(rng.range(0, n - 1));
    long long sum = 0;
    charge("List []", n, measure([&] { for (int k = 0; k < 16; ++k) { const int at = int(rng.range(-n, n - 1)); sum += l[at].key + cl[at].key; } }), 0, 0, 0);
    charge("List iterate", n, measure([&] { for (const auto& x : cl) sum += x.key; for (auto it = cl.rbegin(); it != cl.rend(); ++it) sum -= it->key; }), 0, 0, 0);
    charge("List size", n, measure([&] { mon::keep(cl.size() + cl.is_empty()); }), 0, 0, 0);
    charge("List find", n, measure([&] { mon::keep(cl.find(e)); }), lin, 8, 8);
    charge("List index", n, measure([&] { mon::keep(cl.index(e) + cl.contains(e)); }), lin, 8, 8);
    charge("List index in a range", n, measure([&] { int a = int(rng.range(0, n)), b = int(rng.range(0, n)); if (a > b) std::swap(a, b); mon::keep(cl.index(e, a, b) + cl.index(e, n > 1, n - (n > 2)) + cl.index(E(-9), 1, n)); }), 3 * lin, 8, 8);
    charge("List count", n, measure([&] { mon::keep(cl.count(e)); }), lin, 8, 8);
    charge("List ==", n, measure([&] { List<E>* p = &l; mon::keep(cl == *p); }), lin, 0, 0);
    charge("List <", n, measure([&] { List<E>* p = &l; mon::keep(cl < *p); }), lin, 0, 0);
    charge("List copy", n, measure([&] { List<E> a(l); mon::keep(a); }), 0, lin, lin);
    auto on_copy = [&](const char* op, double compares, double copies, double moves, auto f)
    {
        List<E> x(l);
        charge(op, n, measure([&] { f(x); }), compares, copies, moves);
    };
    on_copy("List insert", 0, lin, lin, [&](auto& x) { x.insert(i, e); });
    on_copy("List remove", 0, lin, lin, [&](auto& x) { mon::keep(x.remove(i).key); });
    on_copy("List += list", 0, lin, lin, [&](auto& x) { x += l; });
    on_copy("List extend", 0, lin, lin, [&](auto& x) { x.extend(v.begin(), v.end()); });
    on_copy("List -=", lin, 8, lin, [&](auto& x) { x -= e; });
    on_copy("List /=", lin, lin, lin, [&](auto& x) { x /= e; });
    on_copy("List reverse", 0, lin, lin, [&](auto& x) { x.reverse(); });
    on_copy("List <<=", 0, lin, lin, [&](auto& x) { x <<= i; });
    on_copy("List >>=", 0, lin, lin, [&](auto& x) { x >>= i; });
    on_copy("List rotate far", 0, lin, lin, [&](auto& x) { x <<= INT_MAX; });
    on_copy("List rotate far back", 0, lin, lin, [&](auto& x) { x >>= INT_MIN; });
    on_copy("List filter", 0, lin, lin, [&](auto& x) { x.filter([](const E& y) { return y.key & 1; }); });
    on_copy("List map", 0, lin, lin, [&](auto& x) { x.map([](E& y) { ++y.key, --y.key; }); });
    on_copy("List erase", 0, lin, lin, [&](auto& x) { x.erase(i / 2, i); });
    on_copy("List *=", 0, 3 * lin, 3 * lin, [&](auto& x) { x *= 3; });
    on_copy("List clear", 0, 0, 0, [&](auto& x) { x.clear(); });
    on_copy("List sort", 2.0 * n * lg(n) * lg(n) + 32, 4.0 * n * lg(n) * lg(n) + 32, 4.0 * n * lg(n) * lg(n) + 32, [&](auto& x) { x.sort(); });
    on_copy("List sort sorted", 2.0 * n * lg(n) * lg(n) + 32, 4.0 * n * lg(n) * lg(n) + 32, 4.0 * n * lg(n) * lg(n) + 32, [&](auto& x) { x.sort(), x.sort([](const E& a, const E& b) { return b < a; }), x.reverse(); });
    on_copy("List move", 0, 0, 0, [&](auto& x) { List<E> a(std::move(x)), b; b = std::move(a); std::swap(b, x); });
    charge("List slice", n, measure([&] { mon::keep(cl.slice(0, n).size() + cl.slice(-1, -n - 1, -1).size()); }), 0, 2 * lin, 2 * lin);
    charge("List + element", n, measure([&] { mon::keep((cl + e).size()); }), 0, 2 * lin, 2 * lin);
    charge("List + list", n, measure([&] { mon::keep((cl + cl).size()); }), 0, 3 * lin, 3 * lin);
    charge("List - element", n, measure([&] { mon::keep((cl - e).size()); }), lin, 2 * lin, 2 * lin);
    charge("List / element", n, measure([&] { mon::keep((cl / e).size()); }), lin, 2 * lin, 2 * lin);
    charge("List *", n, measure([&] { mon::keep((cl * 3).size()); }), 0, 3 * lin, 3 * lin);
}
SUITE(deque_cost, 90, 4000)
{
    const int n0 = gen_size(rng);
    const auto v = gen_elems(rng, n0, n0);
    Deque<E> q;
    // every single operation at the ends is constant: no element but the one concerned is touched
    for (int i = 0; i < n0; ++i)
    {
        const int n = q.size();
        const int op = idx % 3 == 0 ? 0 : idx % 3 == 1 ? 1 : int(rng.range(0, 4));
        switch (op)
        {
            case 0: charge("Deque push_back", n, measure([&] { q.push_back(v[i]); }), 0, 4, 4); break;
            case 1: charge("Deque push_front", n, measure([&] { q.push_front(v[i]); }), 0, 4, 4); break;
            case 2:
                if (n)
                    charge("Deque pop_back", n, measure([&] { mon::keep(q.pop_back().key); }), 0, 2, 4);
                break;
            case 3:
                if (n)
                    charge("Deque pop_front", n, measure([&] { mon::keep(q.pop_front().key); }), 0, 2, 4);
                break;
            default:
                if (n)
                    charge("Deque front back", n, measure([&] { const auto& c = q; mon::keep(q.front().key + q.back().key + c.front().key + c.back().key); }), 0, 0, 0);
        }
    }
    q = Deque<E>(v.begin(), v.end());
    const Deque<E>& cq = q;
    const int n = n0, i = int(rng.range(0, n - 1));
    const double lin = 20.0 * n + 64;
    long long sum = 0;
    charge("Deque []", n, measure([&] { for (int k = 0; k < 16; ++k) { const int at = int(rng.range(-n, n - 1)); sum += q[at].key + cq[at].key; } }), 0, 0, 0);
    charge("Deque iterate", n, measure([&] { for (const auto& x : cq) sum += x.key; for (auto it = cq.rbegin(); it != cq.rend(); ++it) sum -= it->key; }), 0, 0, 0);
    charge("Deque size", n, measure([&] { mon::keep(cq.size() + cq.is_empty()); }), 0, 0, 0);
    charge("Deque ==", n, measure([&] { Deque<E>* p = &q; mon::keep(cq == *p); }), lin, 0, 0);
    auto on_copy = [&](const char* op, double copies, double moves, auto f)
    {
        Deque<E> x(q);
        charge(op, n, measure([&] { f(x); }), 0, copies, moves);
    };
    on_copy("Deque reverse", lin, lin, [&](auto& x) { x.reverse(); });
    on_copy("Deque <<=", lin, lin, [&](auto& x) { x <<= i; });
    on_copy("Deque >>=", lin, lin, [&](auto& x) { x >>= i; });
    on_copy("Deque rotate far", lin, lin, [&](auto& x) { x <<= INT_MAX, x >>= INT_MIN; });
    on_copy("Deque extend_back", lin, lin, [&](auto& x) { x.extend_back(v.begin(), v.end()); });
    on_copy("Deque extend_front", lin, lin, [&](auto& x) { x.extend_front(v.begin(), v.end()); });
    on_copy("Deque move", 0, 0, [&](auto& x) { Deque<E> a(std::move(x)), b; b = std::move(a); std::swap(b, x); });
    on_copy("Deque clear", 0, 0, [&](auto& x) { x.clear(); });
    // a queue: as many pops as pushes, at opposite ends
    charge("Deque as a queue", n, measure([&] { for (int k = 0; k < n; ++k) { q.push_back(v[k]); mon::keep(q.pop_front().key); } for (int k = 0; k < n; ++k) { q.push_front(v[k]); mon::keep(q.pop_back().key); } }), 0, 8.0 * n, 16.0 * n);
}
SUITE(tuple_cost, 40, 400)
{
    const E a(int(rng.range(0, 99))), b(2), c(3);
    const auto t = pyincpp::make_tuple(a, b, c, a);
    int sum = 0;
    charge("Tuple rest", 4, measure([&] { const auto& r = t.rest(); const auto& s = r.rest(); sum += s.size(); }), 0, 0, 0);
    charge("Tuple size", 4, measure([&] { sum += t.size(); }), 0, 0, 0);
    charge("Tuple get", 4, measure([&] { sum += t.get<3>().key; }), 0, 1, 1);
    charge("Tuple ==", 4, measure([&] { const auto* p = &t; sum += t == *p; }), 8, 0, 0);
    charge("Tuple make", 4, measure([&] { mon::keep(pyincpp::make_tuple(a, b, c, a).size()); }), 0, 12, 24);
    using L = List<E>;
    const int n = gen_size(rng);
    auto u = pyincpp::make_tuple(L(gen_elems(rng, n, n)), 5);
    charge("Tuple move", n, measure([&] { auto w = std::move(u); u = std::move(w); }), 0, 0, 0);
    charge("Tuple rest of lists", n, measure([&] { mon::keep(u.rest().size()); }), 0, 0, 0);
}
// containers inside containers: the inner ones count as elements
SUITE(nested_cost, 60, 2000)
{
    const int n = std::min(gen_size(rng), 3000), m = int(rng.range(1, 6));
    std::vector<List<E>> v;
    for (int i = 0; i < n; ++i)
        v.push_back(List<E>(gen_elems(rng, m, 50)));
    List<List<E>> l;
    const double all = double(n) * m;
    charge("List<List> += element, n times", n, measure([&] { for (const auto& x : v) l += x; }), 0, 5 * all + 16, 5 * all + 16);
    // their elements are copied at most a constant number of times per outer element
    const double some = 20 * all + 64;
    charge("List<List> rotate reverse", n, measure([&] { l <<= n / 3, l.reverse(); }), 0, some, some);
    charge("List<List> sort", n, measure([&] { l.sort(); }), ANY, some * lg(n) * lg(n), some * lg(n) * lg(n));
    charge("List<List> remove", n, measure([&] { mon::keep(l.remove(-1).size()); }), 0, some, some);
    charge("List<List> erase", n, measure([&] { l.erase(0, l.size() / 2); }), 0, some, some);
    Deque<List<E>> q(v.begin(), v.end());
    charge("Deque<List> rotate reverse", n, measure([&] { q <<= n / 3, q.reverse(); }), 0, some, some);
    charge("Deque<List> pop", n, measure([&] { mon::keep(q.pop_front().size()); if (q.size()) mon::keep(q.pop_back().size()); }), 0, 8 * m, 8 * m);
}
