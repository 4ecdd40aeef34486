#include "c24_faults.hpp"

template <typename T>
void list_faults(Rng& r, bool alloc)
{
    using L = List<T>;
    const int n = r.chance(1, 6) ? 0 : few(r, 9);
    const int span = sparse ? 300 : 6;
    const auto v = elems<T>(r, n, span);
    const auto u = elems<T>(r, few(r, 6), span);
    L base(v);
    const L other(u);
    const T e = As<T>::make(int(r.range(-span, span)));
    const int i = int(r.range(0, n)), a = int(r.range(0, n)), b = int(r.range(a, n)), rot = int(r.range(-2 * span, 2 * span)), times = int(r.range(0, 4));
    const int room = int(r.range(0, 3));
    // with room left behind the elements, or without
    auto with_room = [&](L& x)
    {
        const long long f = es.fail_at, g = mon::alloc_fail_at;
        es.fail_at = 0, mon::alloc_fail_at = 0;
        for (int k = 0; k < room; ++k)
            x += e;
        for (int k = 0; k < room; ++k)
            x.remove(-1);
        es.fail_at = f, mon::alloc_fail_at = g;
    };
    inject("List copy", base, strong, [&](L& x) { L y(x); }, alloc);
    inject("List =", other, basic, [&](L& x) { x = base; }, alloc);
    inject("List from vector", base, strong, [&](L&) { L y(v); }, alloc);
    inject("List from range", base, strong, [&](L&) { L y(v.begin(), v.end()); }, alloc);
    inject("List from initializers", base, strong, [&](L&) { L y{e, e, e}; }, alloc);
    inject("List queries", base, strong, [&](L& x) { mon::keep(x.index(e) + x.contains(e) + x.count(e) + (x.find(e) == x.end()) + x.index(e, 0, 2)); }, alloc);
    inject("List == <=>", base, strong, [&](L& x) { mon::keep((x == other) + (x < other) + (x == base)); }, alloc);
    inject("List insert", base, basic, [&](L& x) { with_room(x), x.insert(i, e); }, alloc);
    inject("List insert own", base, basic, [&](L& x) { with_room(x); if (n) x.insert(i, *x.begin()); }, alloc);
    inject("List += element", base, strong, [&](L& x) { with_room(x), x += e; }, alloc);
    inject("List += own element", base, strong, [&](L& x) { with_room(x); if (n) x += *x.begin(); }, alloc);
    inject("List += list", base, basic, [&](L& x) { with_room(x), x += other; }, alloc);
    inject("List += itself", base, basic, [&](L& x) { with_room(x), x += x; }, alloc);
    inject("List extend", base, basic, [&](L& x) { with_room(x), x.extend(u.begin(), u.end()); }, alloc);
    if (i < n)
        inject("List remove", base, basic, [&](L& x) { x.remove(i); }, alloc);
    inject("List -=", base, basic, [&](L& x) { x -= e; }, alloc);
    inject("List /=", base, basic, [&](L& x) { x /= e; }, alloc);
    inject("List *=", base, basic, [&](L& x) { x *= times; }, alloc);
    inject("List >>= <<=", base, basic, [&](L& x) { x >>= rot, x <<= 1; }, alloc);
    inject("List reverse", base, basic, [&](L& x) { x.reverse(); }, alloc);
    inject("List uniquify", base, basic, [&](L& x) { x.uniquify(); }, alloc);
    inject("List sort", base, basic, [&](L& x) { x.sort(); }, alloc);
    inject("List sort by", base, basic, [&](L& x) { x.sort([](const T& p, const T& q) { es.tick("callback"); return As<T>::key(q) < As<T>::key(p); }); }, alloc);
    inject("List erase", base, basic, [&](L& x) { x.erase(a, b); }, alloc);
    inject("List map", base, basic, [&](L& x) { x.map(Action()); }, alloc);
    inject("List filter", base, basic, [&](L& x) { x.filter(Callback()); }, alloc);
    inject("List clear", base, basic, [&](L& x) { x.clear(); }, alloc);
    if (n)
        inject("List slice", base, strong, [&](L& x) { mon::keep(x.slice(-1, -n - 1, -1).size() + x.slice(0, n).size()); }, alloc);
    inject("List + element", base, strong, [&](L& x) { mon::keep((x + e).size()); }, alloc);
    inject("List + list", base, strong, [&](L& x) { mon::keep((x + other).size()); }, alloc);
    inject("List - element", base, strong, [&](L& x) { mon::keep((x - e).size()); }, alloc);
    inject("List / element", base, strong, [&](L& x) { mon::keep((x / e).size()); }, alloc);
    inject("List *", base, strong, [&](L& x) { mon::keep((x * times).size()); }, alloc);
    if (!alloc) // a stream does not report that it ran out of memory
        inject("List print", base, strong, [&](L& x) { std::ostringstream o; o << x; }, alloc);
}
SUITE(list_element_failures, 24, 1200)
{
    switch (idx % 3)
    {
        case 0: list_faults<ElemN>(rng, false); break;
        case 1: list_faults<ElemC>(rng, false); break;
        default: list_faults<ElemT>(rng, false);
    }
}
SUITE(list_allocation_failures, 40, 1200)
{
    switch (idx % 5)
    {
        case 0: list_faults<ElemN>(rng, true); break;
        case 1: list_faults<ElemC>(rng, true); break;
        case 2: list_faults<Str>(rng, true); break;
        case 3: list_faults<Int>(rng, true); break;
        default: list_faults<std::string>(rng, true);
    }
}
// larger ones: some of the failures
SUITE(list_large, 48, 1600)
{
    Sparse mode;
    switch (idx % 6)
    {
        case 0: list_faults<ElemN>(rng, false); break;
        case 1: list_faults<ElemC>(rng, false); break;
        case 2: list_faults<ElemT>(rng, false); break;
        case 3: list_faults<ElemC>(rng, true); break;
        case 4: list_faults<Str>(rng, true); break;
        default: list_faults<ElemN>(rng, true);
    }
}
