#include "c24_faults.hpp"

template <typename T>
void set_faults(Rng& r, bool alloc)
{
    using S = Set<T>;
    const int span = sparse ? 300 : 6;
    const auto v = elems<T>(r, few(r, 8), span);
    const auto u = elems<T>(r, few(r, 6), span);
    const S base(v.begin(), v.end()), other(u.begin(), u.end());
    const T e = As<T>::make(int(r.range(-span - 2, span + 2)));
    inject("Set copy", base, strong, [&](S& x) { S y(x); }, alloc);
    inject("Set =", other, basic, [&](S& x) { x = base; }, alloc);
    inject("Set from range", base, strong, [&](S&) { S y(v.begin(), v.end()); }, alloc);
    inject("Set queries", base, strong, [&](S& x) { mon::keep(x.contains(e) + (x.find(e) == x.end()) + (x == other)); }, alloc);
    inject("Set inclusion", base, strong, [&](S& x) { mon::keep((x < other) + (x <= other) + (x > other) + (x >= other)); }, alloc);
    inject("Set add", base, strong, [&](S& x) { x.add(e); }, alloc);
    inject("Set remove", base, basic, [&](S& x) { x.remove(e); }, alloc);
    if (!v.empty())
    {
        inject("Set pop", base, basic, [&](S& x) { x.pop(); }, alloc);
        inject("Set min max", base, strong, [&](S& x) { mon::keep(As<T>::key(x.min()) + As<T>::key(x.max())); }, alloc);
    }
    inject("Set extend", base, basic, [&](S& x) { x.extend(u.begin(), u.end()); }, alloc);
    inject("Set &=", base, basic, [&](S& x) { x &= other; }, alloc);
    inject("Set |=", base, basic, [&](S& x) { x |= other; }, alloc);
    inject("Set -=", base, basic, [&](S& x) { x -= other; }, alloc);
    inject("Set ^=", base, basic, [&](S& x) { x ^= other; }, alloc);
    inject("Set ^= itself", base, basic, [&](S& x) { x ^= x; }, alloc);
    inject("Set &", base, strong, [&](S& x) { mon::keep((x & other).size()); }, alloc);
    inject("Set |", base, strong, [&](S& x) { mon::keep((x | other).size()); }, alloc);
    inject("Set -", base, strong, [&](S& x) { mon::keep((x - other).size()); }, alloc);
    inject("Set ^", base, strong, [&](S& x) { mon::keep((x ^ other).size()); }, alloc);
    if (!alloc)
        inject("Set print", base, strong, [&](S& x) { std::ostringstream o; o << x; }, alloc);
}
SUITE(set_element_failures, 24, 1200)
{
    switch (idx % 3)
    {
        case 0: set_faults<ElemN>(rng, false); break;
        case 1: set_faults<ElemC>(rng, false); break;
        default: set_faults<ElemT>(rng, false);
    }
}
SUITE(set_allocation_failures, 40, 1200)
{
    switch (idx % 5)
    {
        case 0: set_faults<ElemN>(rng, true); break;
        case 1: set_faults<ElemC>(rng, true); break;
        case 2: set_faults<Str>(rng, true); break;
        case 3: set_faults<Int>(rng, true); break;
        default: set_faults<std::string>(rng, true);
    }
}
// larger ones: some of the failures
SUITE(set_large, 48, 1600)
{
    Sparse mode;
    switch (idx % 6)
    {
        case 0: set_faults<ElemN>(rng, false); break;
        case 1: set_faults<ElemC>(rng, false); break;
        case 2: set_faults<ElemT>(rng, false); break;
        case 3: set_faults<ElemC>(rng, true); break;
        case 4: set_faults<Str>(rng, true); break;
        default: set_faults<ElemN>(rng, true);
    }
}
