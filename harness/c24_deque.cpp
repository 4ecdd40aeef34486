#include "c24_faults.hpp"

template <typename T>
void deque_faults(Rng& r, bool alloc)
{
    using Q = Deque<T>;
    const int n = r.chance(1, 6) ? 0 : r.chance(1, 6) ? int(r.range(10, 45)) : few(r, 8);
    const int span = sparse ? 300 : 6;
    const auto v = elems<T>(r, n, span);
    const auto u = elems<T>(r, few(r, 6), span);
    const Q base(v.begin(), v.end()), other(u.begin(), u.end());
    const T e = As<T>::make(int(r.range(-span, span)));
    const int rot = int(r.range(-2 * span, 2 * span));
    inject("Deque copy", base, strong, [&](Q& x) { Q y(x); }, alloc);
    inject("Deque =", other, basic, [&](Q& x) { x = base; }, alloc);
    inject("Deque from range", base, strong, [&](Q&) { Q y(v.begin(), v.end()); }, alloc);
    inject("Deque == <=>", base, strong, [&](Q& x) { mon::keep((x == other) + (x < other) + (x == base)); }, alloc);
    inject("Deque push_back", base, strong, [&](Q& x) { x.push_back(e); }, alloc);
    inject("Deque push_front", base, strong, [&](Q& x) { x.push_front(e); }, alloc);
    if (n)
    {
        inject("Deque push_back own", base, strong, [&](Q& x) { x.push_back(x.front()); }, alloc);
        inject("Deque push_front own", base, strong, [&](Q& x) { x.push_front(x.back()); }, alloc);
        inject("Deque pop_back", base, strong, [&](Q& x) { x.pop_back(); }, alloc);
        inject("Deque pop_front", base, strong, [&](Q& x) { x.pop_front(); }, alloc);
        inject("Deque [] =", base, basic, [&](Q& x) { x[n / 2] = e; }, alloc);
    }
    inject("Deque extend_back", base, basic, [&](Q& x) { x.extend_back(u.begin(), u.end()); }, alloc);
    inject("Deque extend_front", base, basic, [&](Q& x) { x.extend_front(u.begin(), u.end()); }, alloc);
    inject("Deque extend_back itself", base, basic, [&](Q& x) { x.extend_back(x.begin(), x.end()); }, alloc);
    inject("Deque extend_front itself", base, basic, [&](Q& x) { x.extend_front(x.begin(), x.end()); }, alloc);
    inject("Deque >>= <<=", base, basic, [&](Q& x) { x >>= rot, x <<= 1; }, alloc);
    inject("Deque reverse", base, basic, [&](Q& x) { x.reverse(); }, alloc);
    inject("Deque clear", base, basic, [&](Q& x) { x.clear(); }, alloc);
    if (!alloc)
        inject("Deque print", base, strong, [&](Q& x) { std::ostringstream o; o << x; }, alloc);
}
SUITE(deque_element_failures, 24, 1200)
{
    switch (idx % 3)
    {
        case 0: deque_faults<ElemN>(rng, false); break;
        case 1: deque_faults<ElemC>(rng, false); break;
        default: deque_faults<ElemT>(rng, false);
    }
}
SUITE(deque_allocation_failures, 40, 1200)
{
    switch (idx % 5)
    {
        case 0: deque_faults<ElemN>(rng, true); break;
        case 1: deque_faults<ElemC>(rng, true); break;
        case 2: deque_faults<Str>(rng, true); break;
        case 3: deque_faults<Int>(rng, true); break;
        default: deque_faults<std::string>(rng, true);
    }
}
// larger ones: some of the failures
SUITE(deque_large, 48, 1600)
{
    Sparse mode;
    switch (idx % 6)
    {
        case 0: deque_faults<ElemN>(rng, false); break;
        case 1: deque_faults<ElemC>(rng, false); break;
        case 2: deque_faults<ElemT>(rng, false); break;
        case 3: deque_faults<ElemC>(rng, true); break;
        case 4: deque_faults<Str>(rng, true); break;
        default: deque_faults<ElemN>(rng, true);
    }
}
