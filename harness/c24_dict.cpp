#include "c24_faults.hpp"

template <typename K>
void dict_faults(Rng& r, bool alloc)
{
    using V = K;
    using D = Dict<K, V>;
    const int span = sparse ? 300 : 6;
    const auto make = [&](int n)
    {
        D d;
        for (int i = 0; i < n; ++i)
        {
            const int k = int(r.range(-span, span));
            d.add(As<K>::make(k), As<V>::make(k * 3));
        }
        return d;
    };
    const D base = make(few(r, 8)), other = make(few(r, 5));
    const K k = As<K>::make(int(r.range(-span - 2, span + 2)));
    const V v = As<V>::make(50);
    inject("Dict copy", base, strong, [&](D& x) { D y(x); }, alloc);
    inject("Dict =", other, basic, [&](D& x) { x = base; }, alloc);
    inject("Dict from range", base, strong, [&](D& x) { D y(x.begin(), x.end()); }, alloc);
    inject("Dict queries", base, strong, [&](D& x) { mon::keep(x.contains(k) + (x.find(k) == x.end()) + (x == other)); }, alloc);
    inject("Dict get", base, strong, [&](D& x) { mon::keep(As<V>::key(x.get(k, v))); }, alloc);
    if (base.contains(k))
    {
        inject("Dict [] =", base, basic, [&](D& x) { x[k] = v; }, alloc);
        inject("Dict []", base, strong, [&](D& x) { mon::keep(As<V>::key(x[k])); }, alloc);
    }
    inject("Dict add", base, strong, [&](D& x) { x.add(k, v); }, alloc);
    inject("Dict remove", base, basic, [&](D& x) { x.remove(k); }, alloc);
    if (base.size())
    {
        inject("Dict pop", base, basic, [&](D& x) { x.pop(); }, alloc);
        inject("Dict min max", base, strong, [&](D& x) { mon::keep(As<K>::key(x.min()) + As<K>::key(x.max())); }, alloc);
    }
    inject("Dict extend", base, basic, [&](D& x) { x.extend(other.begin(), other.end()); }, alloc);
    inject("Dict keys", base, strong, [&](D& x) { mon::keep(x.keys().size()); }, alloc);
    inject("Dict values", base, strong, [&](D& x) { mon::keep(x.values().size()); }, alloc);
    inject("Dict items", base, strong, [&](D& x) { mon::keep(x.items().size()); }, alloc);
    inject("Dict clear", base, basic, [&](D& x) { x.clear(); }, alloc);
    if (!alloc)
        inject("Dict print", base, strong, [&](D& x) { std::ostringstream o; o << x; }, alloc);
}
template <typename A>
void tuple_faults(Rng& r, bool alloc)
{
    using B = A;
    using T = Tuple<A, B>;
    const A a = As<A>::make(int(r.range(-6, 6))), c = As<A>::make(int(r.range(-6, 6)));
    const B b = As<B>::make(int(r.range(-6, 6)));
    const T base(a, b), other(c, b);
    inject("Tuple copy", base, strong, [&](T& x) { T y(x); }, alloc);
    inject("Tuple =", base, basic, [&](T& x) { x = other; }, alloc);
    inject("Tuple make", base, strong, [&](T&) { mon::keep(pyincpp::make_tuple(a, b).size()); }, alloc);
    inject("Tuple ==", base, strong, [&](T& x) { mon::keep((x == other) + (x != other)); }, alloc);
    if (!alloc)
        inject("Tuple print", base, strong, [&](T& x) { std::ostringstream o; o << x; }, alloc);
}
SUITE(dict_element_failures, 24, 1200)
{
    switch (idx % 3)
    {
        case 0: dict_faults<ElemN>(rng, false); break;
        case 1: dict_faults<ElemC>(rng, false); break;
        default: dict_faults<ElemT>(rng, false);
    }
}
SUITE(dict_allocation_failures, 40, 1200)
{
    switch (idx % 5)
    {
        case 0: dict_faults<ElemN>(rng, true); break;
        case 1: dict_faults<ElemC>(rng, true); break;
        case 2: dict_faults<Str>(rng, true); break;
        case 3: dict_faults<Int>(rng, true); break;
        default: dict_faults<std::string>(rng, true);
    }
}
SUITE(tuple_element_failures, 24, 1200)
{
    switch (idx % 3)
    {
        case 0: tuple_faults<ElemN>(rng, false); break;
        case 1: tuple_faults<ElemC>(rng, false); break;
        default: tuple_faults<ElemT>(rng, false);
    }
}
SUITE(tuple_allocation_failures, 40, 1200)
{
    switch (idx % 5)
    {
        case 0: tuple_faults<ElemN>(rng, true); break;
        case 1: tuple_faults<ElemC>(rng, true); break;
        case 2: tuple_faults<Str>(rng, true); break;
        case 3: tuple_faults<Int>(rng, true); break;
        default: tuple_faults<std::string>(rng, true);
    }
}
// larger ones: some of the failures
SUITE(dict_large, 48, 1600)
{
    Sparse mode;
    switch (idx % 6)
    {
        case 0: dict_faults<ElemN>(rng, false); break;
        case 1: dict_faults<ElemC>(rng, false); break;
        case 2: dict_faults<ElemT>(rng, false); break;
        case 3: dict_faults<ElemC>(rng, true); break;
        case 4: dict_faults<Str>(rng, true); break;
        default: dict_faults<ElemN>(rng, true);
    }
}
