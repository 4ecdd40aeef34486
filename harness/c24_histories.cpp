#include "c24_faults.hpp"

// histories: now and then an operation fails, and the object carries on
template <typename T>
void history(Rng& r)
{
    const long long live0 = es.live;
    {
        List<T> l;
        Deque<T> q;
        Set<T> s;
        Dict<T, T> d;
        std::uint64_t h = 3;
        for (int step = 0; step < 120; ++step)
        {
            const T e = As<T>::make(int(r.range(-9, 9)));
            const int op = int(r.range(0, 23));
            const bool alloc = r.chance(1, 3);
            const int at = r.chance(1, 3) ? 0 : int(r.range(1, 14));
            const int n = l.size();
            const int i = int(r.range(0, n));
            const std::string before[4] = {peek(l), peek(q), peek(s), peek(d)};
            const char* name = "";
            bool threw = false, keeps = false;
            es.fired = false, mon::alloc_failed = false;
            auto go = [&](const char* nm, auto f)
            {
                name = nm;
                mon::set_op(nm);
                (alloc ? mon::alloc_fail_at : es.fail_at) = at;
                try
                {
                    f();
                }
                catch (const InjectedFailure&)
                {
                    threw = true;
                }
                catch (const std::bad_alloc&)
                {
                    threw = true;
                }
                catch (const std::runtime_error&)
                {
                }
                mon::alloc_fail_at = 0, es.fail_at = 0;
            };
            switch (op)
            {
                case 0:
                case 1: keeps = true, go("List += element", [&] { l += e; }); break;
                case 2: go("List insert", [&] { l.insert(i, e); }); break;
                case 3: go("List remove", [&] { l.remove(i); }); break;
                case 4: go("List -=", [&] { l -= e; }); break;
                case 5: go("List uniquify", [&] { l.uniquify(); }); break;
                case 6: go("List sort", [&] { l.sort(); }); break;
                case 7: go("List <<=", [&] { l <<= i; }); break;
                case 8: go("List += list", [&] { l += l; if (l.size() > 60) l.clear(); }); break;
                case 9: go("List filter", [&] { l.filter(Callback()); }); break;
                case 10:
                case 11: keeps = true, go("Deque push_back", [&] { q.push_back(e); }); break;
                case 12: keeps = true, go("Deque push_front", [&] { q.push_front(e); }); break;
                case 13: go("Deque pop_front", [&] { q.pop_front(); }); break;
                case 14: go("Deque extend_front", [&] { q.extend_front(l.begin(), l.end()); if (q.size() > 90) q.clear(); }); break;
                case 15: go("Deque >>=", [&] { q >>= i; }); break;
                case 16:
                case 17: keeps = true, go("Set add", [&] { s.add(e); }); break;
                case 18: go("Set remove", [&] { s.remove(e); }); break;
                case 19: go("Set extend", [&] { s.extend(l.begin(), l.end()); }); break;
                case 20: go("Set ^=", [&] { s ^= Set<T>(q.begin(), q.end()); }); break;
                case 21: keeps = true, go("Dict add", [&] { d.add(e, e); }); break;
                case 22: go("Dict remove", [&] { d.remove(e); }); break;
                default: go("Dict pop", [&] { d.pop(); });
            }
            const std::string after[4] = {peek(l), peek(q), peek(s), peek(d)};
            const int mine = op <= 9 ? 0 : op <= 15 ? 1 : op <= 20 ? 2 : 3;
            for (int k = 0; k < 4; ++k)
                EXPECT(k == mine || after[k] == before[k], std::string("fault-other:") + name, name << " changed another object from " << before[k] << " to " << after[k]);
            EXPECT(well_formed(l, after[0]) && well_formed(q, after[1]) && well_formed(s, after[2]) && well_formed(d, after[3]), std::string("fault-history:") + name, "damaged by " << name << " with " << (alloc ? "allocation " : "element operation ") << at << " failing: " << after[mine]);
            if (threw && keeps)
                EXPECT(after[mine] == before[mine], std::string("fault-history-strong:") + name, name << " failed and changed " << before[mine] << " to " << after[mine]);
            check_canaries("fault-history", name);
            if (threw)
            {
                mon::count_n("(failures in histories)", 1);
                h = mon::hash_mix(mon::hash_str(name, h), std::uint64_t(at * 2 + alloc));
                mon::nontrivial(h);
                // elements that were moved away are worth nothing now
                if (after[mine].find("moved") != std::string::npos)
                    mine == 0 ? l.clear() : q.clear();
            }
            mon::evaluated();
        }
    }
    EXPECT(es.live == live0, "fault-history-elements", es.live - live0 << " elements are left alive after a history");
    check_canaries("fault-history", "the end of a history");
}
SUITE(histories, 240, 12000)
{
    switch (idx % 3)
    {
        case 0: history<ElemN>(rng); break;
        case 1: history<ElemC>(rng); break;
        default: history<ElemT>(rng);
    }
}
