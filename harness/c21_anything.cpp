// C21: no public operation has undefined behaviour. The sanitizers (or memcheck, in the second build) watch; the harness
// provides hostile arguments in long histories, and requires that every error is a std::exception and that no block is lost.
#include "ops.hpp"
using namespace ops;

static void history(Rng& r, int steps)
{
    std::ostringstream out;
    {
        build_table();
        World w(r);
        std::uint64_t h = 1;
        for (int i = 0; i < steps; ++i)
        {
            const int k = int(r.range(0, op_count() - 1));
            const std::uint64_t s = r.next();
            Rng rr(s);
            Ctx c{rr, out};
            mon::set_op(op_name(k));
            mon::count_n(op_name(k), 1);
            NOTE("op " << op_name(k) << " seed " << s);
            const mon::Out o = run_op(k, w, c);
            NOTE("   -> " << mon::name(o) << " " << out.str());
            EXPECT(o != mon::Out::alien, "alien:" + std::string(op_name(k)), "threw something that is not a std::exception");
            if (o != mon::Out::ok)
                mon::count_n("(rejections)", 1);
            mon::evaluated();
            h = mon::hash_str(op_name(k), mon::hash_mix(h, s));
            mon::nontrivial(h);
            if (i == 0)
                SAMPLE("history", out.str().substr(0, 300));
            out.str("");
        }
    }
}

SUITE(mixed, 1800, 90000)
{
    Large mode(idx % 6 == 5);
    history(rng, 60);
}

// one operation after the other on the same kind of world, each many times: nothing is left out
SUITE(each_op, 600, 40000)
{
    Large mode(idx % 6 == 5);
    build_table();
    const int n = op_count();
    std::ostringstream out;
    World w(rng);
    for (int j = 0; j < 12; ++j)
    {
        const int k = int((idx * 12 + j) % n);
        const std::uint64_t s = rng.next();
        Rng rr(s);
        Ctx c{rr, out};
        mon::set_op(op_name(k));
        mon::count_n(op_name(k), 1);
        const mon::Out o = run_op(k, w, c);
        EXPECT(o != mon::Out::alien, "alien:" + std::string(op_name(k)), "threw something that is not a std::exception");
        mon::evaluated();
        mon::nontrivial(mon::hash_mix(mon::hash_str(op_name(k)), s));
        out.str("");
    }
}

// blocks of memory: what a scope allocates is gone when it ends, rejections and exceptions included
SUITE(leaks, 800, 40000)
{
#ifndef MON_NO_ALLOC
    build_table();
    const int k = int(idx % op_count());
    const std::uint64_t s1 = rng.next();
    const std::uint64_t s2 = rng.next();
    long long diff[2];
    for (int round = 0; round < 2; ++round) // the first round may fill caches of the runtime
    {
        std::string().swap(mon::last_what);
        mon::last_what.reserve(300);
        const long long before = mon::alloc_live;
        {
            Rng r1(s1), r2(s2);
            World w(r1);
            std::ostringstream out;
            Ctx c{r2, out};
            mon::set_op(op_name(k));
            run_op(k, w, c);
            Ctx d{r2, out};
            run_op(k, w, d);
        }
        std::string().swap(mon::last_what);
        mon::last_what.reserve(300);
        diff[round] = mon::alloc_live - before;
    }
    mon::evaluated();
    mon::nontrivial(mon::hash_mix(mon::hash_str(op_name(k)), s1));
    EXPECT(diff[1] == 0, "leak:" + std::string(op_name(k)), op_name(k) << " leaves " << diff[1] << " blocks allocated");
#endif
}

// large containers and long numbers
SUITE(large, 40, 800)
{
    const int n = mon::thorough ? int(rng.range(20000, 200000)) : int(rng.range(5000, 40000));
    std::vector<int> v(n);
    for (auto& x : v)
        x = int(rng.range(-n, n));
    switch (idx % 6)
    {
        case 0:
        {
            List<int> l(v);
            OP("large List");
            l.sort(), l.reverse(), l <<= INT_MIN, l >>= INT_MIN, l.erase(n / 3, n / 2), l.filter([](int x)
                                                                                              { return x & 1; });
            l += l, l *= 3, l /= 1, l.insert(l.size(), 4), l.insert(-l.size(), 4), l.remove(-1), l.remove(0);
            mon::keep(l.slice(0, l.size(), INT_MAX).size() + l.slice(-1, -l.size() - 1, INT_MIN).size());
            l.extend(l.begin(), l.end());
            break;
        }
        case 1:
        {
            Deque<int> q(v.begin(), v.end());
            OP("large Deque");
            q <<= INT_MAX, q >>= INT_MIN, q.reverse(), q.extend_back(q.begin(), q.end()), q.extend_front(q.rbegin(), q.rend());
            while (q.size() > 3)
                q.pop_back(), q.pop_front();
            break;
        }
        case 2:
        {
            Set<int> a(v.begin(), v.end()), b(v.begin(), v.begin() + n / 2);
            OP("large Set");
            a ^= b, a |= b, a &= b, a -= a, a.extend(b.begin(), b.end());
            mon::keep((a <= b) + (a == b));
            break;
        }
        case 3:
        {
            Dict<int, int> d;
            OP("large Dict");
            for (int x : v)
                d.add(x, -x);
            mon::keep(d.keys().size() + d.values().size() + d.items().size());
            while (!d.is_empty())
                d.pop();
            break;
        }
        case 4:
        {
            OP("large Int");
            const int m = int(rng.range(100, mon::thorough ? 3000 : 1500));
            std::string s = "9";
            for (int i = 1; i < m; ++i)
                s += char('0' + v[i] % 5 + 4);
            Int a(s.c_str()), b(s.substr(0, m / 2).c_str());
            Int q = a / b, t = a % b, p = a * a;
            mon::keep(q * b + t == a);
            mon::keep(Int::sqrt(p) == a);
            a -= a, a += 1, --a, --a;
            break;
        }
        default:
        {
            OP("large Str");
            std::string s;
            for (int x : v)
                s += char(x);
            Str t(s);
            mon::keep((t << INT_MIN).size() + (t >> INT_MIN).size() + t.replace("a", "bcd").size() + t.replace("", "-").size() + t.split("a").size() + t.count("") + t.upper().lower().reverse().size() + t.strip().size());
            mon::keep(t.slice(-1, -t.size() - 1, -1) == t.reverse());
            List<Str> l = t.split("b", true);
            mon::keep(Str("b").join(l) == t);
        }
    }
    mon::evaluated();
    mon::nontrivial(mon::hash_mix(idx, std::uint64_t(n)));
}

// strings as long as the library takes them, in every operation at once: sizes that only their product makes large
SUITE(large_str, 24, 400)
{
    const int n = int(rng.range(20000, 90000)), m = int(rng.range(20000, 90000));
    const int every = int(rng.range(1, 3) == 1 ? 1 : rng.range(2, 40000)); // how often the pattern occurs
    std::string t(std::size_t(n), 'x');
    for (int i = every - 1; i < n; i += every)
        t[i] = 'a';
    const std::string u(std::size_t(m), rng.of<char>({'y', ' ', '\0', 'a'}));
    const Str x(t), y(u);
    switch (idx % 6)
    {
        case 0:
        {
            OP("long replace");
            if ((long long)(n / every) * m > 300000000)
                mon::keep(x.replace("x", "zz").size());
            else
                mon::keep(x.replace("a", y).size());
            mon::keep(x.replace(y, "b").size() + y.replace(u.substr(0, m / 2).c_str(), x).size() + x.replace(x, y).size());
            break;
        }
        case 1:
        {
            OP("long split join");
            const List<Str> l = x.split("a", true);
            mon::keep(Str("a").join(l) == x);
            if ((long long)l.size() * m < 300000000)
                mon::keep(y.join(l).size());
            mon::keep(x.split(y).size() + x.split(x, true).size());
            break;
        }
        case 2:
        {
            OP("long search");
            mon::keep(x.count("a") + x.count(y) + x.count("") + x.find(u.substr(0, 3).c_str()) + x.starts_with(y) + x.ends_with(y) + x.contains(x));
            mon::keep(x.find("a", n - 1, n) + x.find("a", n / 2, INT_MAX));
            break;
        }
        case 3:
        {
            OP("long repeat");
            mon::keep((x * 3).size() + (x + y).size());
            for (int k : {INT_MAX, INT_MAX / n + 1, 70000, 65536 * 2, (INT_MAX / n + 1) * 2})
                if ((long long)k * n > INT_MAX)
                    EXPECT(mon::attempt([&] { mon::keep((x * k).size()); }) != mon::Out::alien, "alien:Str *", k);
            break;
        }
        case 4:
        {
            OP("long strip erase");
            mon::keep(y.strip().size() + y.strip('a').size() + x.strip('x').size() + (y + x + y).strip().size() + (Str("a") + y).strip().size() + (y + "a").strip().size());
            mon::keep(x.erase(0, n).size() + x.erase(n, n).size() + x.erase(n / 2, n - 1).size());
            break;
        }
        default:
        {
            OP("long format");
            mon::keep((x + "{}" + y + "{}").format(x, y, 1).size() + (y.lower().upper().reverse() << n).size());
            mon::keep(x.slice(-1, -n - 1, -7).size() + x.slice(0, n, 40000).size());
            const Str d(std::string(std::size_t(n / 20), '9') + "." + std::string(std::size_t(m / 20), '7'));
            mon::attempt([&] { mon::keep(d.to_decimal()); });
            mon::attempt([&] { mon::keep(d.to_integer().digits()); });
        }
    }
    mon::evaluated();
    mon::nontrivial(mon::hash_mix(idx, mon::hash_mix(std::uint64_t(n), std::uint64_t(m))));
}

// every operation that takes linear time on a million elements, characters or matches: none may need stack for each of them
SUITE(deep, 24, 48)
{
#ifdef MON_NO_ALLOC // under memcheck
    const int n = 3000;
#else
    const int n = mon::thorough ? 3000000 : 700000;
#endif
    switch (idx % 12)
    {
        case 0:
        {
            OP("deep count");
            const Str t(std::string(std::size_t(n), 'a'));
            mon::keep(t.count("a") == n && t.count("") == n + 1 && t.count("b") == 0);
            break;
        }
        case 1:
        {
            OP("deep replace");
            const Str t(std::string(std::size_t(n), 'a'));
            mon::keep(t.replace("a", "b").size() == n && t.replace("a", "").size() == 0 && t.replace("", "-").size() == 2 * n + 1);
            break;
        }
        case 2:
        {
            OP("deep split");
            const Str t(std::string(std::size_t(n), ','));
            mon::keep(t.split(",").size() == 0 && t.split(",", true).size() == n + 1);
            const List<Str> l = t.split(",", true);
            mon::keep(Str(",").join(l) == t);
            break;
        }
        case 3:
        {
            OP("deep strip");
            const Str t(std::string(std::size_t(n), ' ') + "x" + std::string(std::size_t(n), ' '));
            mon::keep(t.strip() == "x" && t.strip(' ') == "x" && t.lower().upper() == t.upper() && t.reverse().find("x") == n);
            mon::keep(t.starts_with(t) && t.ends_with(t) && t == Str(t) && !(t < t));
            break;
        }
        case 4:
        {
            OP("deep to_decimal");
            const Str t(std::string(std::size_t(n), ' ') + "7" + std::string(std::size_t(n), '0') + "e-" + std::to_string(n) + std::string(std::size_t(n), ' '));
            mon::keep(t.to_decimal() == 7);
            mon::keep(Str(std::string(std::size_t(n), ' ') + "12" + std::string(std::size_t(n), ' ')).to_integer() == 12);
            break;
        }
        case 5:
        {
            OP("deep format");
            std::string f;
            for (int i = 0; i < n / 4; ++i)
                f += "{ab";
            const Str t(f);
            mon::keep(t.format(1, 2).size() + (t << 5).size() + (t * 2).size() + t.slice(-1, -t.size() - 1, -1).size() + t.erase(1, t.size()).size());
            std::ostringstream o;
            o << t;
            std::istringstream i(f);
            Str u;
            i >> u;
            mon::keep(u == t);
            break;
        }
        case 6:
        {
            OP("deep List");
            List<int> l(std::vector<int>(std::size_t(n), 5));
            l += 7;
            mon::keep(l.count(5) == n && l.index(7) == n && l.contains(7) && l.find(8) == l.end() && l == List<int>(l) && !(l < l));
            l.uniquify();
            mon::keep(l.size() == 2);
            break;
        }
        case 7:
        {
            OP("deep List edits");
            std::vector<int> v;
            for (int i = 0; i < n; ++i)
                v.push_back(i % 1000);
            List<int> l(v);
            l.sort(), l.sort([](const int& a, const int& b) { return b < a; }), l.reverse(), l <<= n / 3, l >>= 1, l.map([](int& x) { ++x; }), l.filter([](const int& x) { return x % 2 == 0; });
            l /= 4, l -= 6, l += l, l *= 2, l.erase(1, l.size()), l.extend(v.begin(), v.end());
            mon::keep(l.size() == n + 1);
            std::ostringstream o;
            o << l;
            break;
        }
        case 8:
        {
            OP("deep Deque");
            Deque<int> d;
            for (int i = 0; i < n; ++i)
                i % 2 ? d.push_back(i) : d.push_front(i);
            d.reverse(), d <<= n / 3, d.extend_front(d.begin(), d.end());
            mon::keep(d.size() == 2 * n && d == Deque<int>(d) && !(d < d));
            std::ostringstream o;
            o << d;
            break;
        }
        case 9:
        {
            OP("deep Set and Dict");
            std::vector<int> v;
            Dict<int, int> d;
            for (int i = 0; i < n / 4; ++i)
                v.push_back(i), d.add(i, i);
            Set<int> s(v.begin(), v.end());
            const Set<int> t(s);
            mon::keep(s == t && s <= t && (s & t) == t && (s | t) == t && (s ^ t).is_empty() && (s - t).is_empty() && d == Dict<int, int>(d));
            mon::keep(d.keys() == t && d.values() == t && d.items().size() == t.size());
            std::ostringstream o;
            o << s << d;
            s.clear(), d.clear();
            break;
        }
        case 10:
        {
            OP("deep Int");
            const std::string nines(std::size_t(n), '9');
            Int a(nines.c_str());
            const Int b = a;
            mon::keep(a == b && !(a < b) && a.digits() == n && a.is_odd());
            ++a;
            mon::keep(a.digits() == n + 1);
            --a;
            a += 1, a -= 1, a = a + a, a = a - b;
            mon::keep(a == b && a - b == 0 && -(-a) == b && std::hash<Int>{}(a) == std::hash<Int>{}(b));
            mon::keep(a * 2 - a == b && a % (a + 1) == a);
            std::ostringstream o;
            o << a;
            mon::keep(o.str() == nines);
            std::istringstream i(nines);
            Int c;
            i >> c;
            mon::keep(c == a);
            break;
        }
        default:
        {
            OP("deep blanks");
            const std::string blanks(std::size_t(n), ' ');
            std::istringstream a(blanks + "12"), b(blanks + "3/4"), c(blanks + "1+2j");
            Int x;
            Fraction y;
            Complex z;
            a >> x, b >> y, c >> z;
            mon::keep(x == 12 && y == Fraction(3, 4) && z == Complex(1, 2));
            for (const std::string& s : {blanks, blanks + "z"})
            {
                std::istringstream d(s), e(s), f(s);
                mon::attempt([&] { d >> x; });
                mon::attempt([&] { e >> y; });
                mon::attempt([&] { f >> z; });
            }
        }
    }
    mon::evaluated();
    mon::nontrivial(mon::hash_mix(777, idx));
}
