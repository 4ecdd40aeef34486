// C22: values are independent. Snapshots of every object of the world are taken around each operation; copies of the whole
// world live on beside it; the same operation is run with its arguments aliased and with copies of them.
#include "ranges.hpp"
#include "ops.hpp"
using namespace ops;

static void expect_same(const World& w, const std::vector<std::string>& before, const std::vector<const void*>& touched, const char* key, const char* op, const std::string& what)
{
    const auto now = w.snapshot();
    const auto addr = w.addresses();
    for (std::size_t i = 0; i < now.size(); ++i)
        if (std::find(touched.begin(), touched.end(), addr[i]) == touched.end())
            EXPECT(now[i] == before[i], std::string(key) + ":" + op, what << " " << op << ": object " << i << " changed from " << before[i].substr(0, 300) << " to " << now[i].substr(0, 300));
}
static void compare(const std::vector<std::string>& a, const std::vector<std::string>& b, const std::string& key, const std::string& what)
{
    for (std::size_t i = 0; i < a.size(); ++i)
        EXPECT(a[i] == b[i], key, what << ": object " << i << " is " << a[i].substr(0, 300) << " where it should be " << b[i].substr(0, 300));
}

// one world runs with aliased arguments, its twin with copies; nothing but the object operated on may change
static void operands(Rng& rng, std::uint64_t idx, int steps)
{
    build_table();
    const std::uint64_t ws = rng.next();
    Rng r1(ws), r2(ws);
    World w1(r1), w2(r2);
    std::uint64_t h = ws;
    auto before = w1.snapshot();
    compare(w2.snapshot(), before, "frame", "twin worlds");
    for (int i = 0; i < steps; ++i)
    {
        int k = int(rng.range(0, op_count() - 1));
        if (i % 4 == 0) // every operation gets its turn
            k = int((idx * 6 + i / 4) % op_count());
        const std::uint64_t s = rng.next();
        NOTE(op_name(k) << " seed " << s);
        std::ostringstream o1, o2;
        Rng ra(s), rb(s);
        Ctx c1{ra, o1}, c2{rb, o2};
        c2.copy_args = true;
        mon::set_op(op_name(k));
        mon::count_n(op_name(k), 1);
        const mon::Out x1 = run_op(k, w1, c1);
        const mon::Out x2 = run_op(k, w2, c2);
        NOTE("   aliased " << o1.str() << "   copies  " << o2.str());
        EXPECT(x1 == x2 && o1.str() == o2.str(), "alias:" + std::string(op_name(k)), "with its arguments aliased: " << o1.str().substr(0, 500) << " with copies: " << o2.str().substr(0, 500));
        if (op_is_const(k))
            c1.touched.clear();
        expect_same(w1, before, c1.touched, "operand", op_name(k), "after");
        const auto now = w1.snapshot();
        compare(now, w2.snapshot(), "alias-state:" + std::string(op_name(k)), std::string("after ") + op_name(k) + " with aliased arguments, against copies");
        if (now != before)
            mon::count_n("(world changed)", 1);
        before = now;
        mon::evaluated();
        h = mon::hash_str(op_name(k), mon::hash_mix(h, s));
        mon::nontrivial(h);
        if (i == 1)
            SAMPLE("operands", o1.str().substr(0, 200));
    }
}
SUITE(operands, 1100, 60000)
{
    operands(rng, idx, 24);
}
SUITE(operands_large, 250, 20000)
{
    Large mode;
    operands(rng, idx, 24);
}

// element-wise operations with the arguments taken from the very object: small containers of each type, every element in turn
template <typename C, typename F>
static void own_element(const char* op, const C& base, F f)
{
    if (base.size() == 0)
        return;
    for (int j = 0; j < 2 * base.size(); ++j)
    {
        const int i = j / 2;
        C x(base), y(base);
        if constexpr (requires { x.insert(0, *base.begin()); })
            if (j & 1) // leave room behind the last element
            {
                x += *base.begin(), x.remove(-1);
                y += *base.begin(), y.remove(-1);
            }
        const auto& alias = *std::next(x.begin(), i);
        const auto copy = *std::next(base.begin(), i);
        std::ostringstream ox, oy;
        mon::set_op(op);
        mon::count_n(op, 1);
        f(x, alias, ox);
        f(y, copy, oy);
        EXPECT(dumps(x) == dumps(y) && ox.str() == oy.str(), "own:" + std::string(op), op << " with own element " << i << " of " << dumps(base) << ": " << dumps(x) << " returning " << ox.str() << ", with a copy of it " << dumps(y) << " returning " << oy.str());
        mon::evaluated();
        mon::nontrivial(mon::hash_mix(mon::hash_str(dumps(base)), mon::hash_str(op, std::uint64_t(i))));
    }
}
template <typename T>
static void own_elements(Rng& rng)
{
    const auto v = gen_vec<T>(rng);
    if (v.size() > 24)
        return;
    const List<T> l(v);
    const Deque<T> q(v.begin(), v.end());
    const Set<T> s(v.begin(), v.end());
    const int k = int(rng.range(0, l.size()));
    own_element("List += own", l, [](auto& x, const auto& e, auto&) { x += e; });
    own_element("List -= own", l, [](auto& x, const auto& e, auto&) { x -= e; });
    own_element("List /= own", l, [](auto& x, const auto& e, auto&) { x /= e; });
    own_element("List insert own", l, [&](auto& x, const auto& e, auto&) { x.insert(k, e); });
    own_element("List insert own at -1", l, [&](auto& x, const auto& e, auto&) { x.insert(-1, e); });
    own_element("List queries own", l, [&](auto& x, const auto& e, auto& o) { o << x.count(e) << x.index(e) << x.contains(e); dump(o, x + e); dump(o, x - e); dump(o, x / e); });
    own_element("Deque push_back own", q, [](auto& x, const auto& e, auto&) { x.push_back(e); });
    own_element("Deque push_front own", q, [](auto& x, const auto& e, auto&) { x.push_front(e); });
    own_element("Deque = own", q, [](auto& x, const auto& e, auto&) { x.front() = e; });
    own_element("Set add own", s, [](auto& x, const auto& e, auto& o) { o << x.add(e); });
    own_element("Set remove own", s, [](auto& x, const auto& e, auto& o) { o << x.remove(e); });
    own_element("Set contains own", s, [](auto& x, const auto& e, auto& o) { o << x.contains(e); });
    for (int a = 0; a <= l.size() && a < 6; ++a)
        for (int b = a; b <= l.size() && b < 8; ++b)
        {
            List<T> x(l), y(l);
            OP("List extend own range");
            x.extend(x.begin() + a, x.begin() + b);
            y.extend(l.begin() + a, l.begin() + b);
            EXPECT(dumps(x) == dumps(y), "own:List extend", "own range [" << a << "," << b << ") of " << dumps(l) << ": " << dumps(x) << " want " << dumps(y));
            Deque<T> p(q), z(q);
            OP("Deque extend own range");
            if (a & 1)
                p.extend_front(p.begin() + a, p.begin() + b), z.extend_front(q.begin() + a, q.begin() + b);
            else
                p.extend_back(p.begin() + a, p.begin() + b), z.extend_back(q.begin() + a, q.begin() + b);
            EXPECT(dumps(p) == dumps(z), "own:Deque extend", "own range [" << a << "," << b << ") of " << dumps(q) << ": " << dumps(p) << " want " << dumps(z));
            mon::evaluated(2);
        }
}
SUITE(own_elements, 260, 15000)
{
    switch (idx % 4)
    {
        case 0: own_elements<int>(rng); break;
        case 1: own_elements<Str>(rng); break;
        case 2: own_elements<Int>(rng); break;
        default: own_elements<List<int>>(rng);
    }
}
// every size with others of all proportions: the operand stays as it was, the result lives on by itself
template <typename A, typename B, typename F>
static void two(const char* op, const A& a0, const B& b0, const std::string& da, const std::string& db, bool constant, F f)
{
    A a(a0);
    B b(b0);
    mon::set_op(op);
    mon::count_n(op, 1);
    auto r = f(a, b);
    EXPECT(dumps(b) == db, std::string("operand:") + op, op << ": the operand " << db.substr(0, 200) << " of " << da.substr(0, 200) << " is now " << dumps(b).substr(0, 200));
    const std::string after = dumps(a);
    if (constant)
        EXPECT(after == da, std::string("operand:") + op, op << ": the object " << da.substr(0, 200) << " is now " << after.substr(0, 200));
    const std::string dr = dumps(r);
    A c(a0);
    const B b2(b0);
    EXPECT(dumps(f(c, b2)) == dr && dumps(c) == after, std::string("alias-state:") + op, op << " repeated with other copies differs from " << dr.substr(0, 200));
    b = B(); // the other operand goes
    EXPECT(dumps(a) == after && dumps(r) == dr, std::string("result-depends:") + op, op << ": clearing the operand changed the result");
    if constexpr (!std::is_same_v<A, bool>)
    {
        a = A();
        EXPECT(dumps(r) == dr, std::string("result-depends:") + op, op << ": clearing the object changed the result");
    }
    mon::evaluated(4);
}
template <typename T>
static T nth(int i)
{
    if constexpr (std::is_same_v<T, Str>)
        return Str(std::to_string(i).c_str());
    else
        return T(i);
}
template <typename T>
static void proportions(Rng& rng, int n, int m)
{
    std::vector<T> va, vb;
    const int shift = rng.of<int>({0, 1, n / 2, n, -1, 2 * n});
    for (int i = 0; i < n; ++i)
        va.push_back(nth<T>(2 * i));
    for (int i = 0; i < m; ++i)
        vb.push_back(nth<T>(rng.chance(1, 2) ? 2 * i + shift : int(rng.range(0, 2 * n))));
    const std::string sizes = " " + std::to_string(n) + " with " + std::to_string(m);
    NOTE(sizes);
#define TWO(OP, A, B, CONST, BODY) two(OP, A, B, d##A, d##B, CONST, [&](auto& a, auto& b) BODY)
    {
        const List<T> x(va), y(vb);
        const std::string dx = dumps(x), dy = dumps(y);
        TWO("List +", x, y, true, { return a + b; });
        TWO("List +=", x, y, false, { return List<T>(a += b); });
        TWO("List extend", x, y, false, { a.extend(b.begin(), b.end()); return 0; });
        TWO("List ==", x, y, true, { return int(a == b) * 4 + int(a < b) * 2 + int(b < a); });
    }
    {
        const Deque<T> x(va.begin(), va.end()), y(vb.begin(), vb.end());
        const std::string dx = dumps(x), dy = dumps(y);
        TWO("Deque extend_back", x, y, false, { a.extend_back(b.begin(), b.end()); return 0; });
        TWO("Deque extend_front", x, y, false, { a.extend_front(b.begin(), b.end()); return 0; });
        TWO("Deque = ", x, y, false, { a = b; return 0; });
        TWO("Deque ==", x, y, true, { return int(a == b) * 4 + int(a < b) * 2 + int(b < a); });
    }
    {
        const Set<T> x(va.begin(), va.end()), y(vb.begin(), vb.end());
        const std::string dx = dumps(x), dy = dumps(y);
        TWO("Set &", x, y, true, { return a & b; });
        TWO("Set |", x, y, true, { return a | b; });
        TWO("Set -", x, y, true, { return a - b; });
        TWO("Set ^", x, y, true, { return a ^ b; });
        TWO("Set &=", x, y, false, { return Set<T>(a &= b); });
        TWO("Set |=", x, y, false, { return Set<T>(a |= b); });
        TWO("Set -=", x, y, false, { return Set<T>(a -= b); });
        TWO("Set ^=", x, y, false, { return Set<T>(a ^= b); });
        TWO("Set extend", x, y, false, { a.extend(b.begin(), b.end()); return 0; });
        TWO("Set inclusion", x, y, true, { return int(a == b) * 16 + int(a < b) * 8 + int(b < a) * 4 + int(a <= b) * 2 + int(a >= b); });
        Dict<T, int> p, q;
        int i = 0;
        for (auto& e : x)
            p.add(e, ++i);
        for (auto& e : y)
            q.add(e, --i);
        const std::string dp = dumps(p), dq = dumps(q);
        TWO("Dict extend", p, q, false, { a.extend(b.begin(), b.end()); return 0; });
        TWO("Dict = ", p, q, false, { a = b; return 0; });
        TWO("Dict ==", p, q, true, { return int(a == b); });
        TWO("Dict views", p, q, true, { return a.keys() | b.keys(); });
    }
    if constexpr (std::is_same_v<T, int>)
    {
        std::string sa, sb;
        for (int i = 0; i < n; ++i)
            sa += char('0' + rng.range(i == 0, 9));
        for (int i = 0; i < m; ++i)
            sb += rng.chance(1, 3) ? sa[i % n] : char('0' + rng.range(i == 0, 9));
        if (m == 0 || sb[0] == '0')
            sb = "1" + sb;
        const Str x(sa), y(sb);
        const std::string dx = dumps(x), dy = dumps(y);
        TWO("Str +", x, y, true, { return a + b; });
        TWO("Str find", x, y, true, { return a.find(b) * 8 + int(a.contains(b)) * 4 + int(a.starts_with(b)) * 2 + a.ends_with(b); });
        TWO("Str replace", x, y, true, { return a.replace(Str("1"), b.size() < 40 ? b : Str("2")); });
        TWO("Str replace by", x, y, true, { return a.replace(b, Str("--")); });
        TWO("Str split", x, y, true, { return a.split(b); });
        TWO("Str format", x, y, true, { return (a + "{}").format(b); });
        TWO("Str ==", x, y, true, { return int(a == b) * 4 + int(a < b) * 2 + int(b < a); });
        const Int u(sa.c_str()), v((rng.chance(1, 2) ? "-" + sb : sb).c_str());
        const std::string du = dumps(u), dv = dumps(v);
        TWO("Int +", u, v, true, { return a + b; });
        TWO("Int -", u, v, true, { return a - b; });
        TWO("Int *", u, v, true, { return a * b; });
        TWO("Int /", u, v, true, { return a / b; });
        TWO("Int %", u, v, true, { return a % b; });
        TWO("Int +=", u, v, false, { return Int(a += b); });
        TWO("Int -=", u, v, false, { return Int(a -= b); });
        TWO("Int *=", u, v, false, { return Int(a *= b); });
        TWO("Int /=", u, v, false, { return Int(a /= b); });
        TWO("Int %=", u, v, false, { return Int(a %= b); });
        TWO("Int order", u, v, true, { return int(a == b) * 4 + int(a < b) * 2 + int(b < a); });
        if (n <= 60 && m <= 60)
            TWO("Int gcd lcm", u, v, true, { return Int::gcd(a, b) + Int::lcm(a, b); });
    }
    mon::nontrivial(mon::hash_mix(n * 1000 + m, shift));
}
SUITE(proportions, 600, 1600)
{
    const int n = int(idx) + 1;
    for (int m : {0, 1, 2, 3, n / 16, n / 9, n / 5, n / 2, n - 1, n, n + 1, 2 * n, int(rng.range(0, n)), 9 * std::min(n, 60)})
        if (n < 200 || mon::thorough || rng.chance(1, 2))
            proportions<int>(rng, n, m);
    if (n <= 200)
        proportions<Str>(rng, n, int(rng.range(0, n)));
}
// the whole object on both sides
SUITE(self, 700, 40000)
{
    Rng& r = rng;
    const auto check = [&]<typename T>(const char* op, const T& x, const T& y)
    {
        mon::count_n(op, 1);
        EXPECT(dumps(x) == dumps(y), "self:" + std::string(op), op << ": " << dumps(x) << " with a copy " << dumps(y));
        mon::evaluated();
        mon::nontrivial(mon::hash_str(dumps(y), mon::hash_str(op)));
    };
#define SELF(OPR, T, BASE)                        \
    {                                             \
        T x(BASE), y(BASE);                       \
        const T z(BASE);                          \
        mon::set_op(#T " " #OPR " itself");       \
        x OPR x;                                  \
        y OPR z;                                  \
        check(#T " " #OPR " itself", x, y);       \
    }
    const Int a = Gen<Int>::make(r);
    SELF(+=, Int, a) SELF(-=, Int, a) SELF(*=, Int, a) SELF(=, Int, a)
    if (!a.is_zero())
        SELF(/=, Int, a) SELF(%=, Int, a == 0 ? Int(1) : a)
    const Fraction f = Gen<Fraction>::make(r);
    if (frac_small(f))
        SELF(+=, Fraction, f) SELF(-=, Fraction, frac_small(f) ? f : Fraction(1)) SELF(*=, Fraction, frac_small(f) ? f : Fraction(1)) SELF(=, Fraction, f)
    if (frac_small(f) && f.numerator() != 0)
    {
        SELF(/=, Fraction, f)
        SELF(%=, Fraction, f)
    }
    const Complex c = Gen<Complex>::make(r);
    SELF(+=, Complex, c) SELF(-=, Complex, c) SELF(*=, Complex, c) SELF(=, Complex, c)
    if (!czero(c))
        SELF(/=, Complex, c)
    const Str s = Gen<Str>::make(r);
    SELF(=, Str, s)
    const List<int> li = Gen<List<int>>::make(r);
    const List<Str> ls = Gen<List<Str>>::make(r);
    SELF(+=, List<int>, li) SELF(+=, List<Str>, ls) SELF(=, List<int>, li) SELF(=, List<Str>, ls)
    const Set<int> si = Gen<Set<int>>::make(r);
    const Set<Str> ss = Gen<Set<Str>>::make(r);
    SELF(&=, Set<int>, si) SELF(|=, Set<int>, si) SELF(-=, Set<int>, si) SELF(^=, Set<int>, si) SELF(=, Set<int>, si)
    SELF(&=, Set<Str>, ss) SELF(|=, Set<Str>, ss) SELF(-=, Set<Str>, ss) SELF(^=, Set<Str>, ss) SELF(=, Set<Str>, ss)
    const Deque<Str> q = Gen<Deque<Str>>::make(r);
    SELF(=, Deque<Str>, q)
    {
        Set<Str> x(ss);
        OP("Set extend itself");
        x.extend(x.begin(), x.end());
        check("Set extend itself", x, ss);
    }
    using D = Dict<int, Str>;
    const D d = Gen<D>::make(r);
    SELF(=, D, d)
    {
        D x(d);
        OP("Dict extend itself");
        x.extend(x.begin(), x.end());
        check("Dict extend itself", x, d);
    }
    if (d.size() > 0)
    {
        // a value of the dict put under another key of it, and its own key and value added again
        const int i = int(r.range(0, d.size() - 1)), j = int(r.range(0, d.size() - 1));
        D x(d), y(d);
        const auto& p = *std::next(x.begin(), i);
        const auto& k = *std::next(x.begin(), j);
        const auto pc = *std::next(d.begin(), i);
        const auto kc = *std::next(d.begin(), j);
        OP("Dict own pair");
        x[k.first] = p.second, y[kc.first] = pc.second;
        check("Dict [] = own value", x, y);
        const bool ax = x.add(p.first, k.second), ay = y.add(pc.first, y[kc.first]);
        EXPECT(ax == ay, "self:Dict add own", "returned " << ax);
        check("Dict add own", x, y);
        const bool rx = x.remove(k.first), ry = y.remove(kc.first);
        EXPECT(rx && ry, "self:Dict remove own", "returned " << rx);
        check("Dict remove own", x, y);
    }
}

// copies made in each way live on independently
SUITE(copies, 500, 30000)
{
    Large mode(idx % 8 > 5);
    build_table();
    const std::uint64_t ws = rng.next();
    Rng r1(ws);
    World orig(r1);
    Rng r3(rng.next());
    World copy = idx % 2 ? World(orig) : World(r3);
    if (idx % 2 == 0)
        copy.boxes = orig.boxes;
    const auto before = orig.snapshot();
    compare(copy.snapshot(), before, idx % 2 ? "copy-construct" : "copy-assign", "the copy");
    compare(orig.snapshot(), before, "copied-from", "the original");
    World& active = idx % 4 < 2 ? copy : orig;
    World& passive = idx % 4 < 2 ? orig : copy;
    std::uint64_t h = ws;
    for (int i = 0; i < 40; ++i)
    {
        int k;
        do
            k = int(rng.range(0, op_count() - 1));
        while (op_is_const(k));
        const std::uint64_t s = rng.next();
        Rng rr(s);
        std::ostringstream out;
        Ctx c{rr, out};
        mon::set_op(op_name(k));
        run_op(k, active, c);
        h = mon::hash_str(op_name(k), mon::hash_mix(h, s));
        mon::nontrivial(h);
        mon::evaluated();
        if (i % 8 == 7)
            compare(passive.snapshot(), before, idx % 4 < 2 ? "original-changed" : "copy-changed", "after operations on the other copy, the last of them " + std::string(op_name(k)));
    }
}

template <typename T>
static bool blank(const T& x)
{
    if constexpr (std::is_same_v<T, int>)
        return true;
    else if constexpr (std::is_same_v<T, Int>)
        return x.is_zero() && x.digits() == 0;
    else if constexpr (std::is_same_v<T, Fraction>)
        return x.numerator() == 0 && x.denominator() == 1;
    else if constexpr (std::is_same_v<T, Complex>)
        return x.real() == 0 && x.imag() == 0;
    else if constexpr (std::is_same_v<T, Mixed>)
        return blank(x.template get<0>()) && blank(x.template get<1>()) && blank(x.template get<2>());
    else if constexpr (std::is_same_v<T, Pt>)
        return blank(x.template get<1>());
    else
        return x.size() == 0 && x.is_empty() && x.begin() == x.end();
}
static World blank_world()
{
    Rng r(1);
    World w(r);
    std::apply(
        [](auto&... b)
        {
            ([&]<typename B>(B& box)
             {
                 for (auto& x : box.v)
                 {
                     using T = std::decay_t<decltype(x)>;
                     if constexpr (std::is_same_v<T, Mixed>)
                         x = Mixed(Int(), Str(), List<int>());
                     else if constexpr (std::is_same_v<T, Pt>)
                         x = Pt(0, Fraction());
                     else
                         x = T();
                 } }(b),
             ...);
        },
        w.boxes);
    return w;
}
// moving: the destination holds the value, the source is empty or zero and as good as new
SUITE(moves, 500, 30000)
{
    Large mode(idx % 8 > 5);
    build_table();
    const std::uint64_t ws = rng.next();
    Rng r1(ws);
    World src(r1);
    const auto before = src.snapshot();
    Rng r2(rng.next());
    World dst = [&]
    {
        mon::set_op(idx % 2 ? "move construct" : "move assign");
        if (idx % 2)
            return World(std::move(src));
        World d(r2);
        d.boxes = std::move(src.boxes);
        return d;
    }();
    compare(dst.snapshot(), before, idx % 2 ? "move-construct" : "move-assign", "the destination of the move");
    src.each([&]<typename T>(const T& x)
             { EXPECT(blank(x), "moved-from", "a moved-from object is not empty or zero: " << dumps(x)); });
    World fresh = blank_world();
    // plain ints keep their values
    fresh.box<int>() = src.box<int>();
    for (int i = 0; i < 2; ++i)
        fresh.box<Pt>()[i] = Pt(src.box<Pt>()[i].get<0>(), Fraction());
    compare(src.snapshot(), fresh.snapshot(), "moved-from", "a moved-from object");
    std::uint64_t h = ws;
    for (int i = 0; i < 40; ++i)
    {
        const int k = int(rng.range(0, op_count() - 1));
        const std::uint64_t s = rng.next();
        Rng ra(s), rb(s);
        std::ostringstream o1, o2;
        Ctx c1{ra, o1}, c2{rb, o2};
        mon::set_op(op_name(k));
        run_op(k, src, c1);
        run_op(k, fresh, c2);
        EXPECT(o1.str() == o2.str(), "moved-from-use:" + std::string(op_name(k)), "on a moved-from object " << o1.str().substr(0, 400) << " on a new one " << o2.str().substr(0, 400));
        h = mon::hash_str(op_name(k), mon::hash_mix(h, s));
        mon::nontrivial(h);
        mon::evaluated();
        if (i % 8 == 7)
            compare(src.snapshot(), fresh.snapshot(), "moved-from-state", "reusing moved-from objects, the last operation being " + std::string(op_name(k)));
    }
    compare(dst.snapshot(), before, "move-destination-changed", "the destination after the source was reused");
}

// the elements of a range that is passed stay as they are, whatever kind of iterators they are passed by
template <typename T>
static void range_operands(const std::vector<T>& values)
{
    auto same = [](const T& a, const T& b)
    { return dumps(a) == dumps(b); };
    ranges::each(values, [&](const char*, const auto& first, const auto& last) { mon::set_op("List from a range"); List<T> l(first, last); l.reverse(), l.clear(); }, true, same);
    ranges::each(values, [&](const char*, const auto& first, const auto& last) { mon::set_op("List extend by a range"); List<T> l; l.extend(first, last); l.reverse(), l.clear(); }, true, same);
    ranges::each(values, [&](const char*, const auto& first, const auto& last) { mon::set_op("Deque from a range"); Deque<T> l(first, last); l.reverse(), l.clear(); }, true, same);
    ranges::each(values, [&](const char*, const auto& first, const auto& last) { mon::set_op("Deque extend_back by a range"); Deque<T> l; l.extend_back(first, last); l.reverse(), l.clear(); }, true, same);
    ranges::each(values, [&](const char*, const auto& first, const auto& last) { mon::set_op("Deque extend_front by a range"); Deque<T> l; l.extend_front(first, last); l.reverse(), l.clear(); }, true, same);
    ranges::each(values, [&](const char*, const auto& first, const auto& last) { mon::set_op("Set from a range"); Set<T> l(first, last); l.clear(); }, true, same);
    ranges::each(values, [&](const char*, const auto& first, const auto& last) { mon::set_op("Set extend by a range"); Set<T> l; l.extend(first, last); l.clear(); }, true, same);
    std::vector<std::pair<T, T>> pairs;
    for (auto& v : values)
        pairs.emplace_back(v, v);
    auto both = [](const auto& a, const auto& b)
    { return dumps(a.first) == dumps(b.first) && dumps(a.second) == dumps(b.second); };
    ranges::each(pairs, [&](const char*, const auto& first, const auto& last) { mon::set_op("Dict from a range"); Dict<T, T> l(first, last); l.clear(); }, true, both);
    ranges::each(pairs, [&](const char*, const auto& first, const auto& last) { mon::set_op("Dict extend by a range"); Dict<T, T> l; l.extend(first, last); l.clear(); }, true, both);
    mon::nontrivial(mon::hash_str(dumps(List<T>(values)), sizeof(T)));
    mon::evaluated(90);
}
SUITE(range_operands, 60, 2000)
{
    const int n = int(rng.range(1, idx % 10 ? 12 : 700));
    std::vector<std::string> strings;
    std::vector<Str> strs;
    std::vector<Int> ints;
    std::vector<List<Str>> lists;
    for (int i = 0; i < n; ++i)
    {
        strings.push_back(std::string(rng.range(1, 40), 'a') + std::to_string(i));
        strs.push_back(strings.back());
        ints.push_back(Int(std::string(rng.range(1, 40), '7').c_str()));
        lists.push_back(List<Str>{strs.back(), strs.front()});
    }
    range_operands(strings);
    range_operands(strs);
    range_operands(ints);
    range_operands(lists);
}

// ---- arguments that are plain variables, neither const nor temporary: they all keep their values --------------------
struct Vars
{
    Int i, j;
    Fraction f, g;
    Complex c, d;
    Str s, t;
    List<Str> l, m;
    Deque<Str> q;
    Set<Str> a, b;
    Dict<Str, List<Str>> e;
    std::string raw;
    std::vector<Str> v;
    std::deque<Str> dq;
    std::set<Str> st;
    std::map<Str, List<Str>> mp;
    std::initializer_list<Str> il;
    std::string text() const
    {
        std::ostringstream o;
        dump(o, i), dump(o, j), dump(o, f), dump(o, g), dump(o, c), dump(o, d), dump(o, s), dump(o, t), dump(o, l), dump(o, m), dump(o, q), dump(o, a), dump(o, b), dump(o, e), dump(o, raw);
        for (auto& x : v)
            dump(o, x);
        for (auto& x : dq)
            dump(o, x);
        for (auto& x : st)
            dump(o, x);
        for (auto& x : mp)
            dump(o, x);
        return o.str();
    }
};
SUITE(variables, 250, 8000)
{
    Rng& r = rng;
    auto word = [&](int lo, int hi)
    {
        std::string w;
        for (int n = int(r.range(lo, hi)); n > 0; --n)
            w += char(r.range('a', 'e'));
        return w;
    };
    auto str = [&]
    { return Str(r.chance(1, 3) ? word(30, 90) : word(1, 6)); };
    Vars x;
    x.i = Int((std::to_string(r.range(1, 999999)) + (r.chance(1, 3) ? std::string(r.range(1, 60), '7') : "")).c_str());
    x.j = Int(r.range(1, 999));
    x.f = Fraction(r.range(1, 50), r.range(1, 12)), x.g = Fraction(r.range(1, 50), r.range(1, 12));
    x.c = Complex(r.range(1, 9), r.range(-9, 9)), x.d = Complex(r.range(1, 9), r.range(-9, 9));
    x.s = str(), x.t = Str(word(1, 1));
    for (int n = int(r.range(1, 12)); n > 0; --n)
    {
        x.l += str(), x.m += str(), x.q.push_back(str()), x.a.add(str()), x.b.add(str());
        x.v.push_back(str()), x.dq.push_back(str()), x.st.insert(str());
        List<Str> z;
        z += str(), z += str();
        x.e.add(str(), z), x.mp.emplace(str(), z);
    }
    x.raw = word(1, 80);
    int n = int(r.range(0, 4)), k = int(r.range(-3, 3));
    const std::string before = x.text();
    const int n0 = n, k0 = k;
    NOTE(before.substr(0, 2000));
#define KEPT(...)                                                                                                                        \
    {                                                                                                                                    \
        mon::set_op(#__VA_ARGS__);                                                                                                       \
        mon::count_n(#__VA_ARGS__, 1);                                                                                                   \
        {                                                                                                                                \
            __VA_ARGS__;                                                                                                                 \
        }                                                                                                                                \
        EXPECT(x.text() == before && n == n0 && k == k0, "variable:" #__VA_ARGS__, "variables " << before.substr(0, 1500) << " became " << x.text().substr(0, 1500)); \
        mon::evaluated();                                                                                                                \
    }
    using LS = List<Str>;
    using DS = Dict<Str, LS>;
    // constructors
    KEPT(Int z(x.i); z += x.j)
    KEPT(Int z(n); ++z)
    KEPT(Fraction z(x.f); z += x.g)
    KEPT(Fraction z(n); ++z)
    KEPT(Complex z(x.c); z += x.d)
    KEPT(Str z(x.s); z = x.t)
    KEPT(Str z(x.raw); z = x.t)
    KEPT(LS z(x.v); z.clear())
    KEPT(LS z(x.l); z.clear())
    KEPT(LS z{x.s, x.t}; z.clear())
    KEPT(LS z({x.s}); z.clear())
    KEPT(Deque<Str> z(x.dq); z.clear())
    KEPT(Deque<Str> z(x.q); z.clear())
    KEPT(Deque<Str> z({x.s, x.t}); z.clear())
    KEPT(Set<Str> z(x.st); z.clear())
    KEPT(Set<Str> z(x.a); z.clear())
    KEPT(Set<Str> z({x.s, x.t}); z.clear())
    KEPT(DS z(x.mp); z.clear())
    KEPT(DS z(x.e); z.clear())
    KEPT(DS z({{x.s, x.l}}); z.clear())
    KEPT(Tuple<Str> z(x.s); mon::keep(z))
    KEPT(Tuple<int> z(n); mon::keep(z))
    KEPT(Tuple<Str, int> z(x.s, n); mon::keep(z))
    KEPT(Tuple<int, Str> z(n, x.s); mon::keep(z))
    KEPT(Tuple<Str, Str> z(x.s, x.t); mon::keep(z))
    KEPT(Tuple<Int, LS, Str> z(x.i, x.l, x.s); Tuple<Int, LS, Str> y(z); Tuple<Int, LS, Str> u(std::move(y)); z = u)
    KEPT(Tuple<LS, DS, Set<Str>, Deque<Str>> z(x.l, x.e, x.a, x.q); mon::keep(z))
    KEPT(Tuple<Fraction, Complex, Int, Str, LS> z(x.f, x.c, x.i, x.s, x.l); mon::keep(z))
    KEPT(auto z = make_tuple(x.s); mon::keep(z))
    KEPT(auto z = make_tuple(x.s, x.l, n); mon::keep(z))
    KEPT(auto z = make_tuple(x.e, x.i); mon::keep(z))
    // operations on numbers
    KEPT(Int z = x.i + x.j; z = x.i - x.j; z = x.i * x.j; z = x.i / x.j; z = x.i % x.j; z = -x.i; z = +x.i; z = x.i.abs(); ++z)
    KEPT(Int z = Int::gcd(x.i, x.j); z = Int::lcm(x.i, x.j); ++z)
    KEPT(Int z = Int::pow(x.i, n); ++z)
    KEPT(Int z = Int::pow(x.i, x.i, x.j); ++z)
    KEPT(Int z = Int::sqrt(x.i); ++z)
    KEPT(Int two = 2; Int z = Int::log(x.i, two); ++z; ++two)
    KEPT(Int z = x.j.factorial(); ++z)
    KEPT(Int z = x.j.next_prime(); ++z)
    KEPT(mon::keep(x.i < x.j); mon::keep(x.i == x.j); mon::keep(x.i.is_odd()); mon::keep(x.i.digits()); mon::keep(std::hash<Int>()(x.i)))
    KEPT(Fraction z = x.f + x.g; z = x.f - x.g; z = x.f * x.g; z = x.f / x.g; z = x.f % x.g; z = -x.f; z = x.f.abs(); ++z)
    KEPT(Fraction z = Fraction::gcd(x.f, x.g); z = Fraction::lcm(x.f, x.g); ++z; mon::keep(double(x.f)); mon::keep(x.f < x.g); mon::keep(x.f == x.g))
    KEPT(Complex z = x.c + x.d; z = x.c - x.d; z = x.c * x.d; z = x.c / x.d; z = -x.c; z = x.c.conjugate(); z = Complex::pow(x.c, x.d); z += x.c)
    // operations on strings
    KEPT(Str z = x.s + x.t; z = x.s * n; z = x.s << k; z = x.s >> k; z = x.s.reverse(); z = x.s.lower(); z = x.s.upper(); z = x.s.strip(); z = x.s.slice(0, x.s.size()); z = x.s.erase(0, 1))
    KEPT(Str z = x.s.replace(x.t, x.s); z = x.s.replace(x.t, x.t); z = x.s.replace(x.s, x.t))
    KEPT(LS z = x.s.split(x.t); z = x.s.split(x.t, true); z = x.s.split(x.s); z.clear())
    KEPT(Str z = x.s.join(x.l); z = x.t.join(x.m))
    KEPT(Str z = Str("{} {} {}").format(x.s, x.i, n); z = Str("{}{}{}").format(x.l, x.e, x.f); z = Str("{}").format(x.raw))
    KEPT(mon::keep(x.s.find(x.t)); mon::keep(x.s.contains(x.t)); mon::keep(x.s.count(x.t)); mon::keep(x.s.starts_with(x.t)); mon::keep(x.s.ends_with(x.t)); mon::keep(x.s < x.t))
    // operations on containers
    KEPT(LS z; z += x.s; z += x.l; z.insert(0, x.t); z.insert(-1, x.s); z[0] = x.t; z -= x.s; z /= x.t; z *= n; z.clear())
    KEPT(LS z; z.extend(x.l.begin(), x.l.end()); z.extend(x.q.begin(), x.q.end()); z.extend(x.a.begin(), x.a.end()); z.extend(x.v.begin(), x.v.end()); z.clear())
    KEPT(LS z = x.l + x.s; z = x.l + x.m; z = x.l - x.s; z = x.l * n; z = x.l / x.s; z = x.l.slice(0, x.l.size()); z.clear())
    KEPT(mon::keep(x.l.find(x.s)); mon::keep(x.l.index(x.s)); mon::keep(x.l.contains(x.s)); mon::keep(x.l.count(x.s)); mon::keep(x.l == x.m); mon::keep(x.l < x.m))
    KEPT(Deque<Str> z; z.push_back(x.s); z.push_front(x.t); z.back() = x.t; z.extend_back(x.l.begin(), x.l.end()); z.extend_front(x.q.begin(), x.q.end()); z >>= k; z.clear())
    KEPT(Set<Str> z; z.add(x.s); z.add(x.s); z.remove(x.t); z |= x.a; z &= x.b; z ^= x.a; z -= x.b; z.extend(x.l.begin(), x.l.end()); z.clear())
    KEPT(Set<Str> z = x.a & x.b; z = x.a | x.b; z = x.a - x.b; z = x.a ^ x.b; z.clear())
    KEPT(mon::keep(x.a.find(x.s)); mon::keep(x.a.contains(x.s)); mon::keep(x.a <= x.b); mon::keep(x.a == x.b))
    KEPT(DS z; z.add(x.s, x.l); z.add(x.s, x.m); z[x.s] = x.m; mon::keep(z.get(x.s, x.l)); z.remove(x.s); z.extend(x.e.begin(), x.e.end()); z.extend(x.mp.begin(), x.mp.end()); z.clear())
    KEPT(mon::keep(x.e.get(x.s, x.l)); mon::keep(x.e.get(x.s, x.m)); mon::keep(x.e.find(x.s)); mon::keep(x.e.contains(x.s)))
    KEPT(auto z = x.e.keys(); auto y = x.e.items(); auto w = x.e.values(); z.clear(); y.clear(); w.clear())
    // printing
    KEPT(std::ostringstream o; o << x.i << x.f << x.c << x.s << x.l << x.q << x.a << x.e << make_tuple(x.s, n))
    mon::nontrivial(mon::hash_str(before));
    SAMPLE("variables", before.substr(0, 200));
}
// ---- what one call has given stays as it is when the same function is called again ---------------------------------
SUITE(results, 250, 8000)
{
    Rng& r = rng;
    auto str = [&]
    { return Str(std::string(r.range(1, r.chance(1, 3) ? 90 : 6), char('a' + r.range(0, 25)))); };
    const int n = int(r.range(2, 12));
    List<Str> l;
    Deque<Str> q;
    Set<Str> s;
    Dict<int, Str> d;
    for (int i = 0; i < n; ++i)
        l += str(), q.push_back(str()), s.add(str()), d.add(i, str());
    const Tuple<Str, Str, Int> t(str(), str(), Int(r.range(1, 99)));
    const Str text(l[0] + l[1] + " " + l[0]);
    const Int big(std::string(r.range(1, 60), '8').c_str());
    const auto each = [&](const char* op, const auto& call) // call(i) for different i
    {
        mon::set_op(op);
        mon::count_n(op, 1);
        const int i = int(r.range(0, 40)), j = int(r.range(0, 40));
        const auto& first = call(i);
        const std::string was = dumps(first);
        const auto& second = call(j);
        const std::string other = dumps(second);
        const auto& third = call(i);
        EXPECT(dumps(first) == was && dumps(third) == was && dumps(second) == other, "results:" + std::string(op), op << ": what the first call gave was " << was << ", and is " << dumps(first) << " after other calls; again it gives " << dumps(third));
        mon::evaluated();
        mon::nontrivial(mon::hash_str(was, mon::hash_str(other, mon::hash_str(op))));
    };
    std::vector<Str> defaults;
    for (int i = 0; i <= 40; ++i)
        defaults.push_back(str());
    const auto& cl = l;
    const auto& cq = q;
    const auto& cd = d;
#define EACH(OP_, ...) each(OP_, [&](int i) -> decltype(auto) { return __VA_ARGS__; })
    EACH("Dict get", cd.get(i, defaults[i]));
    EACH("Dict get of none", cd.get(1000 + i, defaults[i]));
    EACH("Dict []", cd[i % n]);
    EACH("Dict [] to write", d[i % n]);
    EACH("Dict keys", cd.keys());
    EACH("Dict items", cd.items());
    EACH("Dict values", cd.values());
    EACH("Dict min", i % 2 ? cd.min() : cd.max());
    EACH("List []", cl[i % n]);
    EACH("List [] to write", l[i % n]);
    EACH("List slice", cl.slice(i % n, n));
    EACH("List + element", cl + defaults[i]);
    EACH("List - element", cl - cl[i % n]);
    EACH("List *", cl * (i % 4));
    EACH("List /", cl / cl[i % n]);
    EACH("Deque []", cq[i % n]);
    EACH("Deque ends", i % 2 ? cq.front() : cq.back());
    EACH("Set min", i % 2 ? s.min() : s.max());
    EACH("Tuple get", i % 2 ? t.get<0>() : t.get<1>());
    EACH("Tuple rest", t.rest());
    EACH("Str []", text[i % text.size()]);
    EACH("Str slice", text.slice(i % text.size(), text.size()));
    EACH("Str replace", text.replace(cl[i % n], defaults[i]));
    EACH("Str split", text.split(cl[i % n], i % 2));
    EACH("Str join", defaults[i].join(cl));
    EACH("Str format", text.format(defaults[i]));
    EACH("Str + ", text + defaults[i]);
    EACH("Str *", text * (i % 4));
    EACH("Str reverse", (i % 2 ? text : cl[0]).reverse());
    EACH("Int +", big + i);
    EACH("Int *", big * i);
    EACH("Int /", big / (i + 1));
    EACH("Int %", big % (i + 1));
    EACH("Int pow", Int::pow(i, 20));
    EACH("Int sqrt", Int::sqrt(big * i));
    EACH("Int gcd", Int::gcd(big, i + 1));
    EACH("Int factorial", Int(i).factorial());
    EACH("Int next_prime", Int(i * 31).next_prime());
    EACH("Fraction +", Fraction(1, 3) + Fraction(i, 7));
    EACH("Fraction gcd", Fraction::gcd(Fraction(1, 3), Fraction(i + 1, 7)));
    EACH("Complex *", Complex(1, 3) * Complex(i, 7));
}
