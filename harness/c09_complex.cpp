#include "mon.hpp"
#include "complex.hpp"
#include <cmath>
#include <complex>
using pyincpp::Complex;
using LC = std::complex<long double>;
using LD = long double;

namespace
{
std::string cs(const Complex& c)
{
    std::ostringstream o;
    o.precision(17);
    o << "(" << c.real() << ", " << c.imag() << ")";
    return o.str();
}
LC lc(const Complex& c)
{
    return LC(c.real(), c.imag());
}
std::uint64_t hc(const char* op, const Complex& a, const Complex& b)
{
    std::uint64_t h = mon::hash_str(op);
    for (double d : {a.real(), a.imag(), b.real(), b.imag()})
    {
        std::uint64_t u;
        memcpy(&u, &d, 8);
        h = mon::hash_mix(h, u);
    }
    return h;
}
// |got - want| <= tol * scale, and finite
void near(const Complex& got, const LC& want, LD tol, LD scale, const char* key, const std::string& ctx)
{
    const LD e = std::abs(lc(got) - want);
    EXPECT(std::isfinite(got.real()) && std::isfinite(got.imag()) && e <= tol * scale, key, ctx << ": got " << cs(got) << " want (" << (double)want.real() << ", " << (double)want.imag() << ") error " << (double)e);
}
void comp(double got, LD want, LD tol, const char* key, const std::string& ctx)
{
    EXPECT(std::isfinite(got) && std::abs(got - want) <= tol * std::abs(want), key, ctx << ": component " << got << " want " << (double)want);
}
void pair_ops(const Complex& x, const Complex& y, bool exact)
{
    const LC a = lc(x), b = lc(y);
    const std::string ctx = cs(x) + " op " + cs(y);
    NOTE(ctx);
    OP("Complex + -");
    const Complex s = x + y, d = x - y;
    comp(s.real(), a.real() + b.real(), 4e-16, "complex-add", "+ " + ctx);
    comp(s.imag(), a.imag() + b.imag(), 4e-16, "complex-add", "+ " + ctx);
    comp(d.real(), a.real() - b.real(), 4e-16, "complex-sub", "- " + ctx);
    comp(d.imag(), a.imag() - b.imag(), 4e-16, "complex-sub", "- " + ctx);
    OP("Complex *");
    const Complex p = x * y;
    near(p, LC(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()), 4e-15, std::abs(a) * std::abs(b), "complex-mul", "* " + ctx);
    // each part to rounding of the two products it is made of
    const LD re = a.real() * b.real(), ri = a.imag() * b.imag(), ir = a.real() * b.imag(), ii = a.imag() * b.real();
    EXPECT(std::abs(p.real() - (re - ri)) <= 4e-16L * (std::abs(re) + std::abs(ri)) + 1e-300L && std::abs(p.imag() - (ir + ii)) <= 4e-16L * (std::abs(ir) + std::abs(ii)) + 1e-300L, "complex-mul-parts", "* " << ctx << ": got " << cs(p) << " want (" << (double)(re - ri) << ", " << (double)(ir + ii) << ")");
    {
        Complex t = x;
        t *= y;
        EXPECT(std::abs(t.real() - (re - ri)) <= 4e-16L * (std::abs(re) + std::abs(ri)) + 1e-300L && std::abs(t.imag() - (ir + ii)) <= 4e-16L * (std::abs(ir) + std::abs(ii)) + 1e-300L, "complex-mul-parts", "*= " << ctx << ": got " << cs(t));
    }
    if (exact)
        EXPECT(p.real() == double(a.real() * b.real() - a.imag() * b.imag()) && p.imag() == double(a.real() * b.imag() + a.imag() * b.real()) && s.real() == double(a.real() + b.real()) && s.imag() == double(a.imag() + b.imag()) && d.real() == double(a.real() - b.real()) && d.imag() == double(a.imag() - b.imag()), "complex-exact", ctx << ": " << cs(s) << cs(d) << cs(p));
    auto inplace = [&](const char* n, const Complex& want, auto f)
    {
        Complex t = x;
        mon::set_op(n);
        EXPECT(&f(t, y) == &t, "complex-inplace", n << " does not return the object");
        near(t, lc(want), 8e-15, std::abs(lc(want)) + 1e-300L, "complex-inplace", std::string(n) + " " + ctx);
    };
    inplace("+=", s, [](Complex& t, const Complex& v) -> Complex& { return t += v; });
    inplace("-=", d, [](Complex& t, const Complex& v) -> Complex& { return t -= v; });
    inplace("*=", p, [](Complex& t, const Complex& v) -> Complex& { return t *= v; });
    mon::evaluated(6);
    const LD m = std::max(std::abs(b.real()), std::abs(b.imag()));
    if (m == 0)
    {
        OP("Complex / 0");
        EXPECT(mon::attempt([&] { mon::keep(x / y); }) == mon::Out::runtime_error, "complex-div-zero", ctx);
        Complex t = x;
        EXPECT(mon::attempt([&] { t /= y; }) == mon::Out::runtime_error, "complex-div-zero", ctx);
        EXPECT(t.real() == x.real() && t.imag() == x.imag(), "complex-div-zero-intact", ctx);
        mon::evaluated(2);
    }
    else if (m > 1e-9L)
    {
        OP("Complex /");
        const Complex q = x / y;
        near(q, a / b, 2e-14, std::abs(a) / std::abs(b) + 1e-300L, "complex-div", "/ " + ctx);
        inplace("/=", q, [](Complex& t, const Complex& v) -> Complex& { return t /= v; });
        mon::evaluated(2);
    }
    EXPECT(lc(x) == a && lc(y) == b, "complex-operand-changed", ctx);
    if (a != LC(0) && b != LC(0))
        mon::nontrivial(hc("pair", x, y));
    SAMPLE("pair", ctx << ": + " << cs(s) << " * " << cs(p));
}
void unary(const Complex& x)
{
    const LC a = lc(x);
    const std::string ctx = cs(x);
    NOTE(ctx);
    OP("Complex unary");
    EXPECT(lc(-x) == -a && lc(+x) == a && lc(x.conjugate()) == std::conj(a), "complex-unary", ctx << ": " << cs(-x) << cs(+x) << cs(x.conjugate()));
    OP("Complex abs/arg");
    EXPECT(std::abs(x.abs() - std::hypot(a.real(), a.imag())) <= 1e-15L * std::abs(a), "complex-abs", ctx << ": abs " << x.abs());
    EXPECT(std::abs(x.arg() - std::atan2(a.imag(), a.real())) <= 1e-14L, "complex-arg", ctx << ": arg " << x.arg());
    // aliased
    const LD n = std::norm(a);
    Complex t = x;
    OP("Complex aliased");
    t += t;
    near(t, a + a, 1e-15, 2 * std::abs(a), "complex-self-add", ctx);
    t = x;
    t -= t;
    near(t, 0, 0, 0, "complex-self-sub", ctx);
    t = x;
    t *= t;
    near(t, a * a, 4e-15, n, "complex-self-mul", ctx);
    if (std::max(std::abs(x.real()), std::abs(x.imag())) > 1e-9)
    {
        t = x;
        t /= t;
        near(t, 1, 1e-14, 1, "complex-self-div", ctx);
    }
    mon::evaluated(9);
}
double gen_comp(Rng& r, int maxexp)
{
    switch (r.range(0, 6))
    {
        case 0: return 0;
        case 1: return r.range(-20, 20);
        case 2: return r.range(-1000, 1000) / 8.0;
        case 3: return (r.unit() - 0.5) * 2;
        case 4: return r.of<double>({1, -1, 0.5, -0.5, 0.1, -0.1, 1e-3, 3.14159265358979, -2.718281828459045, 1e5, 123456.789});
        default: return (r.unit() * 2 - 1) * std::pow(10.0, r.range(-maxexp, maxexp));
    }
}
void pow_one(const Complex& b, const Complex& e)
{
    const std::string ctx = "pow(" + cs(b) + ", " + cs(e) + ")";
    NOTE(ctx);
    OP("Complex::pow");
    const LC B = lc(b), E = lc(e);
    const Complex r = Complex::pow(b, e);
    // exp(E * log B) with the principal logarithm
    const LC L(std::log(std::hypot(B.real(), B.imag())), std::atan2(B.imag(), B.real()));
    const LC X = E * L;
    const LD mag = std::exp(X.real());
    const LC want(mag * std::cos(X.imag()), mag * std::sin(X.imag()));
    near(r, want, 1e-13L * (10 + std::abs(E) * (std::abs(L) + 1)), mag, "complex-pow", ctx);
    mon::evaluated();
    mon::nontrivial(hc("pow", b, e));
    SAMPLE("pow", ctx << " = " << cs(r));
}
} // namespace

// all pairs of small Gaussian integers, exactly
SUITE(gaussian, 169, 1681)
{
    const int R = mon::thorough ? 20 : 6, W = 2 * R + 1;
    const Complex x(int(idx % W) - R, int(idx / W) - R);
    unary(x);
    for (int c = -R; c <= R; ++c)
        for (int d = -R; d <= R; ++d)
            pair_ops(x, Complex(c, d), true);
}
SUITE(random_pairs, 40000, 1500000)
{
    const int me = rng.chance(1, 2) ? 3 : 8;
    const Complex x(gen_comp(rng, me), gen_comp(rng, me));
    Complex y(gen_comp(rng, me), gen_comp(rng, me));
    if (rng.chance(1, 10))
        y = rng.of<Complex>({x, -x, x.conjugate(), Complex(x.imag(), x.real()), Complex(1), Complex(0, 1), Complex(-1), Complex(0, -1)});
    pair_ops(x, y, false);
    if (rng.chance(1, 3))
        unary(x);
}
// large and small magnitudes for the operations that cannot overflow there
SUITE(magnitudes, 8000, 200000)
{
    const double s = std::pow(10.0, rng.range(-60, 60)), t = std::pow(10.0, rng.range(-60, 60));
    const Complex x((rng.unit() - 0.5) * s, (rng.unit() - 0.5) * s), y((rng.unit() - 0.5) * t, (rng.unit() - 0.5) * t);
    pair_ops(x, y, false);
    OP("Complex abs/arg");
    EXPECT(std::abs(x.abs() - std::hypot((LD)x.real(), (LD)x.imag())) <= 1e-15L * std::abs(lc(x)), "complex-abs", cs(x));
    // magnitudes at which a naive sqrt(re^2 + im^2) overflows or underflows
    const double big = std::pow(10.0, rng.range(0, 1) ? rng.range(160, 300) : rng.range(-290, -170));
    const Complex z((rng.unit() - 0.5) * big, (rng.unit() - 0.5) * big);
    EXPECT(std::abs(z.abs() - std::hypot((LD)z.real(), (LD)z.imag())) <= 1e-15L * std::hypot((LD)z.real(), (LD)z.imag()), "complex-abs", cs(z) << ": abs " << z.abs());
    EXPECT(std::abs(z.arg() - std::atan2((LD)z.imag(), (LD)z.real())) <= 1e-14L, "complex-arg", cs(z) << ": arg " << z.arg());
    mon::evaluated(3);
}
// parts of very different magnitude within one number
SUITE(uneven_parts, 8000, 200000)
{
    auto part = [&]
    { return rng.chance(1, 6) ? 0.0 : rng.chance(1, 4) ? double(rng.range(-9, 9)) : (rng.unit() * 2 - 1) * std::pow(10.0, rng.range(-20, 20)); };
    const double a = part(), b = part(), c = part(), d = part();
    pair_ops(Complex(a, b), Complex(c, d), false);
    unary(Complex(a, b));
}
SUITE(pow_quadrants, 300, 3000)
{
    // all quadrants and axes, integer, fractional and complex exponents
    static const double c[] = {-2, -1, -0.5, 0, 0.5, 1, 2};
    const double re = c[idx % 7], im = c[idx / 7 % 7];
    if (idx >= 49 || (re == 0 && im == 0))
        return;
    const Complex b(re, im);
    for (double er : {-3.0, -2.0, -1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 2.0, 3.0, 5.0})
        for (double ei : {-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0})
            if (er != 0 || ei != 0)
                pow_one(b, Complex(er, ei));
}
SUITE(pow_random, 20000, 500000)
{
    const double m = std::pow(10.0, rng.unit() * 4 - 2), th = (rng.unit() - 0.5) * 6.283;
    pow_one(Complex(m * std::cos(th), m * std::sin(th)), Complex((rng.unit() - 0.5) * 12, rng.chance(1, 3) ? 0 : (rng.unit() - 0.5) * 6));
}
// bases of any magnitude to integer and simple fractional powers, as long as neither the result nor its square leaves the doubles
SUITE(pow_magnitudes, 6000, 200000)
{
    const double m = std::pow(10.0, rng.unit() * 20 - 10), th = rng.chance(1, 4) ? rng.range(-3, 4) * 0.785398163397448309616 : (rng.unit() - 0.5) * 6.283;
    const Complex b = rng.chance(1, 6) ? Complex(rng.chance(1, 2) ? m : -m, 0) : rng.chance(1, 8) ? Complex(0, m) : Complex(m * std::cos(th), m * std::sin(th));
    for (int n : {-1, -2, 2, int(rng.range(-14, 14)), int(rng.range(-60, 60))})
        if (n && std::abs(n * std::log(m)) < 300)
        {
            pow_one(b, n);
            pow_one(b, n / 2.0);
            pow_one(b, n / 3.0);
        }
}
// bases just beside the axes and exponents just beside whole numbers
SUITE(pow_beside, 6000, 200000)
{
    const double m = std::pow(10.0, rng.unit() * 8 - 4), tiny = m * std::pow(10.0, -rng.unit() * 18) * (rng.chance(1, 2) ? 1 : -1), sign = rng.chance(1, 2) ? 1 : -1;
    const Complex b = rng.chance(2, 3) ? Complex(sign * m, rng.chance(1, 8) ? 0 : tiny) : Complex(rng.chance(1, 8) ? 0 : tiny, sign * m);
    for (double n : {0.5, -0.5, 1.0, -1.0, 2.0, -2.0, 3.0, 1.5, 1.0 / 3, 0.25, 4.0})
    {
        pow_one(b, n);
        pow_one(b, Complex(n, std::pow(10.0, -rng.unit() * 12) * sign));
        pow_one(b, n + std::pow(10.0, -1 - rng.unit() * 12) * sign);
    }
}
SUITE(pow_integer, 4000, 60000)
{
    // against repeated multiplication in long double
    const Complex b(rng.range(-9, 9) / 2.0, rng.range(-9, 9) / 2.0);
    const int n = rng.range(-6, 9);
    if (b.real() == 0 && b.imag() == 0)
    {
        if (n != 0)
        {
            OP("Complex::pow 0");
            const Complex e(n, rng.range(-2, 2));
            EXPECT(mon::attempt([&] { mon::keep(Complex::pow(b, e)); }) == mon::Out::runtime_error, "complex-pow-zero", "pow(0, " << cs(e) << ")");
            mon::evaluated();
        }
    }
    else
    {
        LC w = 1;
        for (int i = 0; i < std::abs(n); ++i)
            w *= lc(b);
        if (n < 0)
            w = LC(1) / w;
        OP("Complex::pow integer");
        near(Complex::pow(b, n), w, 1e-12, std::abs(w), "complex-pow", "pow(" + cs(b) + ", " + std::to_string(n) + ")");
        mon::evaluated();
        mon::nontrivial(hc("powi", b, n));
    }
    OP("Complex::pow exponent 0");
    const Complex one = Complex::pow(b, 0);
    EXPECT(one.real() == 1 && one.imag() == 0, "complex-pow-exp0", "pow(" << cs(b) << ", 0) = " << cs(one));
    // zero to imaginary powers
    EXPECT(mon::attempt([&] { mon::keep(Complex::pow(0, Complex(0, rng.range(1, 3)))); }) == mon::Out::runtime_error, "complex-pow-zero", "pow(0, bj)");
    mon::evaluated(2);
}
SUITE(equality, 20000, 400000)
{
    const Complex x(gen_comp(rng, 5), gen_comp(rng, 5));
    OP("Complex ==");
    const Complex y(x.real(), x.imag());
    EXPECT(x == y && !(x != y) && y == x, "complex-eq", cs(x) << " is not equal to itself");
    const double d = rng.of<double>({1e-8, 1.1e-9, 1e-3, 1, 1e5}) * (rng.chance(1, 2) ? 1 : -1) * std::max(1.0, std::max(std::abs(x.real()), std::abs(x.imag())));
    for (const Complex& z : {Complex(x.real() + d, x.imag()), Complex(x.real(), x.imag() + d), Complex(x.real() + d, x.imag() + d), Complex(x.real() + d, x.imag() - d)})
    {
        NOTE(cs(x) << " vs " << cs(z));
        EXPECT(!(x == z) && x != z && !(z == x), "complex-ne", cs(x) << " == " << cs(z));
    }
    // absolute differences above 1e-9, whatever the magnitude of the other component or the difference relative to it
    {
        const double big = std::ldexp(1.0 + rng.unit(), int(rng.range(0, 60)));
        const double e = std::max(1.1e-9, std::nextafter(big, INFINITY) - big) * double(rng.of<int>({1, 2, 10, 1000}));
        const double small = rng.of<double>({0.0, 1.0, 0.25});
        const Complex p(big, small), q(big, small + std::max(e, 1.1e-9)), u(small, big), v(small, big + e), w(big + e, small);
        NOTE(cs(p) << " e " << e);
        if (q.imag() - p.imag() > 1.05e-9)
        {
            EXPECT(p != q && !(p == q), "complex-ne", cs(p) << " == " << cs(q));
            EXPECT(p != Complex(big, small + 1.1e-9) || small + 1.1e-9 - small < 1.05e-9, "complex-ne", cs(p) << " == itself with 1.1e-9 more imaginary part");
        }
        if (v.imag() - u.imag() > 1.05e-9)
            EXPECT(u != v && p != w, "complex-ne", cs(u) << " == " << cs(v));
    }
    const Complex c = x.conjugate();
    if (std::abs(x.imag()) > 1e-6)
        EXPECT(!(x == c), "complex-ne", cs(x) << " == its conjugate");
    EXPECT(Complex(3) == 3 && Complex(0.0, 0.0) == Complex(-0.0, -0.0) && Complex() == 0, "complex-eq", "conversion equality");
    mon::evaluated(6);
    mon::nontrivial(hc("eq", x, Complex(d)));
}
SUITE(chains, 4000, 80000)
{
    Complex x(gen_comp(rng, 2), gen_comp(rng, 2));
    std::uint64_t h = idx;
    for (int st = 0; st < 30; ++st)
    {
        const Complex y(gen_comp(rng, 2), gen_comp(rng, 2));
        const LC a = lc(x), b = lc(y);
        const int op = rng.range(0, 5);
        LC w;
        LD sc;
        NOTE("step " << st << " op " << op << " x=" << cs(x) << " y=" << cs(y));
        OP("Complex chain");
        if (op == 3 && std::abs(b) < 1e-6L)
            continue;
        switch (op)
        {
            case 0: x += y, w = a + b, sc = std::abs(a) + std::abs(b); break;
            case 1: x -= y, w = a - b, sc = std::abs(a) + std::abs(b); break;
            case 2: x *= y, w = a * b, sc = std::abs(a) * std::abs(b); break;
            case 3: x /= y, w = a / b, sc = std::abs(a) / std::abs(b); break;
            case 4: x = -x, w = -a, sc = std::abs(a); break;
            default: x = x.conjugate(), w = std::conj(a), sc = std::abs(a);
        }
        near(x, w, 2e-14, sc + 1e-300L, "complex-chain", "step " + std::to_string(st) + " op " + std::to_string(op) + " y=" + cs(y));
        if (x.abs() > 1e60 || (x.abs() < 1e-60))
            x = Complex(1, 1);
        mon::evaluated();
        h = mon::hash_mix(h, hc("", x, y));
        mon::nontrivial(h);
    }
}
