#include "ops.hpp"

void ops::table_numbers()
{
    int_ops();
    common_ops<Int>("Int"), order_ops<Int>("Int"), hash_ops<Int>("Int");
    fraction_ops();
    common_ops<Fraction>("Fraction"), order_ops<Fraction>("Fraction"), hash_ops<Fraction>("Fraction");
    complex_ops();
    common_ops<Complex>("Complex");
    COP("Complex hash") const Complex& x = c.target<Complex>(w); c.pre = 1; const Complex y(x); RET(std::hash<Complex>{}(x) == std::hash<Complex>{}(y)); END
    str_ops();
    common_ops<Str>("Str"), order_ops<Str>("Str"), hash_ops<Str>("Str"), iter_ops<Str>("Str");
}
