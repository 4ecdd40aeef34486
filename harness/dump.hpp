// An exact dump of any value, independent of the library's printing.
#pragma once
#include "pyincpp.hpp"
#include <cstdio>
#include <sstream>
#include <string>

namespace ops
{
using namespace pyincpp;

// ---- an exact dump of any value, independent of the library's printing ------------------------------
struct Fl // a floating-point result; compared by accuracy across configurations
{
    double v;
};
inline void dump(std::ostream& o, bool v) { o << (v ? "true" : "false"); }
inline void dump(std::ostream& o, char v) { o << "c" << int((unsigned char)v); }
inline void dump(std::ostream& o, const std::string& s)
{
    o << '"';
    for (char ch : s)
    {
        const unsigned char u = ch;
        if (u > 0x20 && u < 0x7f && u != '\\' && u != '"' && u != '~')
            o << ch;
        else
            o << '\\' << int(u) << ';';
    }
    o << '"';
}
inline void dump(std::ostream& o, Fl f)
{
    char b[40];
    snprintf(b, sizeof b, "~%.17g~", f.v);
    o << b;
}
inline void dump(std::ostream& o, const Int& v)
{
    o << v;
    o << (v.is_negative() ? "n" : "") << "#" << v.digits();
}
inline void dump(std::ostream& o, const Fraction& v) { o << v.numerator() << "/" << v.denominator(); }
inline void dump(std::ostream& o, const Complex& v)
{
    o << "(";
    dump(o, Fl{v.real()});
    o << ",";
    dump(o, Fl{v.imag()});
    o << ")";
}
inline void dump(std::ostream& o, const Str& v)
{
    o << v.size();
    dump(o, std::string(v.begin(), v.end()));
}
template <typename T>
    requires(std::is_integral_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>)
void dump(std::ostream& o, T v)
{
    o << +v;
}
inline void dump(std::ostream& o, const char* s) { dump(o, std::string(s)); }
template <typename T>
void dump(std::ostream& o, const List<T>& v);
template <typename T>
void dump(std::ostream& o, const Deque<T>& v);
template <typename T>
void dump(std::ostream& o, const Set<T>& v);
template <typename K, typename V>
void dump(std::ostream& o, const Dict<K, V>& v);
template <typename... Ts>
void dump(std::ostream& o, const Tuple<Ts...>& v);
template <typename A, typename B>
void dump(std::ostream& o, const std::pair<A, B>& p)
{
    dump(o, p.first);
    o << "->";
    dump(o, p.second);
}
template <typename C>
void dump_seq(std::ostream& o, const char* tag, const C& v)
{
    o << tag << v.size() << "[";
    for (const auto& x : v)
    {
        dump(o, x);
        o << " ";
    }
    o << "]";
}
template <typename T>
void dump(std::ostream& o, const List<T>& v) { dump_seq(o, "L", v); }
template <typename T>
void dump(std::ostream& o, const Deque<T>& v) { dump_seq(o, "Q", v); }
template <typename T>
void dump(std::ostream& o, const Set<T>& v) { dump_seq(o, "S", v); }
template <typename K, typename V>
void dump(std::ostream& o, const Dict<K, V>& v) { dump_seq(o, "D", v); }
template <typename... Ts>
void dump(std::ostream& o, const Tuple<Ts...>& v)
{
    o << "T" << v.size() << "(";
    [&]<std::size_t... I>(std::index_sequence<I...>)
    { ((dump(o, v.template get<int(I)>()), o << " "), ...); }(std::index_sequence_for<Ts...>{});
    o << ")";
}
template <typename T>
std::string dumps(const T& v)
{
    std::ostringstream o;
    dump(o, v);
    return o.str();
}
} // namespace ops
