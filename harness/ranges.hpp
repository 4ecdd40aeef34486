// Ranges of every category over the same values, as arguments of range constructors and extend: pointers, iterators of
// other containers (mutable ones too, whose elements must stay), reversed ones, ones that produce values, and
// single-pass ones, which notice when they are passed twice.
#pragma once
#include "mon.hpp"
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <ranges>
#include <vector>

namespace ranges
{

// A stream of values: reading on through any copy of the iterator makes the other copies stale.
template <typename T>
struct Stream
{
    const std::vector<T>* values;
    std::size_t at = 0;
};
template <typename T>
struct Once
{
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = const T&;
    Stream<T>* s = nullptr; // none: the end
    std::size_t at = 0;
    void fresh(const char* what) const
    {
        EXPECT(s && at == s->at, "range:passed-twice", "a single-pass iterator is " << what << " after a copy of it has been moved on");
        EXPECT(at < s->values->size(), "range:past-end", "a single-pass iterator is " << what << " at the end of the range");
    }
    const T& operator*() const
    {
        fresh("read");
        return (*s->values)[at];
    }
    const T* operator->() const { return &**this; }
    Once& operator++()
    {
        fresh("moved on");
        at = ++s->at;
        return *this;
    }
    struct Value
    {
        T v;
        const T& operator*() const { return v; }
    };
    Value operator++(int)
    {
        Value r{**this};
        ++*this;
        return r;
    }
    bool ended() const { return !s || s->at >= s->values->size(); }
    bool operator==(const Once& o) const { return s && o.s ? at == o.at : ended() == o.ended(); }
};

// Call f(name, first, last) with ranges of every kind. With `watch`, afterwards check that the values passed are as before.
template <typename T, typename F, typename Same>
void each(const std::vector<T>& values, F f, bool watch, Same same)
{
    auto kept = [&](const char* name, auto& source)
    {
        if (!watch)
            return;
        EXPECT(std::size_t(std::distance(source.begin(), source.end())) == values.size() && std::equal(source.begin(), source.end(), values.begin(), same), std::string("range:source-changed:") + name,
               "the elements of the range passed (" << name << ", " << values.size() << " elements) are changed");
    };
    auto mutable_source = [&]<typename C>(const char* name, C source)
    {
        f(name, source.begin(), source.end());
        kept(name, source);
    };
    {
        std::vector<T> v = values;
        const T* p = v.data();
        f("const pointer", p, p + v.size());
        kept("const pointer", v);
        f("pointer", v.data(), v.data() + v.size());
        kept("pointer", v);
        f("const_iterator", v.cbegin(), v.cend());
        kept("const_iterator", v);
    }
    mutable_source("vector iterator", values);
    mutable_source("list iterator", std::list<T>(values.begin(), values.end()));
    mutable_source("forward_list iterator", std::forward_list<T>(values.begin(), values.end()));
    mutable_source("deque iterator", std::deque<T>(values.begin(), values.end()));
    {
        std::vector<T> back(values.rbegin(), values.rend());
        f("reverse_iterator", back.rbegin(), back.rend());
        std::vector<T> order(back.rbegin(), back.rend());
        kept("reverse_iterator", order);
    }
    {
        std::vector<T> v = values;
        f("move_iterator", std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
        auto made = std::views::transform(values, [](const T& x)
                                          { return T(x); });
        f("iterator that makes values", made.begin(), made.end());
    }
    {
        Stream<T> s{&values};
        f("single-pass iterator", Once<T>{&s, 0}, Once<T>{});
        EXPECT(s.at == values.size(), "range:not-read", "only " << s.at << " of " << values.size() << " values of a single-pass range are read");
    }
}

template <typename T, typename F>
void each(const std::vector<T>& values, F f)
{
    each(values, f, false, [](const T&, const T&) { return true; });
}

} // namespace ranges
