// Streams unlike a string stream: a source that hands out a few characters at a time and takes none back, a sink that takes
// a few at a time.
#pragma once
#include "mon.hpp"
#include <istream>
#include <streambuf>
#include <string>

namespace streams
{
class Trickle : public std::streambuf // a source
{
    std::string text_;
    std::size_t at_ = 0;
    int portion_;
    char part_[4];
    int_type underflow() override
    {
        std::size_t n = 0;
        while (n < std::size_t(portion_) && at_ < text_.size())
            part_[n++] = text_[at_++];
        setg(part_, part_, part_ + n);
        return n ? traits_type::to_int_type(part_[0]) : traits_type::eof();
    }

public:
    Trickle(const std::string& text, int portion)
        : text_(text)
        , portion_(portion)
    {
    }
    std::string rest() const { return std::string(gptr(), egptr()) + text_.substr(at_); }
};
class Drops : public std::streambuf // a sink
{
    std::string& text_;
    char part_[3];
    int portion_;
    int_type overflow(int_type c) override
    {
        sync();
        if (!traits_type::eq_int_type(c, traits_type::eof()))
            text_ += traits_type::to_char_type(c);
        return traits_type::not_eof(c);
    }
    int sync() override
    {
        text_.append(pbase(), pptr());
        setp(part_, part_ + portion_);
        return 0;
    }

public:
    Drops(std::string& text, int portion)
        : text_(text)
        , portion_(portion)
    {
        setp(part_, part_ + portion_);
    }
    ~Drops() override { sync(); }
};
} // namespace streams
