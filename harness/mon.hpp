// mon: the runtime-monitoring frame shared by all harnesses.
// A harness registers suites; a suite is a numbered family of cases, each driving the real library
// (headers of /repo/sources) while oracles watch. A failed EXPECT is a violation with a stable key.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace mon
{

// Not derived from std::exception, so that no handler for library errors swallows it.
struct Violation
{
    std::string key, detail;
};

struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed)
        : s(seed)
    {
    }
    std::uint64_t next() // splitmix64
    {
        std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // uniform in [lo, hi]
    long long range(long long lo, long long hi)
    {
        return lo + (long long)(next() % (std::uint64_t)(hi - lo + 1));
    }
    bool chance(int num, int den)
    {
        return range(1, den) <= num;
    }
    double unit()
    {
        return (next() >> 11) * 0x1p-53;
    }
    template <typename C>
    auto& pick(C& c)
    {
        return c[range(0, (long long)std::size(c) - 1)];
    }
    template <typename T>
    T of(std::initializer_list<T> l)
    {
        return *(l.begin() + range(0, (long long)l.size() - 1));
    }
};

using CaseFn = void (*)(std::uint64_t idx, Rng& rng);
struct Suite
{
    const char* name;
    std::uint64_t quick, thorough;
    CaseFn fn;
};
struct Reg
{
    Reg(const char* name, std::uint64_t quick, std::uint64_t thorough, CaseFn fn);
};

#define SUITE(NAME, QUICK, THOROUGH)                                        \
    static void suite_##NAME(std::uint64_t idx, mon::Rng& rng);             \
    static mon::Reg reg_##NAME(#NAME, QUICK, THOROUGH, suite_##NAME);       \
    static void suite_##NAME([[maybe_unused]] std::uint64_t idx, [[maybe_unused]] mon::Rng& rng)

// ---- observation -----------------------------------------------------------------------------
extern bool verbose;   // replaying one case
extern bool thorough;  // tier
struct OpCounter
{
    const char* name;
    std::uint64_t count = 0;
    OpCounter* next;
    explicit OpCounter(const char* n);
};
void set_op(const char* name); // crumb for crashes and hangs
// Announce the operation that is about to run: counted, and named if it crashes or hangs.
#define OP(NAME)                            \
    do                                      \
    {                                       \
        static mon::OpCounter oc_(NAME);    \
        ++oc_.count;                        \
        mon::set_op(NAME);                  \
    } while (0)
void count_n(const char* name, std::uint64_t n); // named counter of observed events

void note_(const std::string& s);
// Free text of the history so far, only built when replaying.
#define NOTE(EXPR)                          \
    do                                      \
    {                                       \
        if (mon::verbose)                   \
        {                                   \
            std::ostringstream n_;          \
            n_ << EXPR;                     \
            mon::note_(n_.str());           \
        }                                   \
    } while (0)

std::uint64_t hash_str(std::string_view s, std::uint64_t h = 1469598103934665603ull);
inline std::uint64_t hash_mix(std::uint64_t h, std::uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}
void nontrivial(std::uint64_t h); // this evaluation was non-trivial; h identifies it
void evaluated(std::uint64_t n = 1);
bool want_sample(const char* suite_tag);
void sample_(const char* tag, const std::string& s);
#define SAMPLE(TAG, EXPR)                   \
    do                                      \
    {                                       \
        if (mon::want_sample(TAG))          \
        {                                   \
            std::ostringstream s_;          \
            s_ << EXPR;                     \
            mon::sample_(TAG, s_.str());    \
        }                                   \
    } while (0)

[[noreturn]] void fail(const std::string& key, const std::string& detail);
#define FAIL(KEY, EXPR)                     \
    do                                      \
    {                                       \
        std::ostringstream f_;              \
        f_ << EXPR;                         \
        mon::fail(KEY, f_.str());           \
    } while (0)
#define EXPECT(COND, KEY, EXPR)             \
    do                                      \
    {                                       \
        if (!(COND))                        \
            FAIL(KEY, EXPR);                \
    } while (0)

// ---- outcome of a call -----------------------------------------------------------------------
enum class Out
{
    ok,
    runtime_error,
    other_std,
    alien
};
inline const char* name(Out o)
{
    switch (o)
    {
        case Out::ok: return "ok";
        case Out::runtime_error: return "runtime_error";
        case Out::other_std: return "other std::exception";
        default: return "non-standard exception";
    }
}
extern std::string last_what;
template <typename F>
Out attempt(F&& f)
{
    try
    {
        f();
        return Out::ok;
    }
    catch (const Violation&)
    {
        throw;
    }
    catch (const std::runtime_error& e)
    {
        last_what = e.what();
        return Out::runtime_error;
    }
    catch (const std::exception& e)
    {
        last_what = e.what();
        return Out::other_std;
    }
}

// ---- allocations (operator new/delete are replaced) --------------------------------------------
extern std::uint64_t alloc_calls;    // calls so far (this process, all threads: racy but only used single-threaded)
extern long long alloc_live;         // live blocks
extern long long alloc_fail_at;      // fail the n-th call from now (1 = next); 0 = never
extern bool alloc_failed;            // set when it fired
extern std::size_t alloc_max;        // larger requests throw bad_alloc

// Do not let the optimizer drop a value.
template <typename T>
inline void keep(const T& v)
{
    asm volatile("" : : "g"(&v) : "memory");
}

// printable form of bytes
std::string esc(std::string_view s);

} // namespace mon
using mon::Rng;
