#include "mon.hpp"
#include <algorithm>
#include <csignal>
#include <fcntl.h>
#include <map>
#include <new>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>

namespace mon
{
bool verbose = false;
bool thorough = false;
std::string last_what;
std::uint64_t alloc_calls = 0;
long long alloc_live = 0;
long long alloc_fail_at = 0;
bool alloc_failed = false;
std::size_t alloc_max = std::size_t(1) << 30;

struct Crumb // shared with the driver through a file, survives a crash
{
    char suite[64];
    std::uint64_t idx;
    char op[64];
    char state[16]; // run, hang, done
};
static Crumb fallback_crumb;
static Crumb* crumb = &fallback_crumb;

static std::vector<Suite>& suites()
{
    static std::vector<Suite> s;
    return s;
}
Reg::Reg(const char* name, std::uint64_t quick, std::uint64_t thorough, CaseFn fn)
{
    suites().push_back({name, quick, thorough, fn});
}

static OpCounter* counters = nullptr;
OpCounter::OpCounter(const char* n)
    : name(n)
    , next(counters)
{
    counters = this;
}
void set_op(const char* name)
{
    strncpy(crumb->op, name, sizeof crumb->op - 1);
}
static std::map<std::string, std::uint64_t>& named()
{
    static std::map<std::string, std::uint64_t> m;
    return m;
}
void count_n(const char* name, std::uint64_t n)
{
    named()[name] += n;
}
void note_(const std::string& s)
{
    fprintf(stdout, "  %s\n", s.c_str());
    fflush(stdout);
}
std::uint64_t hash_str(std::string_view s, std::uint64_t h)
{
    for (unsigned char c : s)
    {
        h = (h ^ c) * 1099511628211ull;
    }
    return h;
}
static std::vector<std::uint64_t>& seen()
{
    static std::vector<std::uint64_t> s;
    return s;
}
static std::size_t compact_at = 1 << 20;
static std::uint64_t evals = 0;
void nontrivial(std::uint64_t h)
{
    auto& s = seen();
    s.push_back(h);
    if (s.size() >= compact_at)
    {
        std::sort(s.begin(), s.end());
        s.erase(std::unique(s.begin(), s.end()), s.end());
        compact_at = std::max<std::size_t>(1 << 20, s.size() * 2);
    }
}
void evaluated(std::uint64_t n)
{
    evals += n;
}
static std::map<std::string, std::vector<std::string>>& samples()
{
    static std::map<std::string, std::vector<std::string>> m;
    return m;
}
bool want_sample(const char* tag)
{
    auto it = samples().find(tag);
    return it == samples().end() || it->second.size() < 2;
}
void sample_(const char* tag, const std::string& s)
{
    samples()[tag].push_back(s.size() > 400 ? s.substr(0, 400) + "..." : s);
}
void fail(const std::string& key, const std::string& detail)
{
    throw Violation{key, detail};
}
std::string esc(std::string_view s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
        else
        {
            r += c;
        }
    }
    return r + "\"";
}

static std::string jstr(std::string_view s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
        {
            r += c;
        }
    }
    return r + "\"";
}

// one tick per second of CPU time: the same case for `case_limit` ticks is a hang
static volatile std::uint64_t case_no = 0;
static std::uint64_t tick_case = 0;
static int tick_same = 0;
static int case_limit = 25;
static void on_tick(int)
{
    if (case_no != tick_case)
    {
        tick_case = case_no;
        tick_same = 0;
    }
    else if (++tick_same >= case_limit)
    {
        strcpy(crumb->state, "hang");
        _exit(77);
    }
}

struct Args
{
    std::uint64_t seed = 1;
    int shard = 0, shards = 1;
    std::string out, hashes, crumb, only, from, tier = "quick";
    double scale = 1;
    int stride = 1; // one case in so many, of the suites whose cases are small
    std::vector<std::string> merge;
    std::vector<std::string> skip;
    bool list = false;
};

static std::uint64_t case_seed(std::uint64_t seed, const char* suite, std::uint64_t idx)
{
    return hash_mix(hash_mix(seed * 0x9e3779b97f4a7c15ull, hash_str(suite)), idx);
}

static int run(const Args& a)
{
    struct V
    {
        std::string suite, key, detail;
        std::uint64_t idx;
    };
    std::vector<V> violations;
    std::map<std::string, std::uint64_t> per_key;
    std::map<std::string, std::uint64_t> cases;
    if (!a.crumb.empty())
    {
        int fd = open(a.crumb.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Crumb)) != 0)
        {
            perror("crumb");
            return 2;
        }
        crumb = (Crumb*)mmap(nullptr, sizeof(Crumb), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        if (crumb == MAP_FAILED)
        {
            perror("mmap");
            return 2;
        }
    }
    strcpy(crumb->state, "run");
    struct sigaction sa = {};
    sa.sa_handler = on_tick;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval tv = {{1, 0}, {1, 0}};
    setitimer(ITIMER_PROF, &tv, nullptr);

    std::string only_suite;
    std::uint64_t only_idx = 0;
    if (!a.only.empty())
    {
        auto p = a.only.rfind(':');
        only_suite = a.only.substr(0, p);
        only_idx = strtoull(a.only.c_str() + p + 1, nullptr, 10);
        verbose = true;
    }
    bool skipping = !a.from.empty();
    std::string from_suite;
    std::uint64_t from_idx = 0;
    if (skipping)
    {
        auto p = a.from.rfind(':');
        from_suite = a.from.substr(0, p);
        from_idx = strtoull(a.from.c_str() + p + 1, nullptr, 10);
    }
    auto all = suites();
    std::stable_sort(all.begin(), all.end(), [](const Suite& x, const Suite& y)
                     { return strcmp(x.name, y.name) < 0; });
    bool stop = false;
    for (const auto& s : all)
    {
        if (!only_suite.empty() && only_suite != s.name)
        {
            continue;
        }
        if (a.stride > 1)
        {
            const std::string name = s.name;
            if (name.starts_with("very_long") || name.starts_with("huge") || name.starts_with("large") || name.starts_with("long"))
            {
                continue;
            }
        }
        const std::uint64_t step = std::uint64_t(a.shards) * a.stride;
        std::uint64_t n = thorough ? s.thorough : s.quick;
        if (n > 1)
        {
            n = std::max<std::uint64_t>(1, n * a.scale);
        }
        std::uint64_t first = a.shard;
        if (skipping)
        {
            if (from_suite != s.name)
            {
                continue;
            }
            skipping = false;
            first = from_idx + step;
        }
        strncpy(crumb->suite, s.name, sizeof crumb->suite - 1);
        crumb->suite[std::min(strlen(s.name), sizeof crumb->suite - 1)] = 0;
        if (!only_suite.empty())
        {
            first = only_idx;
            n = only_idx + 1;
        }
        std::uint64_t done = 0;
        for (std::uint64_t idx = first; idx < n && !stop; idx += step)
        {
            crumb->idx = idx;
            crumb->op[0] = 0;
            case_no = case_no + 1;
            Rng rng(case_seed(a.seed, s.name, idx));
            if (verbose)
            {
                printf("case %s:%llu seed %llu\n", s.name, (unsigned long long)idx, (unsigned long long)a.seed);
            }
            ++done;
            alloc_fail_at = 0;
            auto record = [&](const std::string& key, const std::string& detail)
            {
                if (++per_key[key] <= 3)
                {
                    violations.push_back({s.name, key, detail, idx});
                }
                if (violations.size() >= 24 || per_key[key] >= 1000)
                {
                    stop = true;
                }
            };
            try
            {
                s.fn(idx, rng);
            }
            catch (const Violation& v)
            {
                alloc_fail_at = 0;
                record(v.key, v.detail);
            }
            catch (const std::exception& e)
            {
                alloc_fail_at = 0;
                record(std::string("unexpected-exception:") + crumb->op, std::string("operation ") + crumb->op + " threw: " + e.what());
            }
        }
        cases[s.name] += done;
    }
    strcpy(crumb->state, "done");
    itimerval off = {};
    setitimer(ITIMER_PROF, &off, nullptr);

    std::ostringstream o;
    auto& sn = seen();
    std::sort(sn.begin(), sn.end());
    sn.erase(std::unique(sn.begin(), sn.end()), sn.end());
    o << "{\"evaluations\":" << evals << ",\"distinct\":" << sn.size() << ",\"cases\":{";
    const char* sep = "";
    for (auto& [k, v] : cases)
    {
        o << sep << jstr(k) << ":" << v;
        sep = ",";
    }
    o << "},\"ops\":{";
    std::map<std::string, std::uint64_t> ops;
    for (auto* c = counters; c; c = c->next)
    {
        ops[c->name] += c->count;
    }
    sep = "";
    for (auto& [k, v] : ops)
    {
        o << sep << jstr(k) << ":" << v;
        sep = ",";
    }
    o << "},\"counts\":{";
    sep = "";
    for (auto& [k, v] : named())
    {
        o << sep << jstr(k) << ":" << v;
        sep = ",";
    }
    o << "},\"samples\":{";
    sep = "";
    for (auto& [k, v] : samples())
    {
        o << sep << jstr(k) << ":[";
        const char* s2 = "";
        for (auto& x : v)
        {
            o << s2 << jstr(x);
            s2 = ",";
        }
        o << "]";
        sep = ",";
    }
    o << "},\"violations\":[";
    sep = "";
    for (auto& v : violations)
    {
        o << sep << "{\"suite\":" << jstr(v.suite) << ",\"idx\":" << v.idx << ",\"key\":" << jstr(v.key) << ",\"detail\":" << jstr(v.detail.size() > 3000 ? v.detail.substr(0, 3000) + "..." : v.detail) << "}";
        sep = ",";
    }
    o << "]}\n";
    if (verbose)
    {
        for (auto& v : violations)
        {
            printf("VIOLATED %s at %s:%llu\n  %s\n", v.key.c_str(), v.suite.c_str(), (unsigned long long)v.idx, v.detail.c_str());
        }
        if (violations.empty())
        {
            printf("held\n");
        }
        if (a.out.empty())
        {
            return violations.empty() ? 0 : 1;
        }
    }
    if (a.out.empty())
    {
        fputs(o.str().c_str(), stdout);
    }
    else
    {
        FILE* f = fopen(a.out.c_str(), "w");
        if (!f || fputs(o.str().c_str(), f) < 0 || fclose(f) != 0)
        {
            perror("out");
            return 2;
        }
    }
    if (!a.hashes.empty())
    {
        FILE* f = fopen(a.hashes.c_str(), "wb");
        if (!f || (sn.size() && fwrite(sn.data(), 8, sn.size(), f) != sn.size()) || fclose(f) != 0)
        {
            perror("hashes");
            return 2;
        }
    }
    return violations.empty() ? 0 : 1;
}

static int merge(const std::vector<std::string>& files)
{
    std::vector<std::uint64_t> v;
    for (auto& fn : files)
    {
        FILE* f = fopen(fn.c_str(), "rb");
        if (!f)
        {
            return 2;
        }
        std::uint64_t b[4096];
        for (std::size_t n; (n = fread(b, 8, 4096, f)) > 0;)
        {
            v.insert(v.end(), b, b + n);
        }
        fclose(f);
    }
    std::sort(v.begin(), v.end());
    printf("%zu\n", std::size_t(std::unique(v.begin(), v.end()) - v.begin()));
    return 0;
}
} // namespace mon

// ---- replaced allocation functions -------------------------------------------------------------
static void* mon_alloc(std::size_t n)
{
    ++mon::alloc_calls;
    if (mon::alloc_fail_at > 0 && --mon::alloc_fail_at == 0)
    {
        mon::alloc_failed = true;
        throw std::bad_alloc();
    }
    if (n > mon::alloc_max)
    {
        throw std::bad_alloc();
    }
    void* p = malloc(n ? n : 1);
    if (!p)
    {
        throw std::bad_alloc();
    }
    ++mon::alloc_live;
    return p;
}
static void mon_free(void* p)
{
    if (p)
    {
        --mon::alloc_live;
        free(p);
    }
}
#ifndef MON_NO_ALLOC
void* operator new(std::size_t n) { return mon_alloc(n); }
void* operator new[](std::size_t n) { return mon_alloc(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    try
    {
        return mon_alloc(n);
    }
    catch (...)
    {
        return nullptr;
    }
}
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { mon_free(p); }
void operator delete[](void* p) noexcept { mon_free(p); }
void operator delete(void* p, std::size_t) noexcept { mon_free(p); }
void operator delete[](void* p, std::size_t) noexcept { mon_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mon_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mon_free(p); }
#endif

#ifndef MON_NO_MAIN
int main(int argc, char** argv)
{
    mon::Args a;
    for (int i = 1; i < argc; ++i)
    {
        std::string k = argv[i];
        auto val = [&]() -> std::string
        { return i + 1 < argc ? argv[++i] : ""; };
        if (k == "--seed") a.seed = strtoull(val().c_str(), nullptr, 10);
        else if (k == "--shard") a.shard = atoi(val().c_str());
        else if (k == "--shards") a.shards = atoi(val().c_str());
        else if (k == "--out") a.out = val();
        else if (k == "--hashes") a.hashes = val();
        else if (k == "--crumb") a.crumb = val();
        else if (k == "--only") a.only = val();
        else if (k == "--from") a.from = val();
        else if (k == "--tier") a.tier = val();
        else if (k == "--scale") a.scale = atof(val().c_str());
        else if (k == "--stride") a.stride = std::max(1, atoi(val().c_str()));
        else if (k == "--case-limit") mon::case_limit = atoi(val().c_str());
        else if (k == "--merge")
        {
            while (i + 1 < argc) a.merge.push_back(argv[++i]);
        }
        else
        {
            fprintf(stderr, "unknown argument %s\n", argv[i]);
            return 2;
        }
    }
    if (!a.merge.empty())
    {
        return mon::merge(a.merge);
    }
    mon::thorough = a.tier == "thorough";
    return mon::run(a);
}
#endif
