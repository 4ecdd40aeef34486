// C23, at the maximum size of a List: List<bool> packs INT_MAX elements into 256 MB.
// The library does not promise List<bool>, so when this does not compile it is left out.
#include "mon.hpp"
#include "list.hpp"
#include <climits>
using namespace pyincpp;

static void fill(List<bool>& l, int n)
{
    mon::alloc_max = std::size_t(6) << 30;
    l = List<bool>(std::vector<bool>(n, true));
}
template <typename F>
static void step(const char* op, bool pre, List<bool>& l, long long after, F f)
{
    mon::set_op(op);
    mon::count_n(op, 1);
    const int before = l.size();
    const mon::Out o = mon::attempt(f);
    EXPECT(o == (pre ? mon::Out::ok : mon::Out::runtime_error), std::string(pre ? "rejected:" : "not-rejected:") + op, op << " with " << before << " elements: " << mon::name(o) << (pre ? " although it fits" : " although it does not fit"));
    EXPECT(l.size() == after, "capacity-size:" + std::string(op), op << " with " << before << " elements leaves " << l.size());
    mon::evaluated();
    mon::nontrivial(mon::hash_str(op, std::uint64_t(before)));
}
SUITE(list_capacity, 5, 5)
{
    const bool t = true;
    List<bool> l, none, two(std::vector<bool>(2, false));
    switch (idx)
    {
        case 0: // full
            fill(l, INT_MAX);
            step("List += element when full", false, l, INT_MAX, [&] { l += t; });
            step("List insert when full", false, l, INT_MAX, [&] { l.insert(0, t); });
            step("List insert at -1 when full", false, l, INT_MAX, [&] { l.insert(-1, t); });
            step("List += list when full", false, l, INT_MAX, [&] { l += two; });
            step("List extend when full", false, l, INT_MAX, [&] { l.extend(two.begin(), two.end()); });
            step("List + element when full", false, l, INT_MAX, [&] { mon::keep(l + t); });
            step("List += empty list when full", true, l, INT_MAX, [&] { l += none; });
            step("List *= when full", false, l, INT_MAX, [&] { l *= 2; });
            step("List remove when full", true, l, INT_MAX - 1, [&] { mon::keep(l.remove(-1)); });
            step("List += element below full", true, l, INT_MAX, [&] { l += t; });
            break;
        case 1: // one below
            fill(l, INT_MAX - 1);
            step("List += list beyond", false, l, INT_MAX - 1, [&] { l += two; });
            step("List extend beyond", false, l, INT_MAX - 1, [&] { l.extend(two.begin(), two.end()); });
            step("List extend to full", true, l, INT_MAX, [&] { l.extend(two.begin(), two.begin() + 1); });
            step("List += element beyond", false, l, INT_MAX, [&] { l += t; });
            break;
        case 2: // two below
            fill(l, INT_MAX - 2);
            step("List += list to full", true, l, INT_MAX, [&] { l += two; });
            EXPECT(*l.rbegin() == false && *(l.end() - 2) == false && *(l.end() - 3) == true, "capacity-content", "wrong elements at the end");
            step("List += list beyond full", false, l, INT_MAX, [&] { l += two; });
            break;
        case 3: // both large
        {
            List<bool> m;
            fill(m, INT_MAX / 2 + 2);
            fill(l, INT_MAX / 2 + 1);
            step("List += large list beyond", false, l, INT_MAX / 2 + 1, [&] { l += m; });
            break;
        }
        default: // repetition
            for (int n : {2, 3, 46341, 1 << 20, 1 << 30, INT_MAX / 2 + 1})
            {
                fill(l, n);
                const int most = INT_MAX / n;
                step("List * beyond", false, l, n, [&] { mon::keep(l * (most + 1)); });
                step("List *= beyond", false, l, n, [&] { l *= most + 1; });
                step("List * INT_MAX", false, l, n, [&] { mon::keep(l * INT_MAX); });
            }
            fill(l, 1 << 30);
            step("List *= 1", true, l, 1 << 30, [&] { l *= 1; });
    }
    mon::alloc_max = std::size_t(1) << 30;
}
