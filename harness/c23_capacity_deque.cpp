// C23, at the maximum size of a Deque: Deque<char> of INT_MAX elements takes 2 GB.
#include "mon.hpp"
#include "deque.hpp"
#include <climits>
using namespace pyincpp;

SUITE(deque_capacity, 1, 1)
{
    mon::alloc_max = std::size_t(6) << 30;
    const std::vector<char> piece(1 << 20, 'x');
    Deque<char> q;
    for (int i = 0; i < 2047; ++i)
        q.extend_back(piece.begin(), piece.end());
    q.extend_front(piece.begin(), piece.end() - 1);
    auto step = [&](const char* op, bool pre, int after, auto f)
    {
        mon::set_op(op);
        mon::count_n(op, 1);
        const mon::Out o = mon::attempt(f);
        EXPECT(o == (pre ? mon::Out::ok : mon::Out::runtime_error), std::string(pre ? "rejected:" : "not-rejected:") + op, op << ": " << mon::name(o));
        EXPECT(q.size() == after, "capacity-size:" + std::string(op), op << " leaves " << q.size());
        mon::evaluated();
        mon::nontrivial(mon::hash_str(op));
    };
    EXPECT(q.size() == INT_MAX, "capacity-size:Deque extend", "filled to " << q.size());
    const char c = 'y';
    step("Deque push_back when full", false, INT_MAX, [&] { q.push_back(c); });
    step("Deque push_front when full", false, INT_MAX, [&] { q.push_front(c); });
    step("Deque extend_back when full", false, INT_MAX, [&] { q.extend_back(piece.begin(), piece.begin() + 1); });
    step("Deque extend_front when full", false, INT_MAX, [&] { q.extend_front(piece.begin(), piece.begin() + 1); });
    step("Deque pop_front when full", true, INT_MAX - 1, [&] { mon::keep(q.pop_front()); });
    step("Deque extend_front below full", false, INT_MAX - 1, [&] { q.extend_front(piece.begin(), piece.begin() + 2); });
    step("Deque push_front below full", true, INT_MAX, [&] { q.push_front(c); });
    EXPECT(q[0] == 'y' && q[INT_MAX - 1] == 'x' && q[-INT_MAX] == 'y', "capacity-content", "wrong elements at the ends");
    mon::alloc_max = std::size_t(1) << 30;
}
