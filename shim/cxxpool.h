// Stand-in for the cxxpool submodule (absent from this checkout): same interface that
// /repo/src uses (thread_pool(n), push -> std::future, clear, get).
//
// Default: tasks are queued and executed one after the other, in submission order, when the first
// future of the batch is waited on (deterministic, single threaded).
// With kratos_verif_pool_mode != 0 the queued batch is executed in a permuted order
// (mode = permutation seed), which models the freedom a real pool has in ordering whole tasks.
// A negative mode uses real std::async threads.
#ifndef VERIF_CXXPOOL_H
#define VERIF_CXXPOOL_H
#include <algorithm>
#include <cstdint>
#include <deque>
#include <functional>
#include <future>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>

inline int64_t &kratos_verif_pool_mode() {
    static int64_t mode = 0;
    return mode;
}

namespace cxxpool {
namespace detail {
struct task_queue {
    std::vector<std::function<void()>> tasks;
    void run_all() {
        int64_t mode = kratos_verif_pool_mode();
        std::vector<std::function<void()>> todo;
        todo.swap(tasks);
        if (mode > 0 && todo.size() > 1) {
            uint64_t s = static_cast<uint64_t>(mode) * 0x9E3779B97F4A7C15ull + 1;
            for (size_t i = todo.size() - 1; i > 0; i--) {
                s ^= s >> 12;
                s ^= s << 25;
                s ^= s >> 27;
                std::swap(todo[i], todo[(s * 2685821657736338717ull >> 33) % (i + 1)]);
            }
        }
        for (auto &t : todo) t();
    }
};
}  // namespace detail

class thread_pool {
public:
    thread_pool() : q_(std::make_shared<detail::task_queue>()) {}
    explicit thread_pool(std::size_t) : thread_pool() {}
    ~thread_pool() { q_->run_all(); }

    template <typename F, typename... Args>
    auto push(F &&f, Args &&...args)
        -> std::future<std::invoke_result_t<std::decay_t<F>, std::decay_t<Args>...>> {
        using R = std::invoke_result_t<std::decay_t<F>, std::decay_t<Args>...>;
        auto bound = std::bind(std::forward<F>(f), std::forward<Args>(args)...);
        if (kratos_verif_pool_mode() < 0) {
            return std::async(std::launch::async, [bound]() mutable -> R { return bound(); });
        }
        auto task =
            std::make_shared<std::packaged_task<R()>>([bound]() mutable -> R { return bound(); });
        auto inner = std::make_shared<std::future<R>>(task->get_future());
        auto q = q_;
        q->tasks.emplace_back([task] { (*task)(); });
        return std::async(std::launch::deferred, [q, inner]() -> R {
            q->run_all();
            return inner->get();
        });
    }
    void clear() {}

private:
    std::shared_ptr<detail::task_queue> q_;
};

template <typename It>
void wait(It begin, It end) {
    for (; begin != end; ++begin) begin->wait();
}

template <typename It>
auto get(It begin, It end)
    -> std::enable_if_t<std::is_void_v<decltype(std::declval<It>()->get())>, void> {
    for (; begin != end; ++begin) begin->get();
}

template <typename It>
auto get(It begin, It end)
    -> std::enable_if_t<!std::is_void_v<decltype(std::declval<It>()->get())>,
                        std::vector<decltype(std::declval<It>()->get())>> {
    std::vector<decltype(std::declval<It>()->get())> r;
    for (; begin != end; ++begin) r.emplace_back(begin->get());
    return r;
}

template <typename It, typename Seq>
void get(It begin, It end, Seq &out) {
    for (; begin != end; ++begin) out.emplace_back(begin->get());
}
}  // namespace cxxpool
#endif
