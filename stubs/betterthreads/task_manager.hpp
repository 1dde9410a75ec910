// Interface of the task manager submodule as the library uses it, for the analysis views only: tasks are taken to run at the
// point where they are handed over (whether they may run at the same time is decided by a rule of its own).
#ifndef EL_STUB_TASK_MANAGER_HPP
#define EL_STUB_TASK_MANAGER_HPP
#include <cstddef>
#include <future>
#include <thread>
#include <utility>
#include <vector>
namespace BetterThreads {
template <typename T> class Future
{
public:
    Future() = default;
    T get() { return T(); }
};
class TaskManager
{
public:
    static TaskManager& instance();
    void set_maximum_concurrency();
    std::size_t concurrency() const;
    template <typename F, typename... A> auto enqueue(F f, A... a) -> Future<decltype(f(a...))>
    {
        f(a...);
        return Future<decltype(f(a...))>();
    }
};
}
#endif
