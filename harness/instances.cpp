// Instantiations of the library's templates with opaque user types.  The build puts this behind every source file of
// the library (included unmodified from the tree under verification).
#include <threadpp/thread.h>
#include <threadpp/thread_pool.h>
#include <threadpp/condition_variable.hpp>
#include <threadpp/future.hpp>
#include <threadpp/mutex.hpp>
#include <threadpp/when_all_any.hpp>

namespace itcv
{
using ns = std::chrono::nanoseconds;
using us = std::chrono::microseconds;
using tp = std::chrono::time_point<std::chrono::steady_clock, ns>;
} // namespace itcv

template auto tpp::this_thread::wait_for(const itcv::ns&) -> std::cv_status;
template auto tpp::this_thread::wait_for(const itcv::us&) -> std::cv_status;
template void tpp::this_thread::process_for(const itcv::us&);
template auto tpp::this_thread::wait_until(const itcv::tp&) -> std::cv_status;
template void tpp::this_thread::process_for(const itcv::ns&);
template void tpp::this_thread::sleep_for(const itcv::ns&);
template void tpp::this_thread::sleep_until(const itcv::tp&);

template auto tpp::condition_variable::wait_for(std::unique_lock<std::mutex>&, const itcv::us&) const -> std::cv_status;
template auto tpp::condition_variable::wait_until(std::unique_lock<std::mutex>&, const itcv::tp&) const -> std::cv_status;

namespace itcv
{
void use(tpp::condition_variable& c, std::unique_lock<std::mutex>& l, tpp::mutex& m)
{
    c.wait(l);
    c.notify_one();
    c.notify_all();
    m.lock();
    m.try_lock();
    m.unlock();
}

void fresh(void* c, void* m)
{
    new(c) tpp::condition_variable;
    new(m) tpp::mutex;
}
} // namespace itcv

// ---------------------------------------------------------------- futures
// Opaque user types: only declared, so every copy, move, destruction and call is an event of unknown user code.
namespace itcv
{
struct U
{
    long v;
    U(const U&);
    U(U&&);
    auto operator=(const U&) -> U&;
    auto operator=(U&&) -> U&;
    ~U();
};
} // namespace itcv

template class tpp::detail::basic_promise<itcv::U>;
template class tpp::detail::basic_promise<void>;
template class tpp::detail::basic_future<itcv::U>;
template class tpp::detail::basic_future<void>;
template class tpp::promise<itcv::U>;
template class tpp::future<itcv::U>;
template class tpp::shared_future<itcv::U>;
template auto tpp::detail::basic_future<itcv::U>::wait_for(const itcv::us&) const -> std::future_status;
template auto tpp::detail::basic_future<void>::wait_for(const itcv::us&) const -> std::future_status;
template auto tpp::detail::basic_future<itcv::U>::wait_until(const itcv::tp&) const -> std::future_status;
template auto tpp::make_ready_future(itcv::U&&) -> tpp::future<itcv::U>;
template auto tpp::make_exceptional_future<itcv::U>(std::exception_ptr) -> tpp::future<itcv::U>;
template auto tpp::make_exceptional_future<void>(std::exception_ptr) -> tpp::future<void>;
namespace itcv
{
struct X
{
    long v;
    X(const X&) noexcept;
    ~X();
};
} // namespace itcv
template auto tpp::make_exceptional_future<itcv::U>(itcv::X) -> tpp::future<itcv::U>;

namespace itcv
{
void use(tpp::promise<void>& p, tpp::promise<U>& q, tpp::future<void>& f, tpp::shared_future<void>& s, tpp::shared_future<U>& t)
{
    p.set_value();
    p = tpp::promise<void>();
    q = tpp::promise<U>();
    f.get();
    s = f.share();
    s.get();
    t = tpp::shared_future<U>();
    f = tpp::make_ready_future();
    tpp::promise<U> moved(std::move(q));
    tpp::promise<void> moved_void(std::move(p));
}
} // namespace itcv

// ---------------------------------------------------------------- tasks
namespace itcv
{
#define ITCV_CALLABLE(name, call)                                                                                      \
    struct name                                                                                                        \
    {                                                                                                                  \
        long v;                                                                                                        \
        name(const name&);                                                                                             \
        name(name&&);                                                                                                  \
        ~name();                                                                                                       \
        call;                                                                                                          \
    }
ITCV_CALLABLE(F, auto operator()(U)->U);
ITCV_CALLABLE(G, void operator()(U));
ITCV_CALLABLE(C, auto operator()(tpp::future<U>)->U);
ITCV_CALLABLE(CN, void operator()(tpp::future<U>));
ITCV_CALLABLE(CV, void operator()(tpp::future<void>));
ITCV_CALLABLE(CS, auto operator()(tpp::shared_future<U>)->U);
ITCV_CALLABLE(CSV, void operator()(tpp::shared_future<void>));
#undef ITCV_CALLABLE
using id = tpp::thread::id;
} // namespace itcv

template auto tpp::async(itcv::id, std::launch, itcv::F&&, itcv::U&&) -> tpp::future<itcv::U>;
template auto tpp::async(itcv::id, std::launch, itcv::F&, itcv::U&) -> tpp::future<itcv::U>;
template auto tpp::async(itcv::id, std::launch, itcv::G&&, itcv::U&&) -> tpp::future<void>;
template auto tpp::async(itcv::id, itcv::F&&, itcv::U&&) -> tpp::future<itcv::U>;
template auto tpp::async(std::launch, itcv::F&&, itcv::U&&) -> tpp::future<itcv::U>;
template auto tpp::async(itcv::F&&, itcv::U&&) -> tpp::future<itcv::U>;
template auto tpp::invoke(itcv::id, itcv::G&&, itcv::U&&) -> bool;
template auto tpp::invoke(itcv::id, itcv::G&, itcv::U&) -> bool;
template auto tpp::dispatch(itcv::id, itcv::G&&, itcv::U&&) -> bool;
template auto tpp::future<itcv::U>::then(itcv::id, std::launch, itcv::C&&) -> tpp::future<itcv::U>;
template auto tpp::future<itcv::U>::then(itcv::id, std::launch, itcv::CN&&) -> tpp::future<void>;
template auto tpp::future<itcv::U>::then(itcv::id, itcv::C&&) -> tpp::future<itcv::U>;
template auto tpp::future<itcv::U>::then(std::launch, itcv::C&&) -> tpp::future<itcv::U>;
template auto tpp::future<itcv::U>::then(itcv::C&&) -> tpp::future<itcv::U>;
template auto tpp::future<void>::then(itcv::id, std::launch, itcv::CV&&) -> tpp::future<void>;
template auto tpp::future<void>::then(itcv::id, itcv::CV&&) -> tpp::future<void>;
template auto tpp::future<void>::then(std::launch, itcv::CV&&) -> tpp::future<void>;
template auto tpp::future<void>::then(itcv::CV&&) -> tpp::future<void>;
template auto tpp::shared_future<itcv::U>::then(itcv::id, std::launch, itcv::CS&&) const -> tpp::future<itcv::U>;
template auto tpp::shared_future<itcv::U>::then(itcv::id, itcv::CS&&) const -> tpp::future<itcv::U>;
template auto tpp::shared_future<itcv::U>::then(std::launch, itcv::CS&&) const -> tpp::future<itcv::U>;
template auto tpp::shared_future<itcv::U>::then(itcv::CS&&) const -> tpp::future<itcv::U>;
template auto tpp::shared_future<void>::then(itcv::id, std::launch, itcv::CSV&&) const -> tpp::future<void>;
template auto tpp::shared_future<void>::then(itcv::id, itcv::CSV&&) const -> tpp::future<void>;
template auto tpp::shared_future<void>::then(std::launch, itcv::CSV&&) const -> tpp::future<void>;
template auto tpp::shared_future<void>::then(itcv::CSV&&) const -> tpp::future<void>;

// ---------------------------------------------------------------- pool
template auto tpp::thread_pool::schedule(tpp::priority::group, itcv::F&&, itcv::U&&) -> tpp::job_future<itcv::U>;
template auto tpp::thread_pool::schedule(itcv::F&&, itcv::U&&) -> tpp::job_future<itcv::U>;
template auto tpp::thread_pool::schedule(tpp::priority::group, itcv::G&&, itcv::U&&) -> tpp::job_future<void>;
namespace itcv
{
auto groups(size_t n) -> bool
{
    return tpp::priority::normal(n) == tpp::priority::high(n) || tpp::priority::normal(n) == tpp::priority::critical(n);
}
} // namespace itcv
template struct tpp::job_future<itcv::U>;
template struct tpp::job_shared_future<itcv::U>;
template struct tpp::job_future<void>;
template struct tpp::job_shared_future<void>;
namespace itcv
{
template<typename T>
void handles(tpp::job_future<T>& a, tpp::job_future<T>& b, tpp::job_shared_future<T>& c, tpp::job_shared_future<T>& d)
{
    a = std::move(b);
    tpp::job_future<T> e(std::move(a));
    c = d;
    c = std::move(d);
    tpp::job_shared_future<T> f(c);
    tpp::job_shared_future<T> g(std::move(c));
}
template void handles<U>(tpp::job_future<U>&, tpp::job_future<U>&, tpp::job_shared_future<U>&, tpp::job_shared_future<U>&);
template void handles<void>(tpp::job_future<void>&, tpp::job_future<void>&, tpp::job_shared_future<void>&, tpp::job_shared_future<void>&);
}

// ---------------------------------------------------------------- combinators
namespace itcv
{
using FU = tpp::future<U>;
using SU = tpp::shared_future<U>;
using FV = tpp::future<void>;
using FUS = std::vector<FU>;
using SUS = std::vector<SU>;
using SV = tpp::shared_future<void>;
using MIX = std::tuple<FU, SU, FV>;
using MIX4 = std::tuple<FV, SV, SU, FU>;
}
template auto tpp::when_all(itcv::FUS::iterator, itcv::FUS::iterator) -> tpp::future<itcv::FUS>;
template auto tpp::when_all(itcv::SUS::iterator, itcv::SUS::iterator) -> tpp::future<itcv::SUS>;
template auto tpp::when_all(itcv::FU&&, itcv::SU&, itcv::FV&&) -> tpp::future<itcv::MIX>;
template auto tpp::when_all(itcv::FU&&) -> tpp::future<std::tuple<itcv::FU>>;
template auto tpp::when_all(itcv::FV&, itcv::SV&&, itcv::SU&&, itcv::FU&) -> tpp::future<itcv::MIX4>;
template auto tpp::when_any(itcv::FUS::iterator, itcv::FUS::iterator) -> tpp::future<tpp::when_any_result<itcv::FUS>>;
template auto tpp::when_any(itcv::SUS::iterator, itcv::SUS::iterator) -> tpp::future<tpp::when_any_result<itcv::SUS>>;
template auto tpp::when_any(itcv::FU&&, itcv::SU&, itcv::FV&&) -> tpp::future<tpp::when_any_result<itcv::MIX>>;
template auto tpp::when_any(itcv::FU&&) -> tpp::future<tpp::when_any_result<std::tuple<itcv::FU>>>;
template auto tpp::when_any(itcv::FV&, itcv::SV&&, itcv::SU&&, itcv::FU&) -> tpp::future<tpp::when_any_result<itcv::MIX4>>;
namespace itcv
{
// the life of a combined future: the call, then the continuations that were not run at once, in any order
void returned(const void*);
bool step();
template<typename It>
void all_life(It first, It last)
{
    auto r = tpp::when_all(first, last);
    returned(&r);
    while(step())
    {
    }
}
template<typename It>
void any_life(It first, It last)
{
    auto r = tpp::when_any(first, last);
    returned(&r);
    while(step())
    {
    }
}
template void all_life(FUS::iterator, FUS::iterator);
template void all_life(SUS::iterator, SUS::iterator);
template void any_life(FUS::iterator, FUS::iterator);
template void any_life(SUS::iterator, SUS::iterator);
struct V
{
    long v;
    void operator()(FU&);
    void operator()(SU&);
    void operator()(FV&);
};
void visit(MIX& m, size_t i, V& v)
{
    tpp::visit_at(m, i, v);
}
void nothing()
{
    tpp::when_all();
    tpp::when_any();
}
}
