// helpers of the native scenarios: each program runs its scenarios against the real code, exits 0 when all of them
// behave and prints the first expectation that fails otherwise
#pragma once
#include <threadpp/condition_variable.hpp>
#include <threadpp/future.hpp>
#include <threadpp/mutex.hpp>
#include <threadpp/thread.h>
#include <threadpp/thread_pool.h>
#include <threadpp/when_all_any.hpp>

#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <iostream>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>

#define EXPECT(...)                                                                                                    \
    do                                                                                                                 \
    {                                                                                                                  \
        if(!(__VA_ARGS__))                                                                                             \
        {                                                                                                              \
            std::printf("FAILED %s:%d: %s\n", __FILE__, __LINE__, #__VA_ARGS__);                                       \
            std::fflush(stdout);                                                                                       \
            _exit(1);                                                                                                  \
        }                                                                                                              \
    } while(0)

using namespace std::chrono_literals;

inline std::mt19937& rng()
{
    static thread_local std::mt19937 r{std::random_device{}()};
    return r;
}

inline int rnd(int n)
{
    return int(rng()() % unsigned(n));
}

inline void jitter()
{
    int k = rnd(8);
    if(k == 0)
        std::this_thread::sleep_for(std::chrono::microseconds(rnd(100)));
    else if(k < 4)
        std::this_thread::yield();
    else
        for(volatile int i = 0; i < rnd(300); i = i + 1)
            ;
}

inline bool eventually(const std::function<bool()>& f, std::chrono::milliseconds limit = 10s)
{
    auto end = std::chrono::steady_clock::now() + limit;
    while(!f())
    {
        if(std::chrono::steady_clock::now() > end)
            return false;
        std::this_thread::sleep_for(50us);
    }
    return true;
}

// ends the process when the scenario named last does not end
struct watchdog
{
    static std::atomic<const char*>& name()
    {
        static std::atomic<const char*> n{"start"};
        return n;
    }
    explicit watchdog(int seconds)
    {
        std::thread(
            [seconds]
            {
                std::this_thread::sleep_for(std::chrono::seconds(seconds));
                std::printf("FAILED: scenario '%s' does not end\n", name().load());
                std::fflush(stdout);
                _exit(1);
            })
            .detach();
    }
};

#define SCENARIO(f)                                                                                                    \
    do                                                                                                                 \
    {                                                                                                                  \
        watchdog::name() = #f;                                                                                         \
        f();                                                                                                           \
    } while(0)

inline int done()
{
    std::printf("all scenarios behave\n");
    std::fflush(stdout);
    _exit(0);
}

inline int begin(int argc, char** argv, int seconds = 40)
{
    static watchdog w{seconds};
    int round = argc > 1 ? std::atoi(argv[1]) : 1;
    rng().seed(unsigned(round) * 7919u + unsigned(std::getenv("VERIF_SEED") ? std::atoi(std::getenv("VERIF_SEED")) : 1));
    return round;
}

// a plain std::thread that registers itself, runs f and unregisters
template<typename F>
std::thread registered(F f)
{
    return std::thread(
        [f]() mutable
        {
            tpp::this_thread::register_this_thread();
            f();
            tpp::this_thread::unregister_this_thread();
        });
}
