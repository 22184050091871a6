#include "common.hpp"

using lock_t = std::unique_lock<std::mutex>;
using clk = std::chrono::steady_clock;

static void sleeps()
{
    registered(
        []
        {
            auto id = tpp::this_thread::get_id();
            for(auto d : {0us, 1us, 250us, 999us, 1000us, 7001us})
            {
                auto t0 = clk::now();
                tpp::this_thread::sleep_for(d);
                EXPECT(clk::now() - t0 >= d);
            }
            for(auto d : {1ns, 1500ns, 999999ns, 2000001ns})
            {
                auto t0 = clk::now();
                tpp::this_thread::sleep_for(d);
                EXPECT(clk::now() - t0 >= d);
                t0 = clk::now();
                tpp::this_thread::sleep_until(t0 + d);
                EXPECT(clk::now() - t0 >= d);
            }
            // tasks and notifications do not shorten a sleep
            std::atomic<bool> stop{false};
            std::thread pest(
                [&]
                {
                    while(!stop)
                    {
                        tpp::invoke(id, [] {});
                        tpp::notify(id);
                        std::this_thread::sleep_for(200us);
                    }
                });
            auto t0 = clk::now();
            tpp::this_thread::sleep_for(15ms);
            EXPECT(clk::now() - t0 >= 15ms);
            t0 = clk::now();
            tpp::this_thread::sleep_until(t0 + 15ms);
            EXPECT(clk::now() - t0 >= 15ms);
            stop = true;
            pest.join();
            tpp::this_thread::process();
        })
        .join();
}

static void zero_and_negative()
{
    registered(
        []
        {
            std::mutex m;
            tpp::condition_variable cv;
            auto id = tpp::this_thread::get_id();
            auto t0 = clk::now();
            for(auto d : {0ms, -1ms, -100000ms})
            {
                tpp::this_thread::sleep_for(d);
                tpp::this_thread::sleep_until(clk::now() + d);
                tpp::this_thread::wait_for(d);
                tpp::this_thread::wait_until(clk::now() + d);
                lock_t l(m);
                EXPECT(cv.wait_for(l, d) == std::cv_status::timeout);
                EXPECT(l.owns_lock());
                EXPECT(cv.wait_until(l, clk::now() + d) == std::cv_status::timeout);
                EXPECT(l.owns_lock());
            }
            int n = 0;
            EXPECT(tpp::invoke(id, [&] { ++n; }));
            tpp::this_thread::process_for(0ms);
            tpp::this_thread::process_for(-5ms);
            EXPECT(n == 0);
            tpp::this_thread::process_for(1000ms);
            EXPECT(n == 1);
            EXPECT(clk::now() - t0 < 5s);
        })
        .join();
}

static void process_for_stops()
{
    registered(
        []
        {
            auto id = tpp::this_thread::get_id();
            int n = 0;
            for(int i = 0; i < 20; ++i)
                EXPECT(tpp::invoke(id,
                                   [&]
                                   {
                                       ++n;
                                       std::this_thread::sleep_for(4ms);
                                   }));
            tpp::this_thread::process_for(10ms);
            EXPECT(n <= 3);
            tpp::this_thread::process();
            EXPECT(n == 20);
        })
        .join();
}

static void honest_answers()
{
    registered(
        []
        {
            std::mutex m;
            tpp::condition_variable cv;
            lock_t l(m);
            for(auto d : {300us, 2000us, 9000us})
            {
                auto t0 = clk::now();
                EXPECT(cv.wait_for(l, d) == std::cv_status::timeout);
                EXPECT(clk::now() - t0 >= d);
                EXPECT(l.owns_lock());
                t0 = clk::now();
                EXPECT(cv.wait_until(l, t0 + d) == std::cv_status::timeout);
                EXPECT(clk::now() - t0 >= d);
            }
            // tasks in between: still a timeout, and not earlier
            auto id = tpp::this_thread::get_id();
            std::atomic<bool> stop{false};
            std::thread pest(
                [&]
                {
                    while(!stop)
                    {
                        tpp::invoke(id, [] {});
                        std::this_thread::sleep_for(300us);
                    }
                });
            auto t0 = clk::now();
            EXPECT(cv.wait_for(l, 15ms) == std::cv_status::timeout);
            EXPECT(clk::now() - t0 >= 15ms);
            EXPECT(clk::now() - t0 < 10s);
            stop = true;
            pest.join();
            tpp::this_thread::process();
        })
        .join();
}

static void notified_in_time()
{
    for(int i = 0; i < 40; ++i)
    {
        std::mutex m;
        tpp::condition_variable cv;
        bool in = false;
        std::thread w = registered(
            [&]
            {
                lock_t l(m);
                in = true;
                EXPECT(cv.wait_for(l, 30s) == std::cv_status::no_timeout);
            });
        EXPECT(eventually(
            [&]
            {
                lock_t l(m);
                return in;
            }));
        i % 2 ? cv.notify_one() : cv.notify_all();
        w.join();
    }
}

static void notification_meets_deadline()
{
    // a timed waiter A and an untimed waiter B behind it: one notify_one ends the wait of exactly one of them, and A's
    // answer says which
    for(int i = 0; i < 150; ++i)
    {
        std::mutex m;
        tpp::condition_variable cv;
        int waiting = 0;
        std::atomic<int> a{-1};
        std::atomic<bool> b{false};
        auto d = std::chrono::microseconds(300 + rnd(300));
        clk::time_point start;
        std::thread ta = registered(
            [&]
            {
                lock_t l(m);
                start = clk::now();
                ++waiting;
                a = cv.wait_for(l, d) == std::cv_status::timeout ? 1 : 0;
            });
        EXPECT(eventually(
            [&]
            {
                lock_t l(m);
                return waiting == 1;
            }));
        std::thread tb = registered(
            [&]
            {
                lock_t l(m);
                ++waiting;
                cv.wait(l);
                b = true;
            });
        EXPECT(eventually(
            [&]
            {
                lock_t l(m);
                return waiting == 2;
            }));
        while(clk::now() < start + d + std::chrono::microseconds(rnd(120)))
            ;
        cv.notify_one();
        EXPECT(eventually([&] { return a >= 0; }));
        if(a == 1)
            EXPECT(eventually([&] { return b.load(); }));
        else
            EXPECT(!b);
        cv.notify_all();
        ta.join();
        tb.join();
    }
}

static void notified_but_late()
{
    // the notification is there before the wait looks at the clock again
    for(int i = 0; i < 20; ++i)
    {
        std::mutex m;
        tpp::condition_variable cv;
        bool in = false;
        std::atomic<tpp::thread::id> id{0};
        std::atomic<int> r{-1};
        std::thread w = registered(
            [&]
            {
                lock_t l(m);
                id = tpp::this_thread::get_id();
                in = true;
                r = int(cv.wait_for(l, 2ms));
            });
        EXPECT(eventually(
            [&]
            {
                lock_t l(m);
                return in;
            }));
        // keeps the waiter busy beyond its deadline
        std::atomic<bool> busy{false}, told{false};
        tpp::invoke(id,
                    [&]
                    {
                        busy = true;
                        while(!told)
                            std::this_thread::yield();
                        std::this_thread::sleep_for(3ms);
                    });
        EXPECT(eventually([&] { return busy || r >= 0; }));
        bool before = busy;
        cv.notify_one();
        told = true;
        w.join();
        if(before)
            EXPECT(std::cv_status(r.load()) == std::cv_status::no_timeout);
    }
}

static void does_not_start_over()
{
    // a task shortly before the deadline; only an overrun in every attempt counts (the machine may be busy)
    int late = 0;
    for(int i = 0; i < 5; ++i)
    {
        registered(
            [&]
            {
                std::mutex m;
                tpp::condition_variable cv;
                auto id = tpp::this_thread::get_id();
                auto t0 = clk::now();
                std::thread t(
                    [&]
                    {
                        std::this_thread::sleep_until(t0 + 130ms);
                        tpp::invoke(id, [] {});
                    });
                lock_t l(m);
                EXPECT(cv.wait_for(l, 150ms) == std::cv_status::timeout);
                late += clk::now() - t0 > 260ms;
                t.join();
                tpp::this_thread::process();
            })
            .join();
        if(late <= i)
            return;
    }
    EXPECT(late < 5);
}

// a sleeping thread goes on starting the tasks sent to it
static void served_while_asleep()
{
    int missed = 0;
    for(int i = 0; i < 5; ++i)
    {
        std::atomic<bool> asleep{false}, ran{false};
        std::atomic<tpp::thread::id> id{0};
        auto t = registered(
            [&]
            {
                id = tpp::this_thread::get_id();
                asleep = true;
                tpp::this_thread::sleep_for(300ms);
                asleep = false;
                tpp::this_thread::process();
            });
        EXPECT(eventually([&] { return asleep.load(); }));
        tpp::invoke(id.load(), [&] { ran = asleep.load(); });
        t.join();
        missed += !ran;
        if(missed <= i)
            return;
    }
    EXPECT(missed < 5);
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init();
    SCENARIO(sleeps);
    SCENARIO(zero_and_negative);
    SCENARIO(process_for_stops);
    SCENARIO(honest_answers);
    SCENARIO(notified_in_time);
    SCENARIO(notification_meets_deadline);
    SCENARIO(notified_but_late);
    SCENARIO(does_not_start_over);
    SCENARIO(served_while_asleep);
    EXPECT(tpp::shutdown() == 0);
    return done();
}
