#include "common.hpp"

static void ping_pong()
{
    // the worker only ever sleeps without a time limit: a missed wake-up is a hang
    std::atomic<tpp::thread::id> id{0};
    std::atomic<int> n{0};
    std::atomic<bool> stop{false};
    std::thread w = registered(
        [&]
        {
            id = tpp::this_thread::get_id();
            while(!stop)
                tpp::this_thread::wait();
        });
    while(id == 0)
        std::this_thread::yield();
    for(int i = 0; i < 4000; ++i)
    {
        EXPECT(tpp::invoke(id, [&] { ++n; }));
        if(rnd(3) == 0)
            jitter();
        if(i % 2)
            EXPECT(eventually([&] { return n == i + 1; }));
    }
    EXPECT(eventually([&] { return n == 4000; }));
    stop = true;
    tpp::notify(id);
    w.join();
}

static void exit_ends_wait()
{
    for(int i = 0; i < 200; ++i)
    {
        std::atomic<tpp::thread::id> id{0};
        std::thread w = registered(
            [&]
            {
                id = tpp::this_thread::get_id();
                jitter();
                while(!tpp::this_thread::notified_for_exit())
                {
                    if(i % 2)
                        tpp::this_thread::wait();
                    else
                        EXPECT(tpp::this_thread::wait_for(30s) == std::cv_status::no_timeout);
                }
            });
        while(id == 0)
            std::this_thread::yield();
        jitter();
        auto t0 = std::chrono::steady_clock::now();
        tpp::notify_for_exit(id);
        w.join();
        EXPECT(std::chrono::steady_clock::now() - t0 < 10s);
    }
}

static void timed()
{
    registered(
        []
        {
            auto id = tpp::this_thread::get_id();
            // nothing arrives
            auto t0 = std::chrono::steady_clock::now();
            EXPECT(tpp::this_thread::wait_for(20ms) == std::cv_status::timeout);
            EXPECT(std::chrono::steady_clock::now() - t0 >= 20ms);
            // something is there: no sleep, one task run
            int n = 0;
            for(int i = 0; i < 3; ++i)
                EXPECT(tpp::invoke(id, [&] { ++n; }));
            for(int i = 1; i <= 3; ++i)
            {
                EXPECT(tpp::this_thread::wait_for(30s) == std::cv_status::no_timeout);
                EXPECT(n == i);
            }
            EXPECT(tpp::this_thread::wait_for(5ms) == std::cv_status::timeout);
        })
        .join();
}

static void arrival_during_sleep()
{
    for(int i = 0; i < 60; ++i)
    {
        std::atomic<tpp::thread::id> id{0};
        std::atomic<int> ran{0};
        std::atomic<bool> go{false};
        std::thread w = registered(
            [&]
            {
                id = tpp::this_thread::get_id();
                while(!go)
                    ;
                if(i % 3 == 0)
                {
                    tpp::this_thread::wait();
                    EXPECT(ran >= 1);
                }
                else if(i % 3 == 1)
                {
                    EXPECT(tpp::this_thread::wait_for(30s) == std::cv_status::no_timeout);
                    EXPECT(ran >= 1);
                }
                else
                {
                    // a task that waits itself: the inner sleep is woken as well
                    tpp::invoke(tpp::this_thread::get_id(), [] { tpp::this_thread::wait(); });
                    tpp::this_thread::wait();
                }
                while(ran < 2)
                    tpp::this_thread::wait();
            });
        while(id == 0)
            std::this_thread::yield();
        go = true;
        jitter();
        if(i % 5 == 0)
            std::this_thread::sleep_for(2ms);
        EXPECT(tpp::invoke(id, [&] { ++ran; }));
        jitter();
        EXPECT(tpp::invoke(id, [&] { ++ran; }));
        w.join();
    }
}

static void notified_without_task()
{
    // the predicate of the sleep is the wake-up flag, set by notify as well
    for(int i = 0; i < 100; ++i)
    {
        std::atomic<tpp::thread::id> id{0};
        std::atomic<bool> out{false};
        std::thread w = registered(
            [&]
            {
                id = tpp::this_thread::get_id();
                tpp::this_thread::wait();
                out = true;
            });
        while(id == 0)
            std::this_thread::yield();
        jitter();
        tpp::notify(id);
        EXPECT(eventually([&] { return out.load(); }));
        w.join();
    }
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init();
    SCENARIO(timed);
    SCENARIO(ping_pong);
    SCENARIO(exit_ends_wait);
    SCENARIO(arrival_during_sleep);
    SCENARIO(notified_without_task);
    EXPECT(tpp::shutdown() == 0);
    return done();
}
