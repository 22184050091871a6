#include "common.hpp"

#include <future>
#include <map>
#include <mutex>

using cat = tpp::priority::category;

struct gate
{
    std::atomic<bool> go{false};
    std::atomic<int> busy{0};

    auto close(tpp::thread_pool& pool) -> tpp::job_future<void>
    {
        auto f = pool.schedule(tpp::priority::critical(100),
                               [this]
                               {
                                   ++busy;
                                   while(!go)
                                       std::this_thread::yield();
                               });
        EXPECT(eventually([&] { return busy == 1; }));
        return f;
    }
};

template<typename F>
static bool broken(F& f)
{
    try
    {
        f.get();
    }
    catch(const std::future_error& e)
    {
        return e.code() == std::future_errc::broken_promise;
    }
    return false;
}

static void stop_one()
{
    for(int round = 0; round < 20; ++round)
    {
        tpp::thread_pool pool({{cat::normal, 1}});
        gate g;
        auto running = g.close(pool);
        std::atomic<int> ran{0};
        auto a = pool.schedule([&] { ran += 1; });
        auto b = pool.schedule([&] { ran += 10; });
        auto c = pool.schedule([&] { ran += 100; });
        EXPECT(pool.get_jobs_count() == 4);
        pool.stop(b.id);
        EXPECT(pool.get_jobs_count() == 3);
        EXPECT(b.is_ready());
        EXPECT(broken(b));
        c.stop();
        EXPECT(pool.get_jobs_count() == 2);
        EXPECT(broken(c));
        // running, unknown and stopped ones
        pool.stop(running.id);
        running.stop();
        pool.stop(1000000);
        pool.stop(b.id);
        EXPECT(pool.get_jobs_count() == 2);
        EXPECT(!running.is_ready());
        g.go = true;
        pool.wait_all();
        EXPECT(eventually([&] { return pool.get_jobs_count() == 0; }));
        EXPECT(ran == 1);
        running.get();
        a.get();
    }
}

static void stop_everything()
{
    for(int round = 0; round < 20; ++round)
    {
        tpp::thread_pool pool({{cat::normal, 1}, {cat::high, 1}});
        gate g, h;
        auto r = g.close(pool);
        auto r2 = h.close(pool);
        std::atomic<int> ran{0};
        std::vector<tpp::job_future<void>> fs;
        for(int i = 0; i < 10; ++i)
            fs.push_back(pool.schedule(tpp::priority::group(static_cast<cat>(rnd(3)), size_t(rnd(3))), [&] { ++ran; }));
        pool.stop_all();
        EXPECT(pool.get_jobs_count() == 2);
        for(auto& f : fs)
            EXPECT(broken(f));
        EXPECT(!r.is_ready());
        // the running ones are still waited for
        std::atomic<bool> waited{false}, waited_one{false};
        auto w = registered(
            [&]
            {
                pool.wait_all();
                waited = true;
            });
        auto w1 = registered(
            [&]
            {
                pool.wait(r.id);
                waited_one = true;
            });
        std::this_thread::sleep_for(2ms);
        EXPECT(!waited);
        EXPECT(!waited_one);
        g.go = true;
        w1.join();
        std::this_thread::sleep_for(1ms);
        EXPECT(!waited);
        h.go = true;
        w.join();
        EXPECT(eventually([&] { return pool.get_jobs_count() == 0; }));
        EXPECT(ran == 0);
        pool.schedule([&] { ++ran; }).get();
        EXPECT(ran == 1);
    }
}

struct tells
{
    tpp::thread_pool* pool;
    std::atomic<size_t>* count;
    tells(tpp::thread_pool* p, std::atomic<size_t>* c) : pool(p), count(c)
    {
    }
    tells(tells&& o) noexcept : pool(o.pool), count(o.count)
    {
        o.pool = nullptr;
    }
    tells(const tells& o) = default;
    ~tells()
    {
        if(pool)
            *count = pool->get_jobs_count();
    }
    void operator()() const
    {
    }
};

static void stopped_jobs_may_use_the_pool()
{
    tpp::thread_pool pool({{cat::normal, 1}});
    gate g;
    auto r = g.close(pool);
    std::atomic<size_t> count{100};
    auto t = std::make_shared<tells>(&pool, &count);
    auto f = pool.schedule([t] {});
    t.reset();
    f.stop();
    EXPECT(count == 1);
    count = 100;
    t = std::make_shared<tells>(&pool, &count);
    auto f2 = pool.schedule([t] {});
    t.reset();
    pool.stop_all();
    EXPECT(count == 1);
    g.go = true;
    pool.wait_all();
}

static void wait_for_jobs()
{
    for(int round = 0; round < 20; ++round)
    {
        tpp::thread_pool pool({{cat::normal, 2}});
        const int n = 30;
        std::vector<std::atomic<bool>> done(n);
        std::vector<tpp::job_future<void>> fs;
        for(int i = 0; i < n; ++i)
            fs.push_back(pool.schedule(
                [&, i]
                {
                    jitter();
                    done[size_t(i)] = true;
                }));
        for(int i = 0; i < 5; ++i)
        {
            auto k = size_t(rnd(n));
            pool.wait(fs[k].id);
            EXPECT(done[k]);
        }
        pool.wait_all();
        for(auto& d : done)
            EXPECT(d);
        pool.wait(fs[0].id);
        pool.wait(1000000);
        EXPECT(eventually([&] { return pool.get_jobs_count() == 0; }));
    }
}

static void waiter_of_stopped_job()
{
    for(int round = 0; round < 20; ++round)
    {
        tpp::thread_pool pool({{cat::normal, 1}});
        gate g;
        auto r = g.close(pool);
        auto f = pool.schedule([] {});
        std::atomic<bool> began{false};
        auto w = registered(
            [&]
            {
                began = true;
                pool.wait(f.id);
            });
        EXPECT(eventually([&] { return bool(began); }));
        jitter();
        f.stop();
        w.join();
        EXPECT(!r.is_ready());
        g.go = true;
        pool.wait_all();
    }
}

static void exit_ends_wait()
{
    tpp::thread_pool pool({{cat::normal, 1}});
    gate g;
    auto r = g.close(pool);
    std::atomic<tpp::thread::id> id{0};
    auto w = registered(
        [&]
        {
            id = tpp::this_thread::get_id();
            pool.wait(r.id);
            pool.wait_all();
        });
    EXPECT(eventually([&] { return id != 0; }));
    std::this_thread::sleep_for(2ms);
    tpp::notify_for_exit(id);
    w.join();
    EXPECT(!r.is_ready());
    g.go = true;
    pool.wait_all();
}

static void moved_pool()
{
    for(int round = 0; round < 10; ++round)
    {
        gate g;
        std::atomic<int> ran{0};
        tpp::job_future<void> f, k, s;
        tpp::job_shared_future<void> sh;
        {
            tpp::thread_pool first({{cat::normal, 1}});
            g.close(first);
            f = first.schedule([&] { ran += 1; });
            k = first.schedule([&] { ran += 10; });
            sh = first.schedule([&] { ran += 100; }).share();
            tpp::thread_pool second(std::move(first));
            EXPECT(second.get_jobs_count() == 4);
            f.stop();
            EXPECT(second.get_jobs_count() == 3);
            EXPECT(broken(f));
            tpp::thread_pool third({{cat::normal, 1}});
            gate o;
            o.close(third);
            auto lost = third.schedule([&] { ran += 1000; });
            o.go = true;
            third.stop_all();
            third = std::move(second);
            // handles of the pool that was replaced do nothing
            lost.stop();
            lost.change_priority(tpp::priority::high(3));
            EXPECT(third.get_jobs_count() == 3);
            sh.change_priority(tpp::priority::high(3));
            sh.stop();
            EXPECT(third.get_jobs_count() == 2);
            auto copy = sh;
            copy.stop();
            g.go = true;
            third.wait_all();
            EXPECT(ran == 10);
            s = third.schedule([] {});
        }
        s.stop();
        s.change_priority(tpp::priority::critical(1));
        k.stop();
        sh.stop();
        sh.change_priority(tpp::priority::critical(1));
        EXPECT(ran == 10);
    }
}

static void destroyed_pool_breaks_pending()
{
    for(int round = 0; round < 20; ++round)
    {
        std::vector<tpp::job_future<int>> fs;
        {
            tpp::thread_pool pool({{cat::normal, 1}});
            for(int i = 0; i < 10; ++i)
                fs.push_back(pool.schedule(
                    []
                    {
                        jitter();
                        return 7;
                    }));
            jitter();
        }
        for(auto& f : fs)
        {
            EXPECT(f.is_ready());
            try
            {
                EXPECT(f.get() == 7);
            }
            catch(const std::future_error& e)
            {
                EXPECT(e.code() == std::future_errc::broken_promise);
            }
        }
    }
}

static void stop_races()
{
    // a job that is stopped while a worker may be taking it either runs or breaks, never both
    for(int round = 0; round < 60; ++round)
    {
        tpp::thread_pool pool({{cat::normal, 2}});
        const int n = 20;
        std::vector<std::atomic<int>> runs(n);
        std::vector<tpp::job_future<void>> fs;
        for(int i = 0; i < n; ++i)
            fs.push_back(pool.schedule([&, i] { ++runs[size_t(i)]; }));
        for(auto& f : fs)
            f.stop();
        for(int i = 0; i < n; ++i)
        {
            bool b = broken(fs[size_t(i)]);
            EXPECT(b != (runs[size_t(i)] == 1));
        }
        EXPECT(eventually([&] { return pool.get_jobs_count() == 0; }));
    }
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init();
    SCENARIO(stop_one);
    SCENARIO(stop_everything);
    SCENARIO(stopped_jobs_may_use_the_pool);
    SCENARIO(wait_for_jobs);
    SCENARIO(waiter_of_stopped_job);
    SCENARIO(exit_ends_wait);
    SCENARIO(moved_pool);
    SCENARIO(destroyed_pool_breaks_pending);
    SCENARIO(stop_races);
    EXPECT(tpp::shutdown() == 0);
    return done();
}
