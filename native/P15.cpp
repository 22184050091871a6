#include "common.hpp"

#include <map>
#include <mutex>

using cat = tpp::priority::category;
using tpp::priority::group;

// keeps every worker of a pool busy until it is let go
struct gate
{
    std::atomic<bool> go{false};
    std::atomic<int> busy{0};

    void close(tpp::thread_pool& pool, int workers)
    {
        for(int i = 0; i < workers; ++i)
            pool.schedule(tpp::priority::critical(100),
                          [this]
                          {
                              ++busy;
                              while(!go)
                                  std::this_thread::yield();
                          });
        EXPECT(eventually([&] { return busy == workers; }));
    }
};

static void best_first()
{
    for(int round = 0; round < 30; ++round)
    {
        tpp::thread_pool pool({{cat::normal, 1}});
        gate g;
        g.close(pool, 1);
        std::mutex m;
        std::vector<group> order;
        const size_t n = 12;
        for(size_t i = 0; i < n; ++i)
        {
            group p{static_cast<cat>(rnd(3)), size_t(rnd(5))};
            pool.schedule(p,
                          [&, p]
                          {
                              std::lock_guard<std::mutex> lock(m);
                              order.push_back(p);
                          });
        }
        g.go = true;
        pool.wait_all();
        EXPECT(eventually([&] { return pool.get_jobs_count() == 0; }));
        std::lock_guard<std::mutex> lock(m);
        EXPECT(order.size() == n);
        for(size_t i = 1; i < n; ++i)
        {
            EXPECT(order[i - 1].level >= order[i].level);
            if(order[i - 1].level == order[i].level)
                EXPECT(order[i - 1].priority >= order[i].priority);
        }
    }
}

static void raised_first()
{
    for(int round = 0; round < 30; ++round)
    {
        tpp::thread_pool pool({{cat::normal, 1}});
        gate g;
        g.close(pool, 1);
        std::mutex m;
        std::vector<size_t> order;
        std::vector<tpp::job_future<void>> fs;
        for(size_t i = 0; i < 6; ++i)
            fs.push_back(pool.schedule(tpp::priority::normal(i),
                                       [&, i]
                                       {
                                           std::lock_guard<std::mutex> lock(m);
                                           order.push_back(i);
                                       }));
        // within the level, to another level, and back and forth
        fs[1].change_priority(tpp::priority::normal(50));
        pool.change_priority(fs[0].id, tpp::priority::high(0));
        fs[2].change_priority(tpp::priority::high(7));
        fs[2].change_priority(tpp::priority::high(8));
        pool.change_priority(fs[3].id, tpp::priority::critical(0));
        pool.change_priority(1000000, tpp::priority::critical(9));
        g.go = true;
        EXPECT(eventually([&] { return pool.get_jobs_count() == 0; }));
        std::lock_guard<std::mutex> lock(m);
        const std::vector<size_t> want{3, 2, 0, 1, 5, 4};
        EXPECT(order == want);
    }
}

static void levels()
{
    // a worker of a level leaves lower jobs alone, also when they were lowered after being queued
    for(int round = 0; round < 10; ++round)
    {
        tpp::thread_pool pool({{cat::high, 1}});
        gate g;
        g.close(pool, 1);
        std::atomic<int> low{0}, high{0};
        pool.schedule(tpp::priority::normal(9), [&] { ++low; });
        auto a = pool.schedule(tpp::priority::high(1), [&] { ++low; });
        auto b = pool.schedule(tpp::priority::critical(1), [&] { ++low; });
        pool.schedule(tpp::priority::high(0), [&] { ++high; });
        pool.schedule(tpp::priority::critical(0), [&] { ++high; });
        a.change_priority(tpp::priority::normal(3));
        b.change_priority(tpp::priority::normal(3));
        g.go = true;
        EXPECT(eventually([&] { return high == 2; }));
        EXPECT(eventually([&] { return pool.get_jobs_count() == 3; }));
        std::this_thread::sleep_for(3ms);
        EXPECT(low == 0);
        // and it runs them once they are raised
        a.change_priority(tpp::priority::high(3));
        EXPECT(eventually([&] { return low == 1; }));
    }
}

static void high_worker_is_kept_free()
{
    for(int round = 0; round < 10; ++round)
    {
        tpp::thread_pool pool({{cat::normal, 2}, {cat::critical, 1}});
        std::atomic<bool> go{false};
        std::atomic<int> busy{0};
        for(int i = 0; i < 6; ++i)
            pool.schedule(tpp::priority::high(5),
                          [&]
                          {
                              ++busy;
                              while(!go)
                                  std::this_thread::yield();
                          });
        EXPECT(eventually([&] { return busy == 2; }));
        std::atomic<bool> ran{false};
        pool.schedule(tpp::priority::critical(0), [&] { ran = true; });
        EXPECT(eventually([&] { return bool(ran); }));
        EXPECT(busy == 2);
        go = true;
        EXPECT(eventually([&] { return pool.get_jobs_count() == 0; }));
    }
}

static void no_effect_on_running()
{
    tpp::thread_pool pool({{cat::normal, 2}});
    std::atomic<int> runs{0};
    std::atomic<bool> go{false};
    auto f = pool.schedule(
        [&]
        {
            ++runs;
            while(!go)
                std::this_thread::yield();
        });
    EXPECT(eventually([&] { return runs == 1; }));
    f.change_priority(tpp::priority::critical(4));
    pool.change_priority(f.id, tpp::priority::high(4));
    std::this_thread::sleep_for(3ms);
    EXPECT(runs == 1);
    EXPECT(pool.get_jobs_count() == 1);
    go = true;
    EXPECT(eventually([&] { return pool.get_jobs_count() == 0; }));
    f.change_priority(tpp::priority::critical(4));
    std::this_thread::sleep_for(3ms);
    EXPECT(runs == 1);
    EXPECT(pool.get_jobs_count() == 0);
}

static void names_of_levels()
{
    using namespace tpp::priority;
    for(size_t p : {size_t(0), size_t(7), size_t(-1)})
    {
        EXPECT(normal(p).level == category::normal && normal(p).priority == p);
        EXPECT(high(p).level == category::high && high(p).priority == p);
        EXPECT(critical(p).level == category::critical && critical(p).priority == p);
    }
    EXPECT(category::normal < category::high && category::high < category::critical);
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init();
    SCENARIO(names_of_levels);
    SCENARIO(best_first);
    SCENARIO(raised_first);
    SCENARIO(levels);
    SCENARIO(high_worker_is_kept_free);
    SCENARIO(no_effect_on_running);
    EXPECT(tpp::shutdown() == 0);
    return done();
}
