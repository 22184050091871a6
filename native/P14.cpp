#include "common.hpp"

#include <map>
#include <mutex>

using cat = tpp::priority::category;

static tpp::priority::group any_group(int levels)
{
    return {static_cast<cat>(rnd(levels)), size_t(rnd(4))};
}

static void every_job_once()
{
    for(int round = 0; round < 12; ++round)
    {
        std::map<cat, size_t> conf{{cat::normal, size_t(1 + rnd(3))}};
        if(rnd(2))
            conf[cat::high] = 1;
        if(rnd(2))
            conf[cat::critical] = size_t(rnd(2));
        tpp::thread_pool pool(conf);
        const int n = 4, k = 60;
        std::vector<std::atomic<int>> runs(n * k);
        std::atomic<int> total{0};
        std::mutex m;
        std::set<tpp::job_id> ids;
        std::vector<std::thread> ts;
        for(int i = 0; i < n; ++i)
            ts.push_back(registered(
                [&, i]
                {
                    for(int j = 0; j < k; ++j)
                    {
                        auto f = pool.schedule(any_group(3),
                                               [&, i, j]
                                               {
                                                   EXPECT(++runs[size_t(i * k + j)] == 1);
                                                   ++total;
                                               });
                        EXPECT(f.id != 0);
                        {
                            std::lock_guard<std::mutex> lock(m);
                            EXPECT(ids.insert(f.id).second);
                        }
                        if(rnd(3) == 0)
                            f.change_priority(any_group(3));
                        if(rnd(8) == 0)
                            jitter();
                    }
                }));
        for(auto& t : ts)
            t.join();
        EXPECT(eventually([&] { return total == n * k; }));
        EXPECT(eventually([&] { return pool.get_jobs_count() == 0; }));
        for(auto& r : runs)
            EXPECT(r == 1);
    }
}

static void only_workers_run_jobs()
{
    tpp::thread_pool pool({{cat::normal, 2}, {cat::high, 1}});
    std::mutex m;
    std::set<std::thread::id> seen;
    for(int i = 0; i < 200; ++i)
        pool.schedule(any_group(2),
                      [&]
                      {
                          std::lock_guard<std::mutex> lock(m);
                          seen.insert(std::this_thread::get_id());
                      });
    EXPECT(eventually([&] { return pool.get_jobs_count() == 0; }));
    std::lock_guard<std::mutex> lock(m);
    EXPECT(seen.count(std::this_thread::get_id()) == 0);
    EXPECT(seen.size() <= 3);
}

static void jobs_that_schedule()
{
    // a job given to the pool by one of its workers is not left behind either
    for(int round = 0; round < 20; ++round)
    {
        tpp::thread_pool pool({{cat::normal, size_t(1 + rnd(2))}});
        std::atomic<int> total{0};
        for(int i = 0; i < 5; ++i)
            pool.schedule(any_group(2),
                          [&]
                          {
                              pool.schedule(any_group(3),
                                            [&]
                                            {
                                                auto f = pool.schedule([&] { ++total; });
                                                f.change_priority(tpp::priority::critical(1));
                                                ++total;
                                            });
                              ++total;
                          });
        EXPECT(eventually([&] { return total == 15; }));
    }
}

static void lowered_priority()
{
    // a pending job that is moved to a level only some workers serve is still run
    for(int round = 0; round < 20; ++round)
    {
        tpp::thread_pool pool({{cat::normal, 1}, {cat::critical, 1}});
        std::atomic<bool> go{false};
        std::atomic<int> busy{0}, total{0};
        auto hold = [&]
        {
            ++busy;
            while(!go)
                std::this_thread::yield();
        };
        pool.schedule(tpp::priority::critical(9), hold);
        pool.schedule(tpp::priority::critical(9), hold);
        EXPECT(eventually([&] { return busy == 2; }));
        std::vector<tpp::job_future<void>> fs;
        for(int i = 0; i < 10; ++i)
            fs.push_back(pool.schedule(any_group(3), [&] { ++total; }));
        for(int i = 0; i < 30; ++i)
            fs[size_t(rnd(10))].change_priority(any_group(3));
        go = true;
        EXPECT(eventually([&] { return total == 10; }));
    }
}

static void stopped_neighbours()
{
    // stopping jobs does not strand the others
    for(int round = 0; round < 20; ++round)
    {
        tpp::thread_pool pool({{cat::normal, 1}});
        std::atomic<bool> go{false}, busy{false};
        std::atomic<int> kept{0}, dropped{0};
        pool.schedule(
            [&]
            {
                busy = true;
                while(!go)
                    std::this_thread::yield();
            });
        EXPECT(eventually([&] { return bool(busy); }));
        std::vector<tpp::job_future<void>> fs;
        std::vector<bool> stop;
        int keep = 0;
        for(int i = 0; i < 20; ++i)
        {
            bool s = rnd(2);
            stop.push_back(s);
            keep += !s;
            fs.push_back(pool.schedule(any_group(3), [&, s] { s ? ++dropped : ++kept; }));
        }
        for(size_t i = 0; i < 20; ++i)
            if(stop[i])
                rnd(2) ? fs[i].stop() : pool.stop(fs[i].id);
        go = true;
        EXPECT(eventually([&] { return kept == keep; }));
        EXPECT(eventually([&] { return pool.get_jobs_count() == 0; }));
        EXPECT(dropped == 0);
    }
}

static void idle_workers_help()
{
    // a job is not left to the worker that happens to be busy
    for(int round = 0; round < 10; ++round)
    {
        tpp::thread_pool pool({{cat::normal, 2}, {cat::high, 1}});
        std::atomic<int> busy{0};
        std::atomic<bool> go{false};
        for(int i = 0; i < 3; ++i)
        {
            pool.schedule(tpp::priority::critical(1),
                          [&]
                          {
                              ++busy;
                              while(!go)
                                  std::this_thread::yield();
                          });
            EXPECT(eventually([&] { return busy == i + 1; }));
        }
        go = true;
        EXPECT(eventually([&] { return pool.get_jobs_count() == 0; }));
    }
}

static void end_of_pool()
{
    // the workers are gone when the destructor returns, pending jobs never run
    for(int round = 0; round < 20; ++round)
    {
        auto alive = std::make_shared<std::atomic<bool>>(true);
        auto late = std::make_shared<std::atomic<int>>(0);
        {
            tpp::thread_pool pool({{cat::normal, 2}});
            for(int i = 0; i < 30; ++i)
                pool.schedule(
                    [alive, late]
                    {
                        jitter();
                        if(!*alive)
                            ++*late;
                    });
            if(rnd(2))
                std::this_thread::sleep_for(1ms);
        }
        *alive = false;
        std::this_thread::sleep_for(1ms);
        EXPECT(*late == 0);
    }
}

static void crews()
{
    // as many jobs at a time as there are workers that may run them, and no more
    using c = tpp::priority::category;
    const c level[] = {c::normal, c::high, c::critical};
    for(int shape = 0; shape < 8; ++shape)
    {
        std::map<c, size_t> crew;
        const size_t n[] = {size_t(shape & 1 ? 1 : 2), size_t(shape & 2 ? 3 : 1), size_t(shape & 4 ? 2 : 0)};
        for(int l = 0; l < 3; ++l)
            crew[level[l]] = n[l];
        tpp::thread_pool pool(crew);
        size_t able = 0;
        for(int l = 0; l < 3; ++l)
        {
            able += n[l];
            std::atomic<size_t> in{0};
            std::atomic<bool> go{false};
            std::vector<tpp::job_future<void>> fs;
            for(size_t i = 0; i < able + 2; ++i)
                fs.emplace_back(pool.schedule(tpp::priority::group{level[l], 0}, [&] {
                    ++in;
                    while(!go)
                        std::this_thread::yield();
                }));
            bool enough = eventually([&] { return in == able; });
            std::this_thread::sleep_for(2ms);
            bool more = in > able;
            go = true;
            pool.wait_all();
            EXPECT(enough && !more);
        }
    }
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init();
    SCENARIO(crews);
    SCENARIO(only_workers_run_jobs);
    SCENARIO(stopped_neighbours);
    SCENARIO(lowered_priority);
    SCENARIO(jobs_that_schedule);
    SCENARIO(every_job_once);
    SCENARIO(idle_workers_help);
    SCENARIO(end_of_pool);
    EXPECT(tpp::shutdown() == 0);
    return done();
}
