// options: -fsanitize=thread
#include "common.hpp"
#include <map>

extern "C" const char* __tsan_default_options()
{
    return "halt_on_error=1:exitcode=66:report_signal_unsafe=0";
}

static void queues_and_registry()
{
    std::atomic<bool> stop{false};
    std::atomic<int> ran{0};
    std::vector<std::thread> ts;
    for(int i = 0; i < 3; ++i)
        ts.push_back(registered([&] {
            while(!stop)
            {
                tpp::this_thread::process();
                tpp::this_thread::wait_for(std::chrono::microseconds(rnd(200)));
            }
        }));
    for(int i = 0; i < 2; ++i)
        ts.push_back(std::thread([&] {
            while(!stop)
            {
                auto ids = tpp::get_all_registered_threads();
                for(auto id : ids)
                {
                    if(id == tpp::main_thread::get_id())
                        continue;
                    tpp::invoke(id, [&] { ++ran; });
                    tpp::get_pending_task_count(id);
                    tpp::get_pending_task_count_detailed(id);
                    tpp::notify(id);
                    tpp::set_thread_config(id, tpp::tasks_capacity_config{});
                }
                jitter();
            }
        }));
    for(int i = 0; i < 15; ++i)
    {
        auto t = tpp::make_thread("t");
        auto id = t.get_id();
        tpp::invoke(id, [&] { ++ran; });
        if(rnd(2))
            tpp::notify_for_exit(id);
        tpp::thread u = std::move(t);
        u.join();
        registered([&] { tpp::invoke(tpp::this_thread::get_id(), [&] { ++ran; }); }).join();
    }
    stop = true;
    for(auto& t : ts)
        t.join();
    EXPECT(ran > 0);
}

static void states()
{
    auto w = tpp::make_thread("w");
    for(int round = 0; round < 40; ++round)
    {
        tpp::promise<std::vector<int>> p;
        auto s = p.get_future().share();
        std::atomic<int> seen{0};
        std::vector<std::thread> ts;
        for(int i = 0; i < 3; ++i)
            ts.push_back(registered([&, s] {
                jitter();
                if(rnd(2))
                    s.is_ready();
                auto f = s.then(w.get_id(), [&](tpp::shared_future<std::vector<int>> x) { seen += x.get()[0]; });
                s.wait_for(std::chrono::microseconds(rnd(50)));
                seen += s.get()[0];
                f.wait();
            }));
        ts.push_back(std::thread([&] {
            jitter();
            p.set_value(std::vector<int>(1, 1));
        }));
        for(auto& t : ts)
            t.join();
        EXPECT(seen == 6);
        auto f = tpp::async(w.get_id(), [](int x) { return x; }, round).then(w.get_id(), [](tpp::future<int> x) { return x.get(); });
        EXPECT(f.get() == round);
    }
}

static void waiting()
{
    std::mutex m;
    tpp::mutex own;
    tpp::condition_variable cv;
    int items = 0, taken = 0;
    std::vector<std::thread> ts;
    for(int i = 0; i < 3; ++i)
        ts.push_back(registered([&] {
            for(int k = 0; k < 30; ++k)
            {
                {
                    std::unique_lock<std::mutex> lock(m);
                    while(items == 0)
                        cv.wait_for(lock, std::chrono::milliseconds(1));
                    --items;
                }
                if(rnd(2))
                    own.lock();
                else
                    while(!own.try_lock())
                        std::this_thread::yield();
                ++taken;
                own.unlock();
            }
        }));
    ts.push_back(registered([&] {
        for(int k = 0; k < 90; ++k)
        {
            {
                std::lock_guard<std::mutex> lock(m);
                ++items;
            }
            rnd(2) ? cv.notify_one() : cv.notify_all();
            jitter();
        }
    }));
    for(auto& t : ts)
        t.join();
    EXPECT(taken == 90 && items == 0);
}

static void pools()
{
    using cat = tpp::priority::category;
    for(int round = 0; round < 4; ++round)
    {
        tpp::thread_pool pool({{cat::normal, 2}, {cat::high, 1}});
        std::atomic<int> ran{0};
        std::vector<std::thread> ts;
        for(int i = 0; i < 3; ++i)
            ts.push_back(registered([&] {
                for(int k = 0; k < 20; ++k)
                {
                    auto f = pool.schedule(tpp::priority::normal(size_t(rnd(3))), [&] { ++ran; });
                    if(rnd(3) == 0)
                        f.change_priority(tpp::priority::high());
                    if(rnd(4) == 0)
                        f.stop();
                    pool.get_jobs_count();
                    if(rnd(8) == 0)
                        pool.wait_all();
                    else if(rnd(8) == 0)
                        pool.wait(f.id);
                }
                if(rnd(2))
                    pool.stop_all();
            }));
        for(auto& t : ts)
            t.join();
        pool.wait_all();
    }
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init_data d;
    tpp::init(d);
    SCENARIO(queues_and_registry);
    SCENARIO(states);
    SCENARIO(waiting);
    SCENARIO(pools);
    return done();
}
