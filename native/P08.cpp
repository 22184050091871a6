#include "common.hpp"

template<typename F>
static bool broken(F& f)
{
    if(!f.is_ready() || !f.has_error())
        return false;
    try
    {
        f.get();
    }
    catch(const std::future_error& e)
    {
        return e.code() == std::make_error_code(std::future_errc::broken_promise);
    }
    catch(...)
    {
    }
    return false;
}

template<typename T>
static void put(tpp::promise<T>& p, int i)
{
    p.set_value(T(i));
}
static void put(tpp::promise<void>& p, int)
{
    p.set_value();
}

template<typename T>
static void promises()
{
    {
        tpp::future<T> f;
        {
            tpp::promise<T> p;
            f = p.get_future();
        }
        EXPECT(broken(f));
    }
    {
        tpp::promise<T> p, q;
        auto f = p.get_future();
        auto g = q.get_future();
        p = std::move(q);
        EXPECT(broken(f));
        EXPECT(!g.is_ready());
        put(p, 3);
        EXPECT(g.is_ready() && !g.has_error());
        g.get();
    }
    {
        tpp::promise<T> p, q;
        auto f = p.get_future();
        put(p, 3);
        p = std::move(q);
        EXPECT(f.is_ready() && !f.has_error());
        f.get();
    }
    {
        tpp::promise<T> p;
        auto f = p.get_future();
        {
            tpp::promise<T> q(std::move(p));
            EXPECT(!f.is_ready());
            tpp::promise<T> r(std::move(q));
            EXPECT(!f.is_ready());
            p = std::move(r);
        }
        EXPECT(!f.is_ready());
        p.abandon();
        EXPECT(broken(f));
    }
    {
        tpp::promise<T> p;
        auto f = p.get_future();
        {
            tpp::promise<T> q(std::move(p));
            put(q, 1);
        }
        EXPECT(f.is_ready() && !f.has_error());
    }
    {
        auto p = std::make_unique<tpp::promise<T>>();
        auto f = p->get_future().share();
        int runs = 0;
        auto g = f.then(tpp::caller_id(), [&](tpp::shared_future<T> s) {
            EXPECT(s.has_error());
            runs++;
        });
        p.reset();
        EXPECT(broken(f) && runs == 1 && g.is_ready());
    }
}

static void all_promises()
{
    registered([] { promises<int>(); promises<void>(); }).join();
    // giving up wakes a waiting thread
    for(int round = 0; round < 100; ++round)
    {
        auto p = std::make_unique<tpp::promise<int>>();
        auto f = p->get_future();
        auto t = registered(
            [&]
            {
                bool b = false;
                try
                {
                    f.get();
                }
                catch(const std::future_error&)
                {
                    b = true;
                }
                EXPECT(b);
            });
        jitter();
        p.reset();
        t.join();
    }
}

static void dropped_tasks()
{
    registered(
        []
        {
            // unknown target
            auto f = tpp::async(tpp::thread::id(987654321), [](int x) { return x; }, 1);
            EXPECT(broken(f));
            auto g = tpp::make_ready_future(1).then(tpp::thread::id(987654321), [](tpp::future<int> s) { return s.get(); });
            EXPECT(broken(g));
            tpp::promise<void> p;
            auto h = p.get_future().then(tpp::thread::id(987654321), [](tpp::future<void>) {});
            EXPECT(!h.is_ready());
            p.set_value();
            EXPECT(broken(h));
            tpp::promise<int> ps;
            auto fs = ps.get_future().share();
            auto hs = fs.then(tpp::thread::id(987654321), std::launch::async, [](tpp::shared_future<int> s) { return s.get(); });
            ps.set_value(1);
            EXPECT(broken(hs));
        })
        .join();
    // the target ends with tasks in its queue
    for(int round = 0; round < 30; ++round)
    {
        std::atomic<tpp::thread::id> id{0};
        std::atomic<bool> go{false};
        auto t = registered(
            [&]
            {
                id = tpp::this_thread::get_id();
                while(!go)
                    std::this_thread::yield();
            });
        EXPECT(eventually([&] { return id != 0; }));
        std::vector<tpp::future<int>> fs;
        for(int i = 0; i < 5; ++i)
            fs.push_back(tpp::async(id.load(), [i] { return i; }));
        auto last = tpp::async(id.load(), std::launch::deferred, [] {});
        go = true;
        t.join();
        for(auto& f : fs)
            EXPECT(eventually([&] { return f.is_ready(); }) && broken(f));
        EXPECT(broken(last));
    }
}

static void dropped_jobs()
{
    tpp::thread_pool pool({{tpp::priority::category::normal, 1}});
    std::atomic<bool> started{false}, go{false};
    auto running = pool.schedule([&] { started = true; while(!go) std::this_thread::sleep_for(100us); });
    EXPECT(eventually([&] { return started.load(); }));
    auto j1 = pool.schedule([] { return 1; });
    auto j2 = pool.schedule([] { return 2; });
    pool.stop(j1.id);
    EXPECT(eventually([&] { return j1.is_ready(); }) && broken(j1));
    pool.stop_all();
    EXPECT(eventually([&] { return j2.is_ready(); }) && broken(j2));
    go = true;
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init_data d;
    tpp::init(d);
    SCENARIO(all_promises);
    SCENARIO(dropped_tasks);
    SCENARIO(dropped_jobs);
    return done();
}
