#include "common.hpp"

static void dispatching()
{
    auto w = tpp::make_thread("w");
    auto wid = w.get_id();
    registered(
        [&]
        {
            auto me = tpp::this_thread::get_id();
            bool ran = false;
            EXPECT(tpp::dispatch(me, [&](int x) { ran = x == 3; }, 3));
            EXPECT(ran);
            // also from a task that runs in this thread
            std::vector<int> order;
            EXPECT(tpp::invoke(me, [&] {
                order.push_back(1);
                EXPECT(tpp::dispatch(me, [&] { order.push_back(2); }));
                EXPECT(tpp::invoke(me, [&] { order.push_back(4); }));
                order.push_back(3);
            }));
            EXPECT(order.empty());
            tpp::this_thread::process();
            tpp::this_thread::process();
            EXPECT(order == std::vector<int>({1, 2, 3, 4}));
            std::atomic<tpp::thread::id> where{0};
            EXPECT(tpp::dispatch(wid, [&] { where = tpp::this_thread::get_id(); }));
            EXPECT(eventually([&] { return where == wid; }));
            where = 0;
            EXPECT(tpp::invoke(wid, [&] { where = tpp::this_thread::get_id(); }));
            EXPECT(eventually([&] { return where == wid; }));
            EXPECT(!tpp::invoke(tpp::thread::id(99999999), [&] { where = 1; }));
            EXPECT(!tpp::dispatch(tpp::thread::id(99999999), [&] { where = 1; }));
            EXPECT(!tpp::invoke(tpp::invalid_id(), [&] { where = 1; }));
            EXPECT(where == wid);
        })
        .join();
    // not registered: everything is queued
    std::thread(
        [&]
        {
            std::atomic<tpp::thread::id> where{0};
            EXPECT(tpp::dispatch(wid, [&] { where = tpp::this_thread::get_id(); }));
            EXPECT(eventually([&] { return where == wid; }));
        })
        .join();
}

static void policies()
{
    auto w = tpp::make_thread("w");
    auto wid = w.get_id();
    const auto both = std::launch::async | std::launch::deferred;
    registered(
        [&]
        {
            auto me = tpp::this_thread::get_id();
            for(auto id : {me, tpp::caller_id()})
                for(auto pol : {std::launch::deferred, both, std::launch::async})
                {
                    int runs = 0;
                    auto f = tpp::async(id, pol, [&] { runs++; });
                    EXPECT(runs == (pol == std::launch::async ? 0 : 1));
                    tpp::this_thread::process();
                    EXPECT(runs == 1 && f.is_ready());
                    auto g = tpp::make_ready_future(1).then(id, pol, [&](tpp::future<int>) { runs += 10; });
                    EXPECT(runs == (pol == std::launch::async ? 1 : 11));
                    tpp::this_thread::process();
                    EXPECT(runs == 11 && g.is_ready());
                    tpp::promise<void> p;
                    auto s = p.get_future().share();
                    auto h = s.then(id, pol, [&](tpp::shared_future<void>) { runs += 100; });
                    p.set_value();
                    EXPECT(runs == (pol == std::launch::async ? 11 : 111));
                    tpp::this_thread::process();
                    EXPECT(runs == 111 && h.is_ready());
                    tpp::promise<void> q;
                    auto k = q.get_future().then(id, pol, [&](tpp::future<void>) { runs += 1000; });
                    q.set_value();
                    EXPECT(runs == (pol == std::launch::async ? 111 : 1111));
                    tpp::this_thread::process();
                    EXPECT(runs == 1111 && k.is_ready());
                }
            int runs = 0;
            auto f = tpp::async(me, [&] { runs++; });
            EXPECT(runs == 1);
            auto g = tpp::make_ready_future(1).then(me, [&](tpp::future<int>) { runs++; });
            EXPECT(runs == 2);
            auto h = tpp::make_ready_future().then(me, [&](tpp::future<void>) { runs++; });
            EXPECT(runs == 3);
            auto k = tpp::make_ready_future(1).share().then(me, [&](tpp::shared_future<int>) { runs++; });
            EXPECT(runs == 4);
            auto l = tpp::make_ready_future().share().then(me, [&](tpp::shared_future<void>) { runs++; });
            EXPECT(runs == 5);
            for(auto pol : {std::launch::deferred, both, std::launch::async})
            {
                auto a = tpp::async(wid, pol, [] { return tpp::this_thread::get_id(); });
                EXPECT(a.get() == wid);
                auto b = tpp::make_ready_future(1).then(wid, pol, [](tpp::future<int>) { return tpp::this_thread::get_id(); });
                EXPECT(b.get() == wid);
                tpp::promise<int> p;
                auto c = p.get_future().share().then(wid, pol, [](tpp::shared_future<int>) { return tpp::this_thread::get_id(); });
                p.set_value(1);
                EXPECT(c.get() == wid);
            }
            // the caller id means the thread that starts the continuation
            tpp::promise<int> p;
            auto c = p.get_future().then(tpp::caller_id(), [](tpp::future<int>) { return tpp::this_thread::get_id(); });
            EXPECT(tpp::invoke(wid, [&] { p.set_value(1); }));
            EXPECT(c.get() == wid);
            tpp::promise<int> p2;
            auto c2 = p2.get_future().then(tpp::caller_id(), std::launch::async, [](tpp::future<int>) { return tpp::this_thread::get_id(); });
            EXPECT(tpp::invoke(wid, [&] { p2.set_value(1); }));
            EXPECT(c2.get() == wid);
        })
        .join();
}

static void fresh_threads()
{
    auto before = tpp::get_all_registered_threads().size();
    auto main_id = tpp::this_thread::get_id();
    std::set<tpp::thread::id> ids;
    const auto both = std::launch::async | std::launch::deferred;
    auto check = [&](tpp::thread::id id)
    {
        EXPECT(id != 0 && id != main_id);
        EXPECT(ids.insert(id).second);
    };
    for(int i = 0; i < 10; ++i)
    {
        auto me = [](auto&&...) { return tpp::this_thread::get_id(); };
        check(tpp::async(me).get());
        for(auto pol : {std::launch::deferred, both, std::launch::async})
        {
            check(tpp::async(pol, me).get());
            check(tpp::make_ready_future(1).then(pol, me).get());
            check(tpp::make_ready_future(1).share().then(pol, me).get());
        }
        check(tpp::make_ready_future(1).then(me).get());
        tpp::promise<int> p;
        auto late = p.get_future().share().then(me);
        p.set_value(1);
        check(late.get());
        std::atomic<tpp::thread::id> w{0};
        tpp::make_ready_future().then([&](tpp::future<void>) { w = tpp::this_thread::get_id(); }).get();
        check(w);
        tpp::make_ready_future().share().then(std::launch::async, [&](tpp::shared_future<void>) { w = tpp::this_thread::get_id(); }).get();
        check(w);
    }
    EXPECT(eventually([&] { return tpp::get_all_registered_threads().size() == before; }));
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init_data d;
    tpp::init(d);
    SCENARIO(dispatching);
    SCENARIO(policies);
    SCENARIO(fresh_threads);
    return done();
}
