#include "common.hpp"

static bool is_broken(const std::function<void()>& f)
{
    try
    {
        f();
    }
    catch(const std::future_error& e)
    {
        return e.code() == std::make_error_code(std::future_errc::broken_promise);
    }
    catch(...)
    {
    }
    return false;
}

static void stored_outcome()
{
    registered(
        []
        {
            tpp::promise<std::string> p;
            auto f = p.get_future();
            p.set_value("a long enough string to live on the heap");
            EXPECT(f.wait_for(0ms) == std::future_status::ready);
            EXPECT(f.get() == "a long enough string to live on the heap");
            EXPECT(!f.valid());
            tpp::promise<std::unique_ptr<int>> pm;
            auto fm = pm.get_future();
            pm.set_value(std::make_unique<int>(5));
            auto got = fm.get();
            EXPECT(got && *got == 5 && !fm.valid());
            tpp::promise<std::string> ps;
            auto fs = ps.get_future().share();
            std::string text = "text";
            ps.set_value(text);
            EXPECT(text == "text");
            for(int i = 0; i < 3; ++i)
                EXPECT(fs.valid() && fs.get() == "text");
            tpp::promise<int> pe;
            auto fe = pe.get_future();
            auto e0 = std::make_exception_ptr(std::runtime_error("boom"));
            pe.set_exception(e0);
            EXPECT(fe.has_error());
            try
            {
                fe.get();
                EXPECT(false);
            }
            catch(const std::runtime_error& e)
            {
                EXPECT(std::string(e.what()) == "boom" && std::current_exception() == e0);
            }
            EXPECT(!fe.valid());
            tpp::promise<void> pv;
            auto fv = pv.get_future().share();
            pv.set_exception(std::make_exception_ptr(42));
            for(int i = 0; i < 3; ++i)
            {
                int c = 0;
                try
                {
                    fv.get();
                }
                catch(int x)
                {
                    c = x;
                }
                EXPECT(c == 42 && fv.valid());
            }
            auto r = tpp::make_ready_future(std::string("x"));
            EXPECT(r.is_ready() && r.get() == "x");
            auto x = tpp::make_exceptional_future<int>(std::make_exception_ptr(7));
            bool seven = false;
            try
            {
                x.get();
            }
            catch(int v)
            {
                seven = v == 7;
            }
            EXPECT(seven);
            auto xv = tpp::make_exceptional_future<void>(8);
            EXPECT(xv.has_error());
        })
        .join();
}

static void exit_request_while_waiting()
{
    for(int round = 0; round < 40; ++round)
    {
        tpp::promise<int> p;
        auto f = p.get_future().share();
        tpp::promise<void> pv;
        auto fv = pv.get_future().share();
        std::atomic<tpp::thread::id> id{0};
        std::atomic<int> ended{0};
        auto t = registered(
            [&]
            {
                id = tpp::this_thread::get_id();
                if(round % 4 == 0)
                    EXPECT(is_broken([&] { f.get(); }));
                else if(round % 4 == 1)
                    EXPECT(is_broken([&] { fv.get(); }));
                else if(round % 4 == 2)
                    fv.wait();
                else
                    EXPECT(f.wait_for(60s) == std::future_status::deferred);
                EXPECT(tpp::this_thread::notified_for_exit());
                EXPECT(!f.is_ready() && !fv.is_ready());
                ended = 1;
            });
        EXPECT(eventually([&] { return id != 0; }));
        if(round % 3)
            std::this_thread::sleep_for(2ms);
        EXPECT(!ended);
        tpp::notify_for_exit(id);
        t.join();
    }
    std::thread(
        []
        {
            // not registered
            tpp::promise<int> p;
            auto f = p.get_future();
            EXPECT(is_broken([&] { f.get(); }));
        })
        .join();
}

static void plain_notifications_do_not_end_a_wait()
{
    tpp::promise<int> p;
    auto f = p.get_future().share();
    std::atomic<tpp::thread::id> id{0};
    std::atomic<int> got{0};
    auto t = registered(
        [&]
        {
            id = tpp::this_thread::get_id();
            got = f.get();
        });
    EXPECT(eventually([&] { return id != 0; }));
    std::atomic<int> ran{0};
    for(int i = 0; i < 20; ++i)
    {
        tpp::notify(id);
        tpp::invoke(id, [&] { ran++; });
        std::this_thread::sleep_for(1ms);
    }
    EXPECT(got == 0);
    EXPECT(ran > 0);
    p.set_value(9);
    t.join();
    EXPECT(got == 9);
}

static void timed_waits()
{
    for(int round = 0; round < 60; ++round)
    {
        tpp::promise<int> p;
        auto f = p.get_future().share();
        auto t = registered(
            [&]
            {
                auto limit = std::chrono::milliseconds(1 + rnd(4));
                auto t0 = std::chrono::steady_clock::now();
                std::future_status s;
                if(round % 2)
                    s = f.wait_until(t0 + limit);
                else
                    s = f.wait_for(limit);
                auto d = std::chrono::steady_clock::now() - t0;
                EXPECT(s == std::future_status::ready || s == std::future_status::timeout);
                if(s == std::future_status::ready)
                    EXPECT(f.is_ready() && f.get() == 5);
                else
                    EXPECT(d >= limit);
                f.wait();
                EXPECT(f.is_ready());
            });
        std::this_thread::sleep_for(std::chrono::microseconds(rnd(6000)));
        p.set_value(5);
        t.join();
    }
    registered(
        []
        {
            tpp::promise<void> p;
            auto f = p.get_future();
            EXPECT(f.wait_for(-1ms) == std::future_status::timeout);
            EXPECT(f.wait_for(3ms) == std::future_status::timeout);
            EXPECT(f.wait_until(std::chrono::steady_clock::now() - 1s) == std::future_status::timeout);
            p.set_value();
            EXPECT(f.wait_for(-1ms) == std::future_status::ready);
        })
        .join();
}

static void woken_by_the_result()
{
    for(int round = 0; round < 400; ++round)
    {
        auto p = std::make_unique<tpp::promise<int>>();
        auto f = p->get_future().share();
        std::vector<std::thread> ts;
        for(int i = 0; i < 3; ++i)
            ts.push_back(registered([f, round] { EXPECT(f.get() == round); }));
        for(int i = rnd(3000); i > 0; --i)
            asm volatile("");
        p->set_value(round);
        if(round % 2)
            p.reset();
        for(auto& t : ts)
            t.join();
    }
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init_data d;
    tpp::init(d);
    SCENARIO(stored_outcome);
    SCENARIO(timed_waits);
    SCENARIO(plain_notifications_do_not_end_a_wait);
    SCENARIO(exit_request_while_waiting);
    SCENARIO(woken_by_the_result);
    return done();
}
