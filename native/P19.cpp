#include "common.hpp"

static void stays_asked()
{
    std::atomic<tpp::thread::id> a{0}, b{0};
    std::atomic<bool> stop{false};
    std::thread ta = registered(
        [&]
        {
            a = tpp::this_thread::get_id();
            while(!tpp::this_thread::notified_for_exit())
                tpp::this_thread::wait();
            for(int i = 0; i < 20; ++i)
            {
                int ran = 0;
                tpp::invoke(a, [&] { ++ran; });
                switch(i % 4)
                {
                    case 0: tpp::this_thread::process(); break;
                    case 1: tpp::this_thread::wait(); break;
                    case 2: tpp::this_thread::wait_for(1ms); break;
                    default: tpp::this_thread::sleep_for(1ms); break;
                }
                tpp::this_thread::register_this_thread();
                EXPECT(tpp::this_thread::notified_for_exit());
            }
        });
    std::thread tb = registered(
        [&]
        {
            b = tpp::this_thread::get_id();
            while(!stop)
            {
                EXPECT(!tpp::this_thread::notified_for_exit());
                tpp::this_thread::wait_for(1ms);
            }
            EXPECT(!tpp::this_thread::notified_for_exit());
        });
    EXPECT(eventually([&] { return a != 0 && b != 0; }));
    tpp::notify_for_exit(a);
    ta.join();
    stop = true;
    tb.join();
}

static void thread_objects()
{
    struct flag
    {
        std::atomic<bool> out{false};
    };
    auto body = [](std::shared_ptr<flag> f)
    {
        tpp::this_thread::register_this_thread();
        while(!tpp::this_thread::notified_for_exit())
            tpp::this_thread::wait();
        std::this_thread::sleep_for(1ms);
        f->out = true;
        tpp::this_thread::unregister_this_thread();
    };
    auto f = [] { return std::make_shared<flag>(); };
    auto f1 = f(), f2 = f(), f3 = f(), f4 = f(), f5 = f();
    {
        tpp::thread t(body, f1);
        EXPECT(t.get_id() != 0);
    }
    EXPECT(f1->out);
    {
        const std::string name = "named";
        tpp::thread t(name, body, f2);
        tpp::thread u(name, body, f3);
        auto it = t.get_id(), iu = u.get_id();
        auto nt = static_cast<std::thread&>(t).get_id(), nu = static_cast<std::thread&>(u).get_id();
        EXPECT(it != iu);
        t.swap(u);
        EXPECT(t.get_id() == iu && u.get_id() == it);
        EXPECT(static_cast<std::thread&>(t).get_id() == nu && static_cast<std::thread&>(u).get_id() == nt);
        // the old one is asked and waited for, the new one is not disturbed
        t = std::move(u);
        EXPECT(f3->out);
        EXPECT(!f2->out);
        EXPECT(t.get_id() == it);
        EXPECT(static_cast<std::thread&>(t).get_id() == nt);
        EXPECT(!u.joinable());
        tpp::thread v(std::move(t));
        EXPECT(v.get_id() == it);
        EXPECT(!t.joinable());
        std::this_thread::sleep_for(2ms);
        EXPECT(!f2->out);
        v.join();
        EXPECT(f2->out);
        EXPECT(!v.joinable());
    }
    {
        tpp::thread x(body, f4);
        tpp::thread y(body, f5);
        x.join();
        EXPECT(f4->out);
        std::this_thread::sleep_for(2ms);
        EXPECT(!f5->out);
        auto m = tpp::make_thread("m");
        auto mid = m.get_id();
        EXPECT(tpp::invoke(mid, [] {}));
        m = tpp::thread();
        EXPECT(eventually([&] { return !tpp::invoke(mid, [] {}); }));
    }
    EXPECT(f5->out);
}

static void shutdowns()
{
    EXPECT(tpp::shutdown() == -1);
    tpp::init();
    tpp::init();
    auto me = tpp::this_thread::get_id();
    EXPECT(me != 0);
    std::atomic<tpp::thread::id> id{0};
    std::atomic<bool> asked{false}, leave{false};
    std::thread t(
        [&]
        {
            tpp::this_thread::register_this_thread();
            id = tpp::this_thread::get_id();
            while(!tpp::this_thread::notified_for_exit())
                tpp::this_thread::wait();
            asked = true;
            while(!leave)
                std::this_thread::yield();
            tpp::this_thread::unregister_this_thread();
        });
    EXPECT(eventually([&] { return id != 0; }));
    EXPECT(tpp::shutdown() == -1);
    EXPECT(tpp::this_thread::get_id() == me);
    std::this_thread::sleep_for(2ms);
    EXPECT(!asked);
    // one thread does not leave in time
    EXPECT(tpp::shutdown(1s) == 1);
    EXPECT(asked);
    EXPECT(tpp::shutdown() == -1);
    leave = true;
    t.join();
    tpp::init();
    // everybody leaves
    std::vector<std::thread> ts;
    std::atomic<int> up{0};
    for(int i = 0; i < 8; ++i)
        ts.emplace_back(
            [&]
            {
                tpp::this_thread::register_this_thread();
                ++up;
                while(!tpp::this_thread::notified_for_exit())
                    tpp::this_thread::wait();
                jitter();
                tpp::this_thread::unregister_this_thread();
            });
    EXPECT(eventually([&] { return up == 8; }));
    auto t0 = std::chrono::steady_clock::now();
    EXPECT(tpp::shutdown(10s) == 0);
    EXPECT(std::chrono::steady_clock::now() - t0 < 8s);
    EXPECT(tpp::get_all_registered_threads().empty());
    for(auto& x : ts)
        x.join();
    // racing calls: exactly one of them is the last initialiser's
    for(int i = 0; i < 60; ++i)
    {
        std::atomic<int> zero{0}, minus{0}, go{0};
        tpp::init();
        std::vector<std::thread> cs;
        for(int k = 0; k < 4; ++k)
            cs.emplace_back(
                [&]
                {
                    ++go;
                    while(go < 4)
                        ;
                    int r = tpp::shutdown(0s);
                    r == -1 ? ++minus : ++zero;
                });
        for(auto& c : cs)
            c.join();
        EXPECT(zero == 1 && minus == 3);
        tpp::this_thread::unregister_this_thread();
    }
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    SCENARIO(shutdowns);
    tpp::init();
    EXPECT(tpp::main_thread::get_id() == tpp::this_thread::get_id());
    registered([] { tpp::init(); EXPECT(tpp::main_thread::get_id() != tpp::this_thread::get_id()); }).join();
    EXPECT(tpp::main_thread::get_id() == tpp::this_thread::get_id());
    EXPECT(tpp::shutdown() == -1);
    for(int i = 0; i < 10; ++i)
    {
        SCENARIO(stays_asked);
        SCENARIO(thread_objects);
    }
    EXPECT(tpp::shutdown() == 0);
    return done();
}
