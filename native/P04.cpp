#include "common.hpp"
#include <map>

using cat = tpp::priority::category;

static tpp::thread::id helper;

// calls many library functions; called from everywhere the library runs user code
static void use_everything()
{
    tpp::get_all_registered_threads();
    tpp::this_thread::get_id();
    tpp::this_thread::is_registered();
    tpp::get_pending_task_count(tpp::this_thread::get_id());
    tpp::get_pending_task_count(helper);
    tpp::notify(helper);
    tpp::invoke(helper, [] {});
    tpp::dispatch(tpp::this_thread::get_id(), [] {});
    tpp::async(helper, [] { return 1; }).wait();
    tpp::make_ready_future(1).then(tpp::this_thread::get_id(), [](tpp::future<int> f) { f.get(); }).wait();
    if(tpp::this_thread::is_registered())
        tpp::this_thread::process();
}

// copies are counted: the destructor of the last one uses the library
struct probe
{
    std::shared_ptr<int> last;
    explicit probe(std::atomic<int>& n)
        : last(new int(0), [&n](int* p) {
            delete p;
            use_everything();
            ++n;
        })
    {
    }
};

static void tasks_and_their_destructors()
{
    std::atomic<int> gone{0}, ran{0};
    registered([&] {
        auto me = tpp::this_thread::get_id();
        for(int i = 0; i < 3; ++i)
            tpp::invoke(me, [&, p = probe(gone)] {
                use_everything();
                ++ran;
            });
        tpp::this_thread::process();
        EXPECT(ran == 3 && gone == 3);
        // never run: destroyed with the queue
        tpp::invoke(me, [&, p = probe(gone)] { ++ran; });
    }).join();
    EXPECT(ran == 3 && gone == 4);
    // refused
    EXPECT(!tpp::invoke(tpp::thread::id(987654), [&, p = probe(gone)] {}));
    EXPECT(gone == 5);
}

static void continuations_and_results()
{
    std::atomic<int> gone{0}, ran{0};
    registered([&] {
        auto me = tpp::this_thread::get_id();
        for(int kind = 0; kind < 3; ++kind)
        {
            auto p = std::make_unique<tpp::promise<std::shared_ptr<probe>>>();
            auto f = p->get_future().share();
            auto g1 = f.then(me, [&, q = probe(gone)](auto x) {
                x.is_ready();
                use_everything();
                ++ran;
            });
            auto g2 = f.then(helper, std::launch::async, [&](auto x) {
                x.is_ready();
                ++ran;
            });
            if(kind == 0)
                p->set_value(std::make_shared<probe>(gone));
            else if(kind == 1)
                p->set_exception(std::make_exception_ptr(1));
            else
                p.reset();
            g1.wait();
            g2.wait();
            // the last reference to the value
            p.reset();
            f = {};
            g1 = {};
        }
        tpp::this_thread::process();
        EXPECT(ran == 6);
        EXPECT(eventually([&] { return gone == 4; }));
        // dropped with the state
        {
            tpp::promise<int> p;
            auto f = p.get_future().then(me, [&, q = probe(gone)](tpp::future<int>) {});
        }
        tpp::this_thread::process();
        EXPECT(eventually([&] { return gone == 5; }));
    }).join();
}

static void combinations()
{
    registered([&] {
        auto me = tpp::this_thread::get_id();
        for(int kind = 0; kind < 2; ++kind)
        {
            tpp::promise<int> p, q;
            bool ran = false;
            auto nested = [&](auto f) {
                for(int i = 0; i < 4; ++i)
                    tpp::this_thread::process();
                ran = f.is_ready();
            };
            tpp::future<void> r;
            if(kind == 0)
                r = tpp::when_any(p.get_future(), q.get_future()).then(me, nested);
            else
                r = tpp::when_all(p.get_future(), q.get_future()).then(me, nested);
            std::thread([&] {
                p.set_value(1);
                q.set_value(1);
            }).join();
            for(int i = 0; i < 4; ++i)
                tpp::this_thread::process();
            EXPECT(ran);
        }
        for(int kind = 0; kind < 2; ++kind)
        {
            std::vector<tpp::promise<int>> p(3);
            std::vector<tpp::shared_future<int>> v;
            for(auto& x : p)
                v.push_back(x.get_future().share());
            bool ran = false;
            auto nested = [&](auto f) {
                for(int i = 0; i < 4; ++i)
                    tpp::this_thread::process();
                ran = f.is_ready();
            };
            tpp::future<void> r;
            if(kind == 0)
                r = tpp::when_any(v.begin(), v.end()).then(me, nested);
            else
                r = tpp::when_all(v.begin(), v.end()).then(me, nested);
            std::thread([&] {
                for(auto& x : p)
                    x.set_value(1);
            }).join();
            for(int i = 0; i < 4; ++i)
                tpp::this_thread::process();
            EXPECT(ran);
        }
    }).join();
}

static void jobs()
{
    std::atomic<int> gone{0}, ran{0};
    {
        tpp::thread_pool pool({{cat::normal, 1}});
        auto use_pool = [&] {
            pool.get_jobs_count();
            pool.schedule([] {});
            use_everything();
        };
        std::atomic<bool> busy{false}, go{false};
        auto first = pool.schedule([&] {
            busy = true;
            while(!go)
                std::this_thread::yield();
            use_pool();
            ++ran;
        });
        EXPECT(eventually([&] { return busy.load(); }));
        auto tok = [&] {
            return std::shared_ptr<int>(new int(0), [&](int* p) {
                delete p;
                pool.get_jobs_count();
                ++gone;
            });
        };
        auto a = pool.schedule([&, t = tok()] { ++ran; });
        a.stop();
        EXPECT(gone == 1);
        auto b = pool.schedule([&, t = tok()] { ++ran; });
        auto c = pool.schedule([&, t = tok()] { ++ran; });
        pool.stop_all();
        EXPECT(gone == 3);
        auto e = pool.schedule([&, t = tok()] { ++ran; });
        go = true;
        first.wait();
        e.wait();
        EXPECT(eventually([&] { return gone == 4; }));
        pool.wait_all();
        EXPECT(ran == 2);
    }
}

static std::atomic<int> messages{0};

static void callbacks()
{
    // the log callback uses the library
    EXPECT(eventually([&] { return messages >= 0; }));
    for(int i = 0; i < 3; ++i)
    {
        auto t = tpp::make_thread("t");
        tpp::invoke(tpp::thread::id(987654), [] {});
    }
    registered([] { tpp::this_thread::register_this_thread(); }).join();
}

static void locks_in_every_order()
{
    std::atomic<bool> stop{false};
    std::vector<std::thread> ts;
    for(int i = 0; i < 4; ++i)
        ts.push_back(registered([&] {
            while(!stop)
            {
                for(auto id : tpp::get_all_registered_threads())
                    if(id != tpp::main_thread::get_id())
                    {
                        tpp::invoke(id, [] { tpp::get_all_registered_threads(); });
                        tpp::get_pending_task_count(id);
                    }
                tpp::this_thread::process();
                registered([] {}).join();
            }
        }));
    std::this_thread::sleep_for(100ms);
    stop = true;
    for(auto& t : ts)
        t.join();
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init_data d;
    auto log = [](const std::string&) {
        static thread_local bool inside = false;
        if(inside)
            return;
        inside = true;
        tpp::get_all_registered_threads();
        tpp::this_thread::get_id();
        tpp::invoke(tpp::thread::id(987654), [] {});
        ++messages;
        inside = false;
    };
    d.log_info = log;
    d.log_error = log;
    tpp::init(d);
    auto h = tpp::make_thread("helper");
    helper = h.get_id();
    SCENARIO(tasks_and_their_destructors);
    SCENARIO(continuations_and_results);
    SCENARIO(combinations);
    SCENARIO(jobs);
    SCENARIO(callbacks);
    SCENARIO(locks_in_every_order);
    EXPECT(messages > 0);
    return done();
}
