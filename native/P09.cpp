#include "common.hpp"

struct counted
{
    std::shared_ptr<std::atomic<int>> calls = std::make_shared<std::atomic<int>>(0);
    int add = 0;
    int operator()(int a, std::string b)
    {
        (*calls)++;
        return a + int(b.size()) + add;
    }
};

struct moveonly
{
    std::unique_ptr<int> v;
    explicit moveonly(int x) : v(std::make_unique<int>(x))
    {
    }
    moveonly(moveonly&&) = default;
    std::unique_ptr<int> operator()(std::unique_ptr<int> a)
    {
        return std::make_unique<int>(*v + *a);
    }
};

struct odd
{
};

static void values(tpp::thread::id id, std::launch pol)
{
    counted c;
    c.add = 100;
    const std::string text(60, 'x');
    std::string text2 = text;
    auto f = tpp::async(id, pol, c, 5, text2);
    f.wait();
    EXPECT(f.get() == 165 && *c.calls == 1 && text2 == text);
    auto g = tpp::async(id, pol, moveonly(3), std::make_unique<int>(4));
    EXPECT(*g.get() == 7);
    auto h = tpp::async(id, pol, [](std::string a, const std::string& b) { return a + b; }, text2, std::string("tail"));
    EXPECT(h.get() == text + "tail");
    std::atomic<int> seen{0};
    auto v = tpp::async(id, pol, [&](int x) { seen += x; }, 6);
    v.get();
    EXPECT(seen == 6);
    // exceptions, also ones that are not derived from std::exception
    auto e = tpp::async(id, pol, [](int x) -> int { throw x; }, 8);
    int got = 0;
    try
    {
        e.get();
    }
    catch(int x)
    {
        got = x;
    }
    EXPECT(got == 8);
    auto e2 = tpp::async(id, pol, [] { throw odd(); });
    bool isodd = false;
    try
    {
        e2.get();
    }
    catch(const odd&)
    {
        isodd = true;
    }
    EXPECT(isodd);
    auto e3 = tpp::async(id, pol, []() -> std::string { throw std::runtime_error("why"); });
    try
    {
        e3.get();
        EXPECT(false);
    }
    catch(const std::runtime_error& x)
    {
        EXPECT(std::string(x.what()) == "why");
    }
}

static void continuations(tpp::thread::id id, std::launch pol)
{
    for(int early = 0; early < 2; ++early)
        for(int fails = 0; fails < 2; ++fails)
        {
            auto set = [&](auto& p)
            {
                if(fails)
                    p.set_exception(std::make_exception_ptr(3));
                else
                    p.set_value(std::string(40, 'q'));
            };
            tpp::promise<std::string> p;
            auto f = p.get_future();
            if(early)
                set(p);
            std::atomic<int> calls{0};
            auto g = f.then(id, pol, [&calls](tpp::future<std::string> s) {
                calls++;
                EXPECT(s.valid() && s.is_ready());
                return s.get() + "!";
            });
            if(!early)
                set(p);
            int code = 0;
            std::string res;
            try
            {
                res = g.get();
            }
            catch(int x)
            {
                code = x;
            }
            EXPECT(calls == 1);
            EXPECT(fails ? code == 3 : res == std::string(40, 'q') + "!");
        }
    {
        tpp::promise<int> p;
        auto f = p.get_future().share();
        auto a = f.then(id, pol, [](tpp::shared_future<int> s) { return s.get() + 1; });
        auto b = f.then(id, pol, [](tpp::shared_future<int> s) -> int { throw s.get(); });
        auto c = f.then(id, pol, [](tpp::shared_future<int> s) { EXPECT(s.get() == 10); });
        p.set_value(10);
        EXPECT(a.get() == 11);
        int x = 0;
        try
        {
            b.get();
        }
        catch(int v)
        {
            x = v;
        }
        EXPECT(x == 10);
        c.get();
    }
    {
        tpp::promise<void> p;
        auto f = p.get_future();
        auto a = f.then(id, pol, [](tpp::future<void> s) { EXPECT(s.is_ready() && s.has_error()); s.get(); });
        p.set_exception(std::make_exception_ptr(77));
        int x = 0;
        try
        {
            a.get();
        }
        catch(int v)
        {
            x = v;
        }
        EXPECT(x == 77);
        tpp::promise<void> q;
        auto g = q.get_future().share();
        std::atomic<int> runs{0};
        auto b = g.then(id, pol, [&](tpp::shared_future<void> s) { EXPECT(s.is_ready() && !s.has_error()); runs++; });
        q.set_value();
        b.get();
        EXPECT(runs == 1);
    }
}

static void here_and_there()
{
    auto w = tpp::make_thread("w");
    registered(
        [&]
        {
            for(auto pol : {std::launch::async, std::launch::deferred, std::launch::async | std::launch::deferred})
            {
                values(w.get_id(), pol);
                values(tpp::caller_id(), pol);
                values(tpp::this_thread::get_id(), pol);
                continuations(w.get_id(), pol);
                continuations(tpp::caller_id(), pol);
            }
        })
        .join();
    // no exception has ended the worker
    std::atomic<bool> alive{false};
    EXPECT(tpp::invoke(w.get_id(), [&] { alive = true; }));
    EXPECT(eventually([&] { return alive.load(); }));
}

static void own_thread()
{
    auto f = tpp::async([](int a) { return a * 2; }, 21);
    EXPECT(f.get() == 42);
    auto g = tpp::async(std::launch::async, [] { throw 5; });
    int x = 0;
    try
    {
        g.get();
    }
    catch(int v)
    {
        x = v;
    }
    EXPECT(x == 5);
    auto h = tpp::make_ready_future(3).then([](tpp::future<int> s) { return s.get() + 1; });
    EXPECT(h.get() == 4);
    auto k = tpp::make_ready_future(3).share().then(std::launch::deferred, [](tpp::shared_future<int> s) { return s.get() + 2; });
    EXPECT(k.get() == 5);
}

static void jobs()
{
    tpp::thread_pool pool({{tpp::priority::category::normal, 2}, {tpp::priority::category::high, 1}});
    for(int i = 0; i < 50; ++i)
    {
        counted c;
        auto j = pool.schedule(i % 2 ? tpp::priority::high(size_t(i)) : tpp::priority::normal(), c, i, std::string("abc"));
        EXPECT(j.get() == i + 3 && *c.calls == 1);
        auto e = pool.schedule([](int x) { throw x; }, i);
        int got = -1;
        try
        {
            e.get();
        }
        catch(int x)
        {
            got = x;
        }
        EXPECT(got == i);
    }
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init_data d;
    tpp::init(d);
    SCENARIO(here_and_there);
    SCENARIO(own_thread);
    SCENARIO(jobs);
    return done();
}
