#include "common.hpp"

template<typename F>
static int code_of(F f)
{
    try
    {
        f();
    }
    catch(const std::future_error& e)
    {
        return int(e.code().value());
    }
    return 0;
}
static int code(std::future_errc c)
{
    return int(c);
}

template<typename T>
static void put(tpp::promise<T>& p, int i)
{
    p.set_value(T(i));
}
static void put(tpp::promise<void>& p, int)
{
    p.set_value();
}

template<typename T>
static void one_setter_wins()
{
    for(int round = 0; round < 150; ++round)
    {
        tpp::promise<T> p;
        auto f = p.get_future().share();
        std::atomic<int> won{0}, lost{0};
        std::atomic<bool> go{false}, stop{false};
        std::vector<std::thread> ts;
        for(int i = 0; i < 4; ++i)
            ts.push_back(registered(
                [&, i]
                {
                    while(!go)
                        ;
                    int c = code_of(
                        [&]
                        {
                            if(i % 2)
                                p.set_exception(std::make_exception_ptr(i));
                            else
                                put(p, i);
                        });
                    EXPECT(c == 0 || c == code(std::future_errc::promise_already_satisfied));
                    (c ? lost : won)++;
                }));
        ts.push_back(registered(
            [&]
            {
                // ready means that the result is complete and final
                while(!f.is_ready() && !stop)
                    ;
                if(!f.is_ready())
                    return;
                bool err = f.has_error();
                for(int k = 0; k < 3; ++k)
                {
                    bool threw = false;
                    try
                    {
                        f.get();
                    }
                    catch(int)
                    {
                        threw = true;
                    }
                    EXPECT(threw == err);
                    EXPECT(f.is_ready());
                    jitter();
                }
            }));
        go = true;
        for(auto& t : ts)
            t.join();
        EXPECT(won == 1 && lost == 3);
        EXPECT(f.is_ready());
    }
}

static void second_set_changes_nothing()
{
    registered(
        []
        {
            tpp::promise<int> p;
            auto f = p.get_future().share();
            p.set_value(7);
            EXPECT(code_of([&] { p.set_value(8); }) == code(std::future_errc::promise_already_satisfied));
            EXPECT(code_of([&] { p.set_exception(std::make_exception_ptr(1)); }) == code(std::future_errc::promise_already_satisfied));
            EXPECT(code_of([&] { p.abandon(); }) == code(std::future_errc::promise_already_satisfied));
            EXPECT(!f.has_error() && f.get() == 7);
            tpp::promise<int> q;
            auto g = q.get_future().share();
            q.set_exception(std::make_exception_ptr(3));
            int n = 9;
            EXPECT(code_of([&] { q.set_value(n); }) == code(std::future_errc::promise_already_satisfied));
            EXPECT(g.has_error());
            tpp::promise<void> v;
            auto h = v.get_future().share();
            v.set_value();
            EXPECT(code_of([&] { v.set_value(); }) == code(std::future_errc::promise_already_satisfied));
            EXPECT(code_of([&] { v.set_exception(std::make_exception_ptr(1)); }) == code(std::future_errc::promise_already_satisfied));
            EXPECT(h.is_ready() && !h.has_error());
            h.get();
        })
        .join();
}

struct throws_on_copy
{
    int v = 0;
    explicit throws_on_copy(int x) : v(x)
    {
    }
    throws_on_copy(const throws_on_copy& o) : v(o.v)
    {
        if(v < 0)
            throw v;
    }
};

static void failed_set_leaves_promise_unsatisfied()
{
    registered(
        []
        {
            tpp::promise<throws_on_copy> p;
            auto f = p.get_future();
            throws_on_copy bad(-1), good(4);
            bool threw = false;
            try
            {
                p.set_value(bad);
            }
            catch(int)
            {
                threw = true;
            }
            EXPECT(threw && !f.is_ready());
            p.set_value(good);
            EXPECT(f.is_ready() && !f.has_error() && f.get().v == 4);
        })
        .join();
}

static void future_once_and_no_state()
{
    registered(
        []
        {
            tpp::promise<int> p;
            auto f = p.get_future();
            EXPECT(code_of([&] { (void)p.get_future(); }) == code(std::future_errc::future_already_retrieved));
            p.set_value(1);
            EXPECT(code_of([&] { (void)p.get_future(); }) == code(std::future_errc::future_already_retrieved));
            tpp::promise<int> q(std::move(p));
            EXPECT(code_of([&] { p.set_value(1); }) == code(std::future_errc::no_state));
            EXPECT(code_of([&] { p.set_exception(std::make_exception_ptr(1)); }) == code(std::future_errc::no_state));
            EXPECT(code_of([&] { (void)p.get_future(); }) == code(std::future_errc::no_state));
            EXPECT(code_of([&] { p.abandon(); }) == code(std::future_errc::no_state));
            EXPECT(code_of([&] { (void)q.get_future(); }) == code(std::future_errc::future_already_retrieved));
            tpp::promise<void> pv;
            tpp::promise<void> qv(std::move(pv));
            EXPECT(code_of([&] { pv.set_value(); }) == code(std::future_errc::no_state));
            tpp::future<int> g;
            EXPECT(!g.valid() && f.valid());
            EXPECT(code_of([&] { (void)g.is_ready(); }) == code(std::future_errc::no_state));
            EXPECT(code_of([&] { (void)g.has_error(); }) == code(std::future_errc::no_state));
            EXPECT(code_of([&] { g.wait(); }) == code(std::future_errc::no_state));
            EXPECT(code_of([&] { (void)g.wait_for(1ms); }) == code(std::future_errc::no_state));
            EXPECT(code_of([&] { (void)g.get(); }) == code(std::future_errc::no_state));
        })
        .join();
    for(int round = 0; round < 300; ++round)
    {
        tpp::promise<int> p;
        std::atomic<int> got{0};
        std::atomic<bool> go{false};
        std::vector<std::thread> ts;
        for(int i = 0; i < 3; ++i)
            ts.emplace_back(
                [&]
                {
                    while(!go)
                        ;
                    try
                    {
                        auto f = p.get_future();
                        got++;
                    }
                    catch(const std::future_error&)
                    {
                    }
                });
        go = true;
        for(auto& t : ts)
            t.join();
        EXPECT(got == 1);
    }
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init_data d;
    tpp::init(d);
    SCENARIO(second_set_changes_nothing);
    SCENARIO(future_once_and_no_state);
    SCENARIO(failed_set_leaves_promise_unsatisfied);
    SCENARIO(one_setter_wins<int>);
    SCENARIO(one_setter_wins<void>);
    return done();
}
