#include "common.hpp"

template<typename T>
static void put(tpp::promise<T>& p)
{
    p.set_value(T(1));
}
static void put(tpp::promise<void>& p)
{
    p.set_value();
}

template<typename T>
static void racing_attach()
{
    for(int round = 0; round < 250; ++round)
    {
        tpp::promise<T> p;
        auto f = p.get_future().share();
        const int n = 3, k = 5;
        std::atomic<int> runs[n * k];
        for(auto& r : runs)
            r = 0;
        std::atomic<bool> go{false}, isset{false};
        std::vector<std::thread> ts;
        for(int i = 0; i < n; ++i)
            ts.push_back(registered(
                [&, i]
                {
                    auto mine = f;
                    while(!go)
                        ;
                    for(int j = 0; j < k; ++j)
                    {
                        std::atomic<int>* slot = &runs[i * k + j];
                        mine.then(
                            tpp::caller_id(),
                            std::launch::deferred,
                            [slot, &isset](auto self)
                            {
                                EXPECT(self.valid() && self.is_ready());
                                EXPECT(isset.load());
                                (*slot)++;
                            });
                        if(rnd(3) == 0)
                            jitter();
                    }
                }));
        ts.push_back(registered(
            [&]
            {
                while(!go)
                    ;
                jitter();
                isset = true;
                if(round % 2)
                    put(p);
                else
                    p.set_exception(std::make_exception_ptr(1));
            }));
        go = true;
        for(auto& t : ts)
            t.join();
        for(auto& r : runs)
            EXPECT(r == 1);
        EXPECT(f.valid());
    }
}

static void order_and_validity()
{
    registered(
        []
        {
            for(int n = 0; n < 70; ++n)
            {
                tpp::promise<int> p;
                auto f = p.get_future().share();
                std::vector<int> seen;
                for(int i = 0; i < n; ++i)
                {
                    auto g = f.then(tpp::caller_id(), [&seen, i](tpp::shared_future<int> s) {
                        EXPECT(s.is_ready());
                        seen.push_back(i);
                    });
                    EXPECT(f.valid() && g.valid() && !g.is_ready());
                }
                EXPECT(seen.empty());
                if(n % 3 == 0)
                    p.set_exception(std::make_exception_ptr(2));
                else
                    p.set_value(n);
                EXPECT(int(seen.size()) == n);
                for(int i = 0; i < n; ++i)
                    EXPECT(seen[size_t(i)] == i);
                int late = 0;
                f.then(tpp::caller_id(), [&](tpp::shared_future<int>) { late++; });
                EXPECT(late == 1);
            }
            {
                tpp::promise<int> p;
                auto f = p.get_future();
                int runs = 0;
                auto g = f.then(tpp::caller_id(), [&](tpp::future<int> s) {
                    runs++;
                    return s.get() + 1;
                });
                EXPECT(!f.valid() && runs == 0 && !g.is_ready());
                p.set_value(4);
                EXPECT(runs == 1 && g.get() == 5);
            }
            {
                tpp::promise<void> p;
                auto f = p.get_future();
                int runs = 0;
                auto g = f.then(tpp::caller_id(), [&](tpp::future<void>) { runs++; });
                EXPECT(!f.valid() && runs == 0);
                p.set_value();
                EXPECT(runs == 1 && g.is_ready());
                auto h = tpp::make_ready_future();
                h.then(tpp::caller_id(), [&](tpp::future<void>) { runs++; });
                EXPECT(!h.valid() && runs == 2);
            }
            {
                tpp::promise<void> p;
                auto f = p.get_future().share();
                int runs = 0;
                f.then(tpp::caller_id(), [&](tpp::shared_future<void>) { runs++; });
                f.then(tpp::caller_id(), std::launch::deferred, [&](tpp::shared_future<void>) { runs += 10; });
                EXPECT(f.valid() && runs == 0);
                // given up: ready as well
                {
                    tpp::promise<void> other(std::move(p));
                }
                EXPECT(runs == 11);
            }
            {
                // a continuation that attaches another one
                tpp::promise<int> p;
                auto f = p.get_future().share();
                int runs = 0;
                f.then(tpp::caller_id(), [&](tpp::shared_future<int> s) { s.then(tpp::caller_id(), [&](tpp::shared_future<int>) { runs++; }); });
                p.set_value(1);
                EXPECT(runs == 1);
            }
            {
                // without a state
                tpp::future<int> f;
                bool threw = false;
                try
                {
                    f.then(tpp::caller_id(), [](tpp::future<int>) {});
                }
                catch(const std::future_error& e)
                {
                    threw = e.code() == std::make_error_code(std::future_errc::no_state);
                }
                EXPECT(threw);
            }
        })
        .join();
}

static void continuations_on_other_threads()
{
    auto w = tpp::make_thread("w");
    for(int round = 0; round < 100; ++round)
    {
        tpp::promise<int> p;
        auto f = p.get_future().share();
        std::atomic<int> runs{0};
        for(int i = 0; i < 5; ++i)
            f.then(w.get_id(), std::launch::async, [&](tpp::shared_future<int> s) {
                EXPECT(s.is_ready());
                runs++;
            });
        std::this_thread::yield();
        EXPECT(runs == 0);
        p.set_value(3);
        for(int i = 0; i < 2; ++i)
            f.then(w.get_id(), [&](tpp::shared_future<int> s) { runs++; });
        EXPECT(eventually([&] { return runs == 7; }));
        std::this_thread::yield();
        EXPECT(runs == 7);
    }
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init_data d;
    tpp::init(d);
    SCENARIO(order_and_validity);
    SCENARIO(continuations_on_other_threads);
    SCENARIO(racing_attach<int>);
    SCENARIO(racing_attach<void>);
    return done();
}
