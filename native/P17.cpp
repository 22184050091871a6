#include "combine.hpp"

template<typename Fut>
void range_orders()
{
    for(size_t n = 0; n <= 4; ++n)
        all_orders(n, [n](const std::vector<size_t>& order, size_t pre) {
            inputs<Fut> in(n);
            for(size_t k = 0; k < pre; ++k)
                in.complete(order[k]);
            auto all = tpp::when_all(in.f.begin(), in.f.end());
            EXPECT(all.valid());
            for(auto& f : in.f)
                EXPECT(f.valid() == std::is_copy_constructible<Fut>::value);
            turn();
            for(size_t k = pre; k < n; ++k)
            {
                EXPECT(!all.is_ready());
                in.complete(order[k]);
                turn();
            }
            EXPECT(all.is_ready());
            auto r = all.get();
            EXPECT(r.size() == n);
            for(size_t i = 0; i < n; ++i)
                EXPECT(holds(r[i], i));
        });
}

static void ranges()
{
    registered([] { range_orders<tpp::future<int>>(); }).join();
    registered([] { range_orders<tpp::shared_future<int>>(); }).join();
}

static void variadic()
{
    registered(
        [] {
            EXPECT(tpp::when_all().is_ready());
            all_orders(4, [](const std::vector<size_t>& order, size_t pre) {
                tpp::promise<int> a, b, d;
                tpp::promise<void> c;
                auto fa = a.get_future();
                auto sb = b.get_future().share();
                auto complete = [&](size_t i) {
                    switch(i)
                    {
                        case 0: a.set_value(10); break;
                        case 1: b.set_value(20); break;
                        case 2: c.set_value(); break;
                        default: d.set_exception(std::make_exception_ptr(4)); break;
                    }
                };
                for(size_t k = 0; k < pre; ++k)
                    complete(order[k]);
                auto all = tpp::when_all(fa, sb, c.get_future(), d.get_future().share());
                EXPECT(!fa.valid() && sb.valid());
                turn();
                for(size_t k = pre; k < 4; ++k)
                {
                    EXPECT(!all.is_ready());
                    complete(order[k]);
                    turn();
                }
                EXPECT(all.is_ready());
                auto r = all.get();
                EXPECT(ready(std::get<0>(r)) && std::get<0>(r).get() == 10);
                EXPECT(ready(std::get<1>(r)) && std::get<1>(r).get() == 20);
                EXPECT(ready(std::get<2>(r)));
                EXPECT(ready(std::get<3>(r)));
                try
                {
                    std::get<3>(r).get();
                    EXPECT(false);
                }
                catch(int e)
                {
                    EXPECT(e == 4);
                }
            });
            tpp::promise<int> one;
            auto all = tpp::when_all(one.get_future());
            EXPECT(!all.is_ready());
            one.set_value(1);
            turn();
            EXPECT(all.is_ready() && std::get<0>(all.get()).get() == 1);
        })
        .join();
}

static void from_other_threads()
{
    for(int round = 0; round < 60; ++round)
        registered(
            [] {
                size_t n = 1 + size_t(rnd(6));
                inputs<tpp::future<int>> in(n);
                inputs<tpp::shared_future<int>> in2(n);
                std::thread t([&] {
                    for(size_t i = 0; i < n; ++i)
                    {
                        jitter();
                        in.complete(n - 1 - i);
                        in2.complete(i);
                    }
                });
                jitter();
                auto all = tpp::when_all(in.f.begin(), in.f.end());
                auto all2 = tpp::when_all(in2.f.begin(), in2.f.end());
                auto r = all.get();
                auto r2 = all2.get();
                EXPECT(r.size() == n && r2.size() == n);
                for(size_t i = 0; i < n; ++i)
                    EXPECT(holds(r[i], i) && holds(r2[i], i));
                t.join();
            })
            .join();
}

static void abandoned()
{
    // an input that is abandoned counts as ready
    registered(
        [] {
            auto p = std::make_unique<tpp::promise<int>>();
            tpp::promise<int> q;
            auto all = tpp::when_all(p->get_future(), q.get_future());
            p.reset();
            turn();
            EXPECT(!all.is_ready());
            q.set_value(1);
            turn();
            EXPECT(all.is_ready());
            auto r = all.get();
            EXPECT(ready(std::get<0>(r)) && std::get<1>(r).get() == 1);
        })
        .join();
    // the thread that waits for the inputs is gone: the combination is broken
    tpp::promise<int> p, q;
    tpp::future<std::tuple<tpp::future<int>, tpp::future<int>>> all;
    registered([&] { all = tpp::when_all(p.get_future(), q.get_future()); }).join();
    EXPECT(!all.is_ready());
    p.set_value(1);
    q.set_value(2);
    EXPECT(eventually([&] { return all.is_ready(); }));
}

static void reentrant()
{
    // a continuation of the combination that processes tasks of its thread
    registered(
        [] {
            tpp::promise<int> p, q;
            bool ran = false;
            auto all = tpp::when_all(p.get_future(), q.get_future());
            auto r = all.then(tpp::this_thread::get_id(), [&](auto f) {
                turn();
                ran = f.is_ready();
            });
            q.set_value(1);
            p.set_value(1);
            turn();
            EXPECT(ran && r.is_ready());
        })
        .join();
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init_data d;
    tpp::init(d);
    SCENARIO(ranges);
    SCENARIO(variadic);
    SCENARIO(from_other_threads);
    SCENARIO(abandoned);
    SCENARIO(reentrant);
    return done();
}
