#include "combine.hpp"

template<typename Fut>
void range_orders()
{
    for(size_t n = 0; n <= 4; ++n)
        all_orders(n, [n](const std::vector<size_t>& order, size_t pre) {
            inputs<Fut> in(n);
            for(size_t k = 0; k < pre; ++k)
                in.complete(order[k]);
            auto any = tpp::when_any(in.f.begin(), in.f.end());
            EXPECT(any.valid());
            for(auto& f : in.f)
                EXPECT(f.valid() == std::is_copy_constructible<Fut>::value);
            turn();
            if(pre == 0 && n > 0)
            {
                EXPECT(!any.is_ready());
                in.complete(order[0]);
                turn();
                pre = 1;
            }
            EXPECT(any.is_ready());
            auto r = any.get();
            EXPECT(r.futures.size() == n);
            size_t first = n == 0 ? size_t(-1) : *std::min_element(order.begin(), order.begin() + long(pre));
            EXPECT(r.index == first);
            for(size_t i = 0; i < n; ++i)
                EXPECT(r.futures[i].valid());
            for(size_t k = 0; k < n; ++k)
            {
                if(k >= pre)
                {
                    EXPECT(!r.futures[order[k]].is_ready());
                    in.complete(order[k]);
                    turn();
                }
                EXPECT(holds(r.futures[order[k]], order[k]));
            }
        });
}

static void ranges()
{
    registered([] { range_orders<tpp::future<int>>(); }).join();
    registered([] { range_orders<tpp::shared_future<int>>(); }).join();
}

static void variadic()
{
    registered(
        [] {
            auto none = tpp::when_any();
            EXPECT(none.is_ready() && none.get().index == size_t(-1));
            all_orders(4, [](const std::vector<size_t>& order, size_t pre) {
                tpp::promise<int> a, b, d;
                tpp::promise<void> c;
                auto fa = a.get_future();
                auto sb = b.get_future().share();
                auto complete = [&](size_t i) {
                    switch(i)
                    {
                        case 0: a.set_value(10); break;
                        case 1: b.set_value(20); break;
                        case 2: c.set_value(); break;
                        default: d.set_exception(std::make_exception_ptr(4)); break;
                    }
                };
                for(size_t k = 0; k < pre; ++k)
                    complete(order[k]);
                auto any = tpp::when_any(fa, sb, c.get_future(), d.get_future().share());
                EXPECT(!fa.valid() && sb.valid());
                turn();
                if(pre == 0)
                {
                    EXPECT(!any.is_ready());
                    complete(order[0]);
                    turn();
                    pre = 1;
                }
                EXPECT(any.is_ready());
                auto r = any.get();
                EXPECT(r.index == *std::min_element(order.begin(), order.begin() + long(pre)));
                auto& f = r.futures;
                EXPECT(std::get<0>(f).valid() && std::get<1>(f).valid() && std::get<2>(f).valid() && std::get<3>(f).valid());
                for(size_t k = pre; k < 4; ++k)
                    complete(order[k]);
                turn();
                EXPECT(ready(std::get<0>(f)) && std::get<0>(f).get() == 10);
                EXPECT(ready(std::get<1>(f)) && std::get<1>(f).get() == 20);
                EXPECT(ready(std::get<2>(f)) && ready(std::get<3>(f)));
                try
                {
                    std::get<3>(f).get();
                    EXPECT(false);
                }
                catch(int e)
                {
                    EXPECT(e == 4);
                }
            });
        })
        .join();
}

static void from_other_threads()
{
    for(int round = 0; round < 60; ++round)
        registered(
            [] {
                size_t n = 1 + size_t(rnd(6));
                inputs<tpp::future<int>> in(n);
                inputs<tpp::shared_future<int>> in2(n);
                std::thread t([&] {
                    for(size_t i = 0; i < n; ++i)
                    {
                        jitter();
                        in.complete(n - 1 - i);
                        in2.complete(i);
                    }
                });
                jitter();
                auto any = tpp::when_any(in.f.begin(), in.f.end());
                auto any2 = tpp::when_any(in2.f.begin(), in2.f.end());
                auto r = any.get();
                auto r2 = any2.get();
                EXPECT(r.futures.size() == n && r2.futures.size() == n);
                EXPECT(r.index < n && ready(r.futures[r.index]));
                EXPECT(r2.index < n && ready(r2.futures[r2.index]));
                t.join();
                turn();
                for(size_t i = 0; i < n; ++i)
                    EXPECT(holds(r.futures[i], i) && holds(r2.futures[i], i));
            })
            .join();
}

static void abandoned()
{
    registered(
        [] {
            auto p = std::make_unique<tpp::promise<int>>();
            tpp::promise<int> q;
            auto any = tpp::when_any(q.get_future(), p->get_future());
            p.reset();
            turn();
            EXPECT(any.is_ready());
            auto r = any.get();
            EXPECT(r.index == 1 && ready(std::get<1>(r.futures)) && std::get<0>(r.futures).valid() && !std::get<0>(r.futures).is_ready());
            q.set_value(3);
            turn();
            EXPECT(std::get<0>(r.futures).get() == 3);
        })
        .join();
    tpp::promise<int> p, q;
    tpp::future<tpp::when_any_result<std::tuple<tpp::future<int>, tpp::future<int>>>> any;
    registered([&] { any = tpp::when_any(p.get_future(), q.get_future()); }).join();
    EXPECT(!any.is_ready());
    p.set_value(1);
    q.set_value(2);
    EXPECT(eventually([&] { return any.is_ready(); }));
}

static void reentrant()
{
    // a continuation of the combination that processes the tasks of its thread, among them another continuation of the
    // inputs
    registered(
        [] {
            tpp::promise<int> p, q;
            bool ran = false;
            auto any = tpp::when_any(p.get_future(), q.get_future());
            auto r = any.then(tpp::this_thread::get_id(), [&](auto f) {
                turn();
                ran = f.is_ready();
            });
            std::thread([&] {
                p.set_value(1);
                q.set_value(1);
            }).join();
            turn();
            EXPECT(ran && r.is_ready());
        })
        .join();
}

static void visits()
{
    auto t = std::make_tuple(1, 2, 3, 4);
    for(size_t i : {size_t(0), size_t(1), size_t(2), size_t(3), size_t(4), size_t(5), size_t(-1)})
    {
        int calls = 0, got = 0;
        bool thrown = false;
        try
        {
            tpp::visit_at(t, i, [&](int v) {
                ++calls;
                got = v;
            });
        }
        catch(const std::exception&)
        {
            thrown = true;
        }
        EXPECT(thrown == (i > 3));
        EXPECT(calls == (i > 3 ? 0 : 1));
        EXPECT(thrown || got == int(i) + 1);
    }
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init_data d;
    tpp::init(d);
    SCENARIO(visits);
    SCENARIO(ranges);
    SCENARIO(variadic);
    SCENARIO(from_other_threads);
    SCENARIO(abandoned);
    SCENARIO(reentrant);
    return done();
}
