#include "common.hpp"

static void order_on_own_thread()
{
    // random pushes, nested processing and timed waits on one thread, compared with a plain queue
    registered(
        []
        {
            auto id = tpp::this_thread::get_id();
            if(rnd(2))
                tpp::set_thread_config(id, {std::size_t(rnd(4)), std::size_t(rnd(8))});
            std::deque<int> model;
            int next = 0, running = 0, started = 0;
            std::function<void(int)> act;
            auto push = [&]
            {
                int n = next++;
                model.push_back(n);
                EXPECT(tpp::invoke(id,
                                   [&, n]
                                   {
                                       EXPECT(!model.empty());
                                       EXPECT(model.front() == n);
                                       model.pop_front();
                                       ++started;
                                       ++running;
                                       EXPECT(tpp::get_pending_task_count(id) == model.size() + std::size_t(running));
                                       act(3);
                                       EXPECT(tpp::get_pending_task_count(id) == model.size() + std::size_t(running));
                                       --running;
                                   }));
            };
            act = [&](int budget)
            {
                if(running > 4 || next > 400)
                    return;
                for(int i = rnd(budget + 1); i > 0; --i)
                {
                    int k = rnd(10);
                    if(k < 6)
                        push();
                    else if(k < 7)
                        tpp::this_thread::process();
                    else if(k < 8)
                        tpp::this_thread::wait_for(1us);
                    else if(k < 9)
                        tpp::this_thread::process_for(50us);
                    else if(!model.empty())
                        tpp::this_thread::wait();
                }
            };
            for(int r = 0; r < 20; ++r)
            {
                act(12);
                EXPECT(tpp::get_pending_task_count(id) == model.size());
            }
            tpp::this_thread::process();
            EXPECT(model.empty());
            EXPECT(started == next);
            EXPECT(tpp::get_pending_task_count(id) == 0);
        })
        .join();
}

static void producers()
{
    auto t = tpp::make_thread("w");
    auto id = t.get_id();
    const int P = 4, N = 300;
    std::vector<int> seen(P, 0);
    std::atomic<int> total{0};
    std::atomic<int> bad{0};
    std::vector<std::thread> ps;
    for(int p = 0; p < P; ++p)
        ps.emplace_back(
            [&, p]
            {
                for(int i = 0; i < N; ++i)
                {
                    if(!tpp::invoke(id,
                                    [&, p, i]
                                    {
                                        if(tpp::this_thread::get_id() != id || seen[p] != i)
                                            ++bad;
                                        seen[p] = i + 1;
                                        ++total;
                                        if(rnd(16) == 0)
                                            tpp::this_thread::process();
                                    }))
                        ++bad;
                    if(rnd(20) == 0)
                        jitter();
                }
            });
    for(auto& p : ps)
        p.join();
    EXPECT(eventually([&] { return total == P * N || bad != 0; }));
    EXPECT(bad == 0);
    EXPECT(eventually([&] { return tpp::get_pending_task_count(id) == 0; }));
    EXPECT(total == P * N);
}

static void refused()
{
    auto guard = std::make_shared<int>(7);
    tpp::task t = [guard] { EXPECT(false); };
    EXPECT(!tpp::detail::invoke_packaged_task(tpp::invalid_id(), t));
    EXPECT(t != nullptr);
    EXPECT(!tpp::detail::invoke_packaged_task(987654321, t));
    EXPECT(t != nullptr);
    EXPECT(guard.use_count() == 2);
    auto w = tpp::make_thread("w");
    tpp::task empty;
    EXPECT(!tpp::detail::invoke_packaged_task(w.get_id(), empty));
    EXPECT(tpp::get_pending_task_count(w.get_id()) == 0);
    EXPECT(tpp::get_pending_task_count(987654321) == 0);
    EXPECT(tpp::get_pending_task_count(tpp::invalid_id()) == 0);
    // accepted tasks of a thread that unregisters are dropped, later ones are refused
    tpp::thread::id id{};
    std::atomic<int> dropped{0};
    struct probe
    {
        std::atomic<int>* n;
        ~probe()
        {
            ++*n;
        }
    };
    registered(
        [&]
        {
            id = tpp::this_thread::get_id();
            auto p = std::shared_ptr<probe>(new probe{&dropped});
            EXPECT(tpp::invoke(id, [p] { EXPECT(false); }));
        })
        .join();
    EXPECT(dropped == 1);
    EXPECT(!tpp::invoke(id, [] { EXPECT(false); }));
}

static void handed_over_while_unregistering()
{
    // a task accepted by invoke is never destroyed by the invoker's side, refused ones stay with it
    for(int i = 0; i < 60; ++i)
    {
        std::atomic<tpp::thread::id> id{0};
        std::thread w(
            [&]
            {
                tpp::this_thread::register_this_thread();
                id = tpp::this_thread::get_id();
                jitter();
                tpp::this_thread::unregister_this_thread();
            });
        while(id == 0)
            ;
        for(int k = 0; k < 50; ++k)
        {
            auto p = std::make_shared<int>(k);
            tpp::task t = [p] { (void)p; };
            bool ok = tpp::detail::invoke_packaged_task(id, t);
            EXPECT(ok == (t == nullptr));
            if(!ok)
                break;
        }
        w.join();
    }
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init();
    for(int i = 0; i < 15; ++i)
    {
        SCENARIO(order_on_own_thread);
        if(i < 5)
            SCENARIO(producers);
    }
    SCENARIO(refused);
    SCENARIO(handed_over_while_unregistering);
    EXPECT(tpp::shutdown() == 0);
    return done();
}
