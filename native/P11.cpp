#include "common.hpp"

using lock_t = std::unique_lock<std::mutex>;

static void order_of_notify_one()
{
    for(int round = 0; round < 8; ++round)
    {
        const int n = 4;
        std::mutex m;
        tpp::condition_variable cv;
        int waiting = 0;
        std::vector<int> woken;
        std::vector<std::thread> ts;
        for(int i = 0; i < n; ++i)
        {
            ts.push_back(registered(
                [&, i]
                {
                    lock_t l(m);
                    ++waiting;
                    cv.wait(l);
                    EXPECT(l.owns_lock());
                    woken.push_back(i);
                }));
            // the lock is free again only after waiter i is registered
            EXPECT(eventually(
                [&]
                {
                    lock_t l(m);
                    return waiting == i + 1;
                }));
        }
        for(int i = 0; i < n; ++i)
        {
            if(i % 2)
                cv.notify_one();
            else
                registered([&] { cv.notify_one(); }).join();
            EXPECT(eventually(
                [&]
                {
                    lock_t l(m);
                    return int(woken.size()) == i + 1;
                }));
            std::this_thread::sleep_for(300us);
            lock_t l(m);
            EXPECT(int(woken.size()) == i + 1);
            EXPECT(woken[size_t(i)] == i);
        }
        for(auto& t : ts)
            t.join();
    }
}

static void notify_all_reaches_all()
{
    for(int round = 0; round < 30; ++round)
    {
        const int n = 1 + rnd(5);
        std::mutex m;
        tpp::condition_variable cv;
        int waiting = 0;
        std::atomic<int> out{0};
        std::vector<std::thread> ts;
        for(int i = 0; i < n; ++i)
            ts.push_back(registered(
                [&]
                {
                    lock_t l(m);
                    ++waiting;
                    cv.wait(l);
                    EXPECT(l.owns_lock());
                    ++out;
                }));
        EXPECT(eventually(
            [&]
            {
                lock_t l(m);
                return waiting == n;
            }));
        if(round % 2)
            cv.notify_all();
        else
            registered([&] { cv.notify_all(); }).join();
        for(auto& t : ts)
            t.join();
        EXPECT(out == n);
    }
}

static void ping_pong()
{
    // a notification lost between the check and the sleep is a hang
    std::mutex m;
    tpp::condition_variable cv;
    int turn = 0;
    const int rounds = 1500;
    auto player = [&](int me, bool all)
    {
        for(int i = 0; i < rounds; ++i)
        {
            {
                lock_t l(m);
                while(turn != me)
                    cv.wait(l);
                turn = 1 - me;
            }
            if(rnd(4) == 0)
                jitter();
            all ? cv.notify_all() : cv.notify_one();
        }
    };
    for(bool all : {false, true})
    {
        std::thread a = registered([&] { player(0, all); });
        std::thread b = registered([&] { player(1, all); });
        a.join();
        b.join();
    }
}

static void only_a_notification_ends_it()
{
    std::mutex m;
    tpp::condition_variable cv;
    std::atomic<tpp::thread::id> id{0};
    std::atomic<int> ran{0};
    std::atomic<bool> notified{false}, out{false};
    std::thread w = registered(
        [&]
        {
            lock_t l(m);
            id = tpp::this_thread::get_id();
            cv.wait(l);
            EXPECT(l.owns_lock());
            EXPECT(notified);
            out = true;
        });
    while(id == 0)
        std::this_thread::yield();
    for(int i = 0; i < 50; ++i)
    {
        EXPECT(tpp::invoke(id, [&] { ++ran; }));
        tpp::notify(id);
        jitter();
    }
    EXPECT(eventually([&] { return ran == 50; }));
    std::this_thread::sleep_for(2ms);
    EXPECT(!out);
    {
        lock_t l(m);
        notified = true;
    }
    cv.notify_one();
    w.join();
    EXPECT(out);
}

static void nested_wait_leaves_the_outer_registered()
{
    for(int mode = 0; mode < 4; ++mode)
    {
        std::mutex m;
        tpp::condition_variable cv;
        std::atomic<tpp::thread::id> id{0};
        std::atomic<bool> inner{false}, out{false};
        std::thread w = registered(
            [&]
            {
                lock_t l(m);
                id = tpp::this_thread::get_id();
                if(mode < 2)
                    cv.wait(l);
                else
                    EXPECT(cv.wait_for(l, 30s) == std::cv_status::no_timeout);
                out = true;
            });
        while(id == 0)
            std::this_thread::yield();
        {
            lock_t l(m);
        }
        EXPECT(tpp::invoke(id,
                           [&]
                           {
                               lock_t l(m);
                               EXPECT(cv.wait_for(l, 3ms) == std::cv_status::timeout);
                               EXPECT(l.owns_lock());
                               inner = true;
                           }));
        EXPECT(eventually([&] { return inner.load(); }));
        std::this_thread::sleep_for(500us);
        EXPECT(!out);
        mode % 2 ? cv.notify_all() : cv.notify_one();
        EXPECT(eventually([&] { return out.load(); }));
        w.join();
    }
}

static void who_left_takes_no_notification()
{
    for(int mode = 0; mode < 4; ++mode)
    {
        std::mutex m;
        tpp::condition_variable cv;
        bool ready = false;
        std::atomic<bool> out{false};
        std::atomic<tpp::thread::id> first{0};
        std::atomic<bool> left{false}, end{false};
        std::thread a = registered(
            [&]
            {
                {
                    lock_t l(m);
                    first = tpp::this_thread::get_id();
                    if(mode < 2)
                        EXPECT(cv.wait_for(l, 4ms) == std::cv_status::timeout);
                    else
                        cv.wait(l); // ended by the exit request
                    EXPECT(l.owns_lock());
                }
                left = true;
                while(!end)
                    std::this_thread::sleep_for(100us);
            });
        while(first == 0)
            std::this_thread::yield();
        std::thread b = registered(
            [&]
            {
                lock_t l(m);
                ready = true;
                cv.wait(l);
                out = true;
            });
        EXPECT(eventually(
            [&]
            {
                lock_t l(m);
                return ready;
            }));
        if(mode >= 2)
            tpp::notify_for_exit(first);
        EXPECT(eventually([&] { return left.load(); }));
        cv.notify_one();
        EXPECT(eventually([&] { return out.load(); }));
        end = true;
        a.join();
        b.join();
    }
}

static void unregistered_waiter()
{
    // has no queue to sleep on: returns at once and takes nothing away from the others
    std::mutex m;
    tpp::condition_variable cv;
    std::atomic<bool> out{false};
    bool ready = false;
    std::thread(
        [&]
        {
            lock_t l(m);
            cv.wait(l);
            EXPECT(l.owns_lock());
        })
        .join();
    std::thread b = registered(
        [&]
        {
            lock_t l(m);
            ready = true;
            cv.wait(l);
            out = true;
        });
    EXPECT(eventually(
        [&]
        {
            lock_t l(m);
            return ready;
        }));
    cv.notify_one();
    EXPECT(eventually([&] { return out.load(); }));
    b.join();
}

static void crowd()
{
    // tokens handed out by notify_one: every one is consumed, none is lost
    std::mutex m;
    tpp::condition_variable cv;
    int tokens = 0;
    bool stop = false;
    std::atomic<int> used{0};
    std::vector<std::thread> ts;
    for(int i = 0; i < 4; ++i)
        ts.push_back(registered(
            [&, i]
            {
                lock_t l(m);
                for(;;)
                {
                    while(tokens == 0 && !stop)
                    {
                        if(i % 2)
                            cv.wait_for(l, std::chrono::microseconds(50 + rnd(200)));
                        else
                            cv.wait(l);
                    }
                    if(tokens == 0)
                        break;
                    --tokens;
                    ++used;
                }
            }));
    for(int i = 0; i < 1500; ++i)
    {
        {
            lock_t l(m);
            ++tokens;
        }
        cv.notify_one();
        if(rnd(3) == 0)
            jitter();
    }
    EXPECT(eventually([&] { return used == 1500; }));
    {
        lock_t l(m);
        stop = true;
    }
    cv.notify_all();
    for(auto& t : ts)
        t.join();
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init();
    SCENARIO(order_of_notify_one);
    SCENARIO(notify_all_reaches_all);
    SCENARIO(ping_pong);
    SCENARIO(only_a_notification_ends_it);
    SCENARIO(nested_wait_leaves_the_outer_registered);
    SCENARIO(who_left_takes_no_notification);
    SCENARIO(unregistered_waiter);
    SCENARIO(crowd);
    EXPECT(tpp::shutdown() == 0);
    return done();
}
