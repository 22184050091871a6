#include "common.hpp"

#include <system_error>

static void exclusion_and_progress()
{
    tpp::mutex m;
    int counter = 0;
    std::atomic<int> inside{0};
    std::vector<std::thread> ts;
    const int n = 6, k = 700;
    for(int i = 0; i < n; ++i)
        ts.push_back(registered(
            [&]
            {
                for(int j = 0; j < k; ++j)
                {
                    if(rnd(4) == 0)
                    {
                        while(!m.try_lock())
                            std::this_thread::yield();
                    }
                    else
                        m.lock();
                    EXPECT(++inside == 1);
                    counter = counter + 1;
                    if(rnd(6) == 0)
                        jitter();
                    EXPECT(--inside == 0);
                    m.unlock();
                    if(rnd(6) == 0)
                        jitter();
                }
            }));
    for(auto& t : ts)
        t.join();
    EXPECT(counter == n * k);
}

static void handover()
{
    // two threads only: a wake-up that is missed is not repaired by a third one
    for(int round = 0; round < 4; ++round)
    {
        tpp::mutex m;
        std::vector<std::thread> ts;
        for(int i = 0; i < 2; ++i)
            ts.push_back(registered(
                [&]
                {
                    for(int j = 0; j < 3000; ++j)
                    {
                        m.lock();
                        m.unlock();
                    }
                }));
        for(auto& t : ts)
            t.join();
    }
}

static void misuse()
{
    tpp::mutex m;
    auto code = [](const std::function<void()>& f)
    {
        try
        {
            f();
        }
        catch(const std::system_error& e)
        {
            return e.code();
        }
        return std::error_code{};
    };
    registered(
        [&]
        {
            EXPECT(code([&] { m.unlock(); }));
            EXPECT(m.try_lock());
            EXPECT(!m.try_lock());
            EXPECT(code([&] { m.lock(); }) == std::errc::resource_deadlock_would_occur);
            registered(
                [&]
                {
                    EXPECT(!m.try_lock());
                    EXPECT(code([&] { m.unlock(); }));
                    EXPECT(!m.try_lock());
                })
                .join();
            // still ours
            EXPECT(code([&] { m.lock(); }) == std::errc::resource_deadlock_would_occur);
            m.unlock();
            EXPECT(code([&] { m.unlock(); }));
            m.lock();
            m.unlock();
            registered(
                [&]
                {
                    EXPECT(m.try_lock());
                    m.unlock();
                    m.lock();
                    m.unlock();
                })
                .join();
        })
        .join();
}

static void blocked_owner_change()
{
    for(int i = 0; i < 100; ++i)
    {
        tpp::mutex m;
        std::atomic<bool> got{false}, owned{false}, asked{false};
        std::thread a = registered(
            [&]
            {
                m.lock();
                owned = true;
                while(!asked)
                    std::this_thread::yield();
                jitter();
                EXPECT(!got);
                m.unlock();
            });
        std::thread b = registered(
            [&]
            {
                while(!owned)
                    std::this_thread::yield();
                asked = true;
                m.lock();
                got = true;
                m.unlock();
            });
        a.join();
        b.join();
        EXPECT(got);
    }
}

static void asked_to_exit()
{
    // a thread that was asked to exit still gets the mutex only when it is free
    tpp::mutex m;
    std::atomic<bool> got{false};
    std::atomic<tpp::thread::id> id{0};
    std::thread a = registered(
        [&]
        {
            m.lock();
            std::thread b = registered(
                [&]
                {
                    id = tpp::this_thread::get_id();
                    m.lock();
                    got = true;
                    m.unlock();
                });
            while(id == 0)
                std::this_thread::yield();
            jitter();
            tpp::notify_for_exit(id);
            std::this_thread::sleep_for(3ms);
            EXPECT(!got);
            m.unlock();
            b.join();
            EXPECT(got);
        });
    a.join();
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init();
    SCENARIO(misuse);
    SCENARIO(blocked_owner_change);
    SCENARIO(asked_to_exit);
    SCENARIO(handover);
    SCENARIO(exclusion_and_progress);
    EXPECT(tpp::shutdown() == 0);
    return done();
}
