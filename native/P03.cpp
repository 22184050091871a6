#include "common.hpp"

static std::set<tpp::thread::id> listed()
{
    auto v = tpp::get_all_registered_threads();
    std::set<tpp::thread::id> s(v.begin(), v.end());
    EXPECT(s.size() == v.size());
    EXPECT(s.count(0) == 0);
    return s;
}

static std::set<tpp::thread::id> ever;

static void again()
{
    std::thread(
        []
        {
            auto before = listed();
            EXPECT(tpp::this_thread::get_id() == 0);
            for(int i = 0; i < 10; ++i)
            {
                tpp::this_thread::register_this_thread(i % 2 ? "x" : "");
                auto id = tpp::this_thread::get_id();
                EXPECT(id != 0);
                EXPECT(ever.insert(id).second);
                tpp::this_thread::register_this_thread();
                EXPECT(tpp::this_thread::get_id() == id);
                EXPECT(tpp::register_thread(std::this_thread::get_id(), "y") == id);
                auto now = listed();
                EXPECT(now.size() == before.size() + 1 && now.count(id) == 1);
                tpp::this_thread::unregister_this_thread();
                EXPECT(tpp::this_thread::get_id() == 0);
                EXPECT(listed() == before);
                EXPECT(!tpp::invoke(id, [] {}));
                EXPECT(tpp::get_pending_task_count(id) == 0);
                tpp::this_thread::unregister_this_thread();
                EXPECT(listed() == before);
            }
        })
        .join();
}

struct last_words
{
    tpp::thread::id id;
    std::atomic<int>* n;
    ~last_words()
    {
        // destroyed with the left-over task: by now the thread is gone for everybody
        EXPECT(tpp::this_thread::get_id() == 0);
        EXPECT(!tpp::this_thread::is_registered());
        EXPECT(!tpp::invoke(id, [] {}));
        EXPECT(tpp::get_pending_task_count(id) == 0);
        EXPECT(listed().count(id) == 0);
        ++*n;
    }
};

static void left_over()
{
    std::atomic<int> n{0};
    std::thread(
        [&]
        {
            tpp::this_thread::register_this_thread();
            auto id = tpp::this_thread::get_id();
            EXPECT(ever.insert(id).second);
            for(int i = 0; i < 4; ++i)
            {
                auto p = std::shared_ptr<last_words>(new last_words{id, &n});
                EXPECT(tpp::invoke(id,
                                   [p, i]
                                   {
                                       // half of the batch is left
                                       EXPECT(i < 2);
                                       (void)p->id;
                                       if(i == 1)
                                           tpp::notify_for_exit(tpp::this_thread::get_id());
                                   }));
            }
            tpp::this_thread::unregister_this_thread();
            EXPECT(n == 4);
            // the same native thread again
            tpp::this_thread::register_this_thread();
            EXPECT(ever.insert(tpp::this_thread::get_id()).second);
            EXPECT(!tpp::this_thread::notified_for_exit());
            tpp::this_thread::unregister_this_thread();
        })
        .join();
}

static void by_others()
{
    // registered from the outside, before, while or after the thread does it itself
    auto before = listed();
    for(int i = 0; i < 100; ++i)
    {
        std::atomic<int> phase{0};
        std::atomic<tpp::thread::id> own{0};
        std::thread t(
            [&]
            {
                while(phase == 0)
                    ;
                tpp::this_thread::register_this_thread();
                own = tpp::this_thread::get_id();
                while(phase == 1)
                    std::this_thread::yield();
                tpp::this_thread::unregister_this_thread();
            });
        phase = 1;
        auto a = tpp::register_thread(t.get_id());
        EXPECT(eventually([&] { return own != 0; }));
        EXPECT(own == a);
        EXPECT(ever.insert(a).second);
        EXPECT(tpp::register_thread(t.get_id(), "again") == a);
        EXPECT(listed().count(a) == 1);
        EXPECT(listed().size() == before.size() + 1);
        phase = 2;
        t.join();
        EXPECT(listed() == before);
    }
}

static void many()
{
    std::atomic<int> up{0}, go{0};
    std::vector<std::thread> ts;
    std::vector<tpp::thread::id> ids(16);
    for(int i = 0; i < 16; ++i)
        ts.push_back(registered(
            [&, i]
            {
                ids[i] = tpp::this_thread::get_id();
                ++up;
                while(!go)
                    std::this_thread::yield();
            }));
    EXPECT(eventually([&] { return up == 16; }));
    auto s = listed();
    for(auto id : ids)
    {
        EXPECT(s.count(id) == 1);
        EXPECT(ever.insert(id).second);
    }
    go = 1;
    for(auto& t : ts)
        t.join();
    for(auto id : ids)
        EXPECT(listed().count(id) == 0);
}

int main(int argc, char** argv)
{
    begin(argc, argv);
    tpp::init();
    EXPECT(tpp::main_thread::get_id() == tpp::this_thread::get_id());
    ever.insert(tpp::this_thread::get_id());
    for(int i = 0; i < 10; ++i)
    {
        SCENARIO(again);
        SCENARIO(left_over);
        SCENARIO(many);
    }
    SCENARIO(by_others);
    EXPECT(listed().size() == 1);
    EXPECT(tpp::shutdown() == 0);
    EXPECT(listed().empty());
    return done();
}
