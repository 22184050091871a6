// helpers of the scenarios about when_all and when_any
#pragma once
#include "common.hpp"
#include <algorithm>
#include <numeric>

template<typename F>
bool ready(const F& f)
{
    return f.valid() && f.is_ready();
}

// runs f once for every order of n inputs and every set of inputs that are ready in advance
template<typename F>
void all_orders(size_t n, F f)
{
    std::vector<size_t> o(n);
    std::iota(o.begin(), o.end(), size_t(0));
    do
    {
        for(size_t pre = 0; pre <= n; ++pre)
            f(o, pre);
    } while(std::next_permutation(o.begin(), o.end()));
}

template<typename Fut>
struct inputs
{
    std::vector<tpp::promise<int>> p;
    std::vector<Fut> f;
    explicit inputs(size_t n)
        : p(n)
    {
        for(auto& x : p)
            f.emplace_back(x.get_future());
    }
    // the i-th value, or an error
    void complete(size_t i)
    {
        if(i % 3 == 2)
            p[i].set_exception(std::make_exception_ptr(int(i)));
        else
            p[i].set_value(int(i) * 10);
    }
};

template<typename Fut>
bool holds(Fut& f, size_t i)
{
    if(!ready(f))
        return false;
    try
    {
        return f.get() == int(i) * 10 && i % 3 != 2;
    }
    catch(int e)
    {
        return e == int(i) && i % 3 == 2;
    }
}

inline void turn()
{
    // continuations of this thread that are queued
    for(int i = 0; i < 8; ++i)
        tpp::this_thread::process();
}
