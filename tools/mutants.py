"""Try the contracts on small changes of the code:  python3-vt tools/mutants.py [-q] [id ...]

Each entry is a replacement of text in a scratch copy of /repo; the contracts of all properties are run against the copy.
'ok' entries keep the behaviour and must stay quiet; the others name a property that must be reported.
Development aid only; no check uses it.
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

T = 'threadpp/thread.cpp'
TH = 'threadpp/thread.h'
S = 'threadpp/detail/semaphore.cpp'
CV = 'threadpp/condition_variable.hpp'
MX = 'threadpp/mutex.hpp'
FS = 'threadpp/detail/future_state.hpp'
FH = 'threadpp/future.hpp'
TP = 'threadpp/thread_pool.cpp'
TPH = 'threadpp/thread_pool.h'
WH = 'threadpp/when_all_any.hpp'
M = [
    # id, property ('ok': behaviour kept), contracts to run, file, old, new
    ('t01', 'P02', 'Wait,WaitFor', T, "    local_context.wakeup = false;\n    // guard for spurious wakeups\n    local_context.wakeup_event.wait(lock, predicate);", "    lock.unlock();\n    lock.lock();\n    local_context.wakeup = false;\n    local_context.wakeup_event.wait(lock, predicate);"),
    ('t02', 'P02', 'InvokePackagedTask', T, "    context->wakeup = true;\n    context->wakeup_event.notify_all();\n    return true;", "    context->wakeup_event.notify_all();\n    return true;"),
    ('t03', 'P02', 'InvokePackagedTask', T, "    context->wakeup = true;\n    context->wakeup_event.notify_all();\n    return true;", "    context->wakeup = true;\n    return true;"),
    ('t04', 'P02', 'Wait', T, "    if(notified_for_exit())\n    {\n        return;\n    }\n\n    // guard", "    // guard"),
    ('t05', 'P01', 'Wait,Process', T, "        local_context.processing_idx++;\n", "        local_context.processing_idx += 2;\n"),
    ('t06', 'P01', 'Wait,Process', T, "if(!has_tasks_to_process(context) && !context.tasks.empty())", "if(!context.tasks.empty())"),
    ('t07', 'P01', 'Wait,Process,PendingCount', T, "        lock.lock();\n        local_context.processing_stack_depth--;\n", "        local_context.processing_stack_depth--;\n        lock.lock();\n"),
    ('t08', 'P01', 'PendingCount', T, "const auto total = processing + left_to_process + pending;", "const auto total = left_to_process + pending;"),
    ('t09', 'P03', 'RegisterThread,RegisterThisThread', T, "id = ++global_context.id_generator;", "id = global_context.contexts.size() + 1;"),
    ('t10', 'P03', 'UnregisterThisThread', T, "    global_context.id_map.erase(context->native_thread_id);\n", ""),
    ('t11', 'P19', 'UnregisterThisThread', T, "    if(global_context.contexts.empty())\n    {\n        global_context.cleanup_event.notify_all();", "    if(global_context.contexts.size() == 1)\n    {\n        global_context.cleanup_event.notify_all();"),
    ('t12', 'P19', 'NotifyForExit', T, "    context->exit = true;\n", "    if(context->tasks.empty())\n    {\n        context->exit = true;\n    }\n"),
    ('t13', 'P19', 'Shutdown', T, "auto result = global_context.cleanup_event.wait_for(lock, timeout, predicate);", "auto result = global_context.cleanup_event.wait_for(lock, timeout) == std::cv_status::no_timeout;"),
    ('o14', 'ok', 'InvokePackagedTask', T, "    lock.unlock();\n\n    std::lock_guard<std::mutex> remote_lock(context->tasks_mutex);\n\n    if(context->closed)", "    std::lock_guard<std::mutex> remote_lock(context->tasks_mutex);\n\n    if(context->closed)"),
    ('t15', 'P04', 'Wait', T, "            task = {};\n        }\n\n        lock.lock();", "        }\n\n        lock.lock();\n        task = {};"),
    ('t16', 'P02', 'WaitFor', T, "    if(!local_context.wakeup_event.wait_for(lock, wait_duration, predicate))\n    {\n        status = std::cv_status::timeout;\n    }", "    if(local_context.wakeup_event.wait_for(lock, wait_duration) == std::cv_status::timeout)\n    {\n        status = std::cv_status::timeout;\n    }"),
    ('t17', 'P19', 'ThreadSwap,ThreadAssign', T, "    std::swap(id_, th.id_);\n", "    id_ = th.id_;\n"),
    ('t18', 'P19', 'ThreadDtor,ThreadJoin', T, "    notify_for_exit(get_id());\n    std::thread::join();", "    std::thread::join();"),
    ('t19', 'P03', 'UnregisterThisThread', T, "    set_local_context(nullptr);\n    unregister_thread_impl(id);", "    unregister_thread_impl(id);\n    set_local_context(nullptr);"),
    ('t20', 'P20', 'ListThreads', T, "    std::unique_lock<std::mutex> lock(global_context.mutex);\n\n    result.reserve(global_context.contexts.size());", "    result.reserve(global_context.contexts.size());\n    std::unique_lock<std::mutex> lock(global_context.mutex);\n"),
    ('t21', 'P01', 'InvokePackagedTask', T, "    context->tasks.emplace_back(std::move(f));", "    context->tasks.emplace(context->tasks.begin(), std::move(f));"),
    ('t22', 'P12', 'ProcessFor', T, "        now = clock::now();\n    }\n}", "        now = clock::now();\n        process_one(lock);\n    }\n}"),
    ('t23', 'P12', 'SleepFor', TH, None, None),
    ('t24', 'P19', 'ThreadBody', T, "                 this_thread::unregister_this_thread();\n             });", "                 if(this_thread::get_depth() != 0) this_thread::unregister_this_thread();\n             });"),
    ('o25', 'ok', 'WaitFor', T, "    local_context.wakeup = false;\n\n    process_one(lock);\n\n    return status;", "    process_one(lock);\n\n    local_context.wakeup = false;\n\n    return status;"),
    ('t26', 'P19', 'Init', T, "if(global_context.init_count++ != 0)", "if(global_context.init_count != 0)"),
    ('t27', 'P01', 'UnregisterThisThread,InvokePackagedTask', T, "    context->closed = true;\n", ""),
    ('t28', 'P03', 'RegisterThread', T, "    local_context->id = id;\n", "    local_context->id = global_context.id_generator.load();\n"),
    # behaviour kept
    ('o01', 'ok', 'Wait,WaitFor,Process', T, "        auto task = std::move(local_context.processing_tasks[local_context.processing_idx]);\n        local_context.processing_idx++;\n        local_context.processing_stack_depth++;", "        const auto i = local_context.processing_idx++;\n        ++local_context.processing_stack_depth;\n        auto task = std::move(local_context.processing_tasks.at(i));"),
    ('o02', 'ok', 'Process', T, "    while(!notified_for_exit())\n    {\n        if(!process_one(lock))\n        {\n            break;\n        }\n    }", "    for(bool more = true; more && !notified_for_exit();)\n    {\n        more = process_one(lock);\n    }"),
    ('o03', 'ok', 'NotifyForExit,InvokePackagedTask', T, "    context->exit = true;\n    context->wakeup = true;\n    context->wakeup_event.notify_all();", "    context->wakeup = true;\n    context->exit = true;\n    context->wakeup_event.notify_all();"),
    ('o04', 'ok', 'ListThreads,Shutdown', T, "    for(const auto& p : global_context.contexts)\n    {\n        result.emplace_back(p.first);\n    }", "    for(auto it = global_context.contexts.begin(); it != global_context.contexts.end(); ++it)\n    {\n        result.push_back(it->first);\n    }"),
    ('o05', 'ok', 'NotifyForExit', T, "    std::lock_guard<std::mutex> remote_lock(context->tasks_mutex);\n\n    context->exit = true;\n    context->wakeup = true;\n    context->wakeup_event.notify_all();", "    {\n        std::lock_guard<std::mutex> remote_lock(context->tasks_mutex);\n        context->exit = true;\n        context->wakeup = true;\n    }\n    context->wakeup_event.notify_all();"),
    ('o06', 'ok', 'Shutdown', T, "    for(const auto& id : all_threads)\n    {\n        notify_for_exit(id);\n    }", "    for(std::size_t i = 0; i < all_threads.size(); ++i)\n    {\n        notify_for_exit(all_threads[i]);\n    }"),
    ('o07', 'ok', 'RegisterThread,RegisterThisThread,RegisterThisThreadNamed,ThreadBody', T, "    auto id = [&]()\n    {\n        auto tidit = global_context.id_map.find(native_thread_id);\n        if(tidit != global_context.id_map.end())\n        {\n            return tidit->second;\n        }\n        return invalid_id();\n    }();\n", "    auto id = invalid_id();\n    if(global_context.id_map.count(native_thread_id) != 0)\n    {\n        id = global_context.id_map.at(native_thread_id);\n    }\n"),
    ('o08', 'ok', 'Wait', T, "    auto predicate = [&]() -> bool\n    {\n        return local_context.wakeup;\n    };\n\n    local_context.wakeup = false;\n    // guard for spurious wakeups\n    local_context.wakeup_event.wait(lock, predicate);\n", "    local_context.wakeup = false;\n    while(!local_context.wakeup)\n    {\n        local_context.wakeup_event.wait(lock);\n    }\n"),
    ('o09', 'ok', 'PendingCount,PendingCountDetailed', T, "    const auto left_to_process = context->processing_tasks.size() - context->processing_idx;\n    const auto pending = context->tasks.size();\n    const auto processing = context->processing_stack_depth.load();\n    const auto total = processing + left_to_process + pending;", "    auto total = context->tasks.size() + context->processing_tasks.size();\n    total -= context->processing_idx;\n    total += context->processing_stack_depth.load();"),
    ('o10', 'ok', 'UnregisterThisThread', T, "    global_context.id_map.erase(context->native_thread_id);\n    // now we can safely remove the context\n    // from the global container and the local variable\n    // will be the last reference to it\n    global_context.contexts.erase(id);", "    global_context.contexts.erase(it);\n    global_context.id_map.erase(context->native_thread_id);"),
    ('o11', 'ok', 'RegisterThread', T, "    global_context.id_map[native_thread_id] = id;\n    global_context.contexts.emplace(id, local_context);", "    global_context.contexts[id] = local_context;\n    global_context.id_map.emplace(native_thread_id, id);"),
    ('o12', 'ok', 'Shutdown', T, "    auto predicate = [&]() -> bool\n    {\n        return global_context.contexts.empty();\n    };\n\n    auto result = global_context.cleanup_event.wait_for(lock, timeout, predicate);", "    const auto deadline = clock::now() + timeout;\n    auto result = true;\n    while(!global_context.contexts.empty())\n    {\n        if(global_context.cleanup_event.wait_until(lock, deadline) == std::cv_status::timeout)\n        {\n            result = global_context.contexts.empty();\n            break;\n        }\n    }"),
    # waiter lists, condition variable, mutex
    ('s01', 'P11', 'CvNotifyOne', S, "            auto waiter = std::move(waiters_.front());\n            waiters_.erase(waiters_.begin());", "            auto waiter = std::move(waiters_.back());\n            waiters_.pop_back();"),
    ('s02', 'P11', 'CvNotifyOne', S, "    if(waiter.id != invalid_id())\n    {\n        notify(waiter.id);\n    }\n}\n\nvoid semaphore::notify_all", "    if(waiter.id != invalid_id() && waiter.id != this_thread::get_id())\n    {\n        notify(this_thread::get_id());\n    }\n}\n\nvoid semaphore::notify_all"),
    ('s03', 'P11', 'CvNotifyAll', S, "    for(auto& waiter : waiters)\n    {\n        if(waiter.id", "    for(size_t i = 1; i < waiters.size(); ++i)\n    {\n        auto& waiter = waiters[i];\n        if(waiter.id"),
    ('s04', 'P11', 'CvWait,CvWaitFor', S, "    if(it != std::end(waiters_))\n    {\n        return it->token;\n    }\n", ""),
    ('s05', 'P11', 'CvWait', S, "        if(before_wait)\n        {\n            before_wait();\n        }\n\n        this_thread::wait();", "        this_thread::wait();\n        if(before_wait)\n        {\n            before_wait();\n        }\n"),
    ('s06', 'P11', 'CvWait', S, "        this_thread::wait();\n\n        if(after_wait)\n        {\n            after_wait();\n        }\n", "        this_thread::wait();\n\n        if(after_wait)\n        {\n            after_wait();\n        }\n        break;\n"),
    ('s07', 'P12', 'CvWaitFor', S, "        if(now >= end_time)\n        {\n            status", "        if(now + std::chrono::milliseconds(1) >= end_time)\n        {\n            status"),
    ('s08', 'P12', 'CvWaitFor', S, "        auto time_left = end_time - now;", "        auto time_left = timeout_duration;"),
    ('s09', 'P12', 'CvWaitFor', S, "    auto status = std::cv_status::no_timeout;\n    auto now", "    auto status = std::cv_status::timeout;\n    auto now"),
    ('s10', 'P11', 'CvWaitFor', S, "    // remove waiter in case of timeout\n    if(added)\n    {\n        remove_waiter(id);\n    }\n", "    if(added && status == std::cv_status::no_timeout)\n    {\n        remove_waiter(id);\n    }\n"),
    ('s11', 'P11', 'CvNotifyOne', CV, "        sync_.notify_one();", "        sync_.notify_all();"),
    ('s12', 'P11', 'CvWait', CV, "        const auto after_wait = [&lock]()\n        {\n            lock.lock();\n        };\n\n        sync_.wait(", "        const auto after_wait = [&lock]()\n        {\n            lock.try_lock();\n        };\n\n        sync_.wait("),
    ('s13', 'P13', 'MutexUnlock', MX, "        if(owner_ != id)\n", "        if(owner_ == invalid_id())\n"),
    ('s14', 'P13', 'MutexUnlock', MX, "        guard.unlock();\n        sync_.notify_all();", "        guard.unlock();\n        if(id != invalid_id() && this_thread::notified_for_exit()) return;\n        sync_.notify_all();"),
    ('s15', 'P13', 'MutexTryLock', MX, "        owner_ = id;\n        return true;", "        return true;"),
    ('s16', 'P13', 'MutexLock', MX, "            if(owner_ == id)\n            {\n                throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur));\n            }\n", ""),
    ('s17', 'P13', 'MutexLock', MX, "            sync_.wait(guard);", "            guard.unlock();\n            guard.lock();\n            sync_.wait(guard);"),
    ('s18', 'P13', 'MutexLock', MX, "            sync_.wait(guard);\n", "            sync_.wait(guard);\n            break;\n"),
    ('s19', 'P11', 'CvWait', S, "    while(!token.is_interrupted())\n    {\n        if(this_thread::notified_for_exit())", "    while(!token.is_interrupted())\n    {\n        if(id == this_thread::get_id())"),
    ('o30', 'ok', 'CvWait,CvWaitFor', S, "    auto it = std::find_if(std::begin(waiters_),\n                           std::end(waiters_),\n                           [&id](const waiter_info& waiter)\n                           {\n                               return waiter.id == id;\n                           });\n    if(it != std::end(waiters_))\n    {\n        return it->token;\n    }\n", "    for(auto& waiter : waiters_)\n    {\n        if(waiter.id == id)\n        {\n            return waiter.token;\n        }\n    }\n"),
    ('o31', 'ok', 'CvNotifyAll', S, "        for(auto& waiter : waiters_)\n        {\n            waiter.token.interrupt();\n        }\n\n        return std::move(waiters_);", "        std::vector<waiter_info> all;\n        all.swap(waiters_);\n        for(size_t i = 0; i < all.size(); ++i)\n        {\n            all[i].token.interrupt();\n        }\n        return all;"),
    ('o32', 'ok', 'CvNotifyOne', S, "    auto waiter = [&]()\n    {\n        std::lock_guard<std::mutex> lock(mutex_);\n\n        if(!waiters_.empty())\n        {\n            // The standard doesn't specify any order/priority\n            // here. We are fair and wake the oldest one\n            auto waiter = std::move(waiters_.front());\n            waiters_.erase(waiters_.begin());\n            // a waiter which is no longer registered\n            // must be able to see why\n            waiter.token.interrupt();\n\n            return waiter;\n        }\n\n        return waiter_info();\n    }();\n\n    if(waiter.id != invalid_id())\n    {\n        notify(waiter.id);\n    }", "    auto id = invalid_id();\n    {\n        std::lock_guard<std::mutex> lock(mutex_);\n        if(waiters_.empty())\n        {\n            return;\n        }\n        auto& oldest = waiters_.front();\n        id = oldest.id;\n        oldest.token.interrupt();\n        waiters_.erase(waiters_.begin());\n    }\n    notify(id);"),
    ('o33', 'ok', 'CvWait,CvWaitFor,CvWaitUntil', S, "    waiters_.erase(std::remove_if(std::begin(waiters_),\n                                  std::end(waiters_),\n                                  [&id](const waiter_info& waiter)\n                                  {\n                                      return waiter.id == id;\n                                  }),\n                   std::end(waiters_));", "    for(auto it = waiters_.begin(); it != waiters_.end(); ++it)\n    {\n        if(it->id == id)\n        {\n            waiters_.erase(it);\n            break;\n        }\n    }"),
    ('o34', 'ok', 'CvWaitFor', S, "    while(!token.is_interrupted())\n    {\n        if(now >= end_time)\n        {\n            status = std::cv_status::timeout;\n            break;\n        }\n\n        if(this_thread::notified_for_exit())\n        {\n            break;\n        }\n        auto time_left = end_time - now;\n", "    for(;;)\n    {\n        if(token.is_interrupted() || now >= end_time)\n        {\n            if(!token.is_interrupted())\n            {\n                status = std::cv_status::timeout;\n            }\n            break;\n        }\n        if(this_thread::notified_for_exit())\n        {\n            break;\n        }\n        auto time_left = end_time - now;\n"),
    ('o35', 'ok', 'MutexUnlock', MX, "        owner_ = invalid_id();\n        flag_.clear();\n        guard.unlock();\n        sync_.notify_all();", "        flag_.clear();\n        owner_ = invalid_id();\n        guard.unlock();\n        sync_.notify_one();"),
    ('o36', 'ok', 'MutexTryLock', MX, "        if(flag_.test_and_set())\n        {\n            return false;\n        }\n\n        owner_ = id;\n        return true;", "        const bool taken = !flag_.test_and_set();\n        if(taken)\n        {\n            owner_ = id;\n        }\n        return taken;"),
    # futures
    ('f01', 'P05', 'SetException', FS, "        if(ready())\n        {\n            throw std::future_error(std::future_errc::promise_already_satisfied);\n        }\n        exception = std::move(ex);", "        if(has_error())\n        {\n            throw std::future_error(std::future_errc::promise_already_satisfied);\n        }\n        exception = std::move(ex);"),
    ('f02', 'P05', 'SetException', FS, "        std::unique_lock<std::mutex> lock(guard);\n\n        if(ready())\n        {\n            throw std::future_error(std::future_errc::promise_already_satisfied);\n        }\n        exception", "        if(ready())\n        {\n            throw std::future_error(std::future_errc::promise_already_satisfied);\n        }\n        std::unique_lock<std::mutex> lock(guard);\n        exception"),
    ('f03', 'P05', 'SetValue', FS, "        this->value = std::make_shared<std::decay_t<V>>(std::forward<V>(val));\n        this->set_ready(lock, value_status::ready);", "        this->status = value_status::ready;\n        lock.unlock();\n        lock.lock();\n        this->value = std::make_shared<std::decay_t<V>>(std::forward<V>(val));\n        this->set_ready(lock, value_status::ready);"),
    ('f04', 'P05', 'SetValue', FS, "        if(this->ready())\n        {\n            throw std::future_error(std::future_errc::promise_already_satisfied);\n        }\n\n        this->value = std::make_shared<std::decay_t<V>>(std::forward<V>(val));", "        this->value = std::make_shared<std::decay_t<V>>(std::forward<V>(val));\n        if(this->ready())\n        {\n            throw std::future_error(std::future_errc::promise_already_satisfied);\n        }\n"),
    ('f05', 'P06', 'SetValueVoid', FS, "            continuations = std::move(callbacks);\n            callbacks.clear();\n", "            continuations = callbacks;\n"),
    ('f06', 'P06', 'SetValueVoid', FS, "        for(const auto& continuation : continuations)\n        {\n            if(continuation)\n            {\n                continuation();\n            }\n        }", "        for(auto it = continuations.rbegin(); it != continuations.rend(); ++it)\n        {\n            if(*it)\n            {\n                (*it)();\n            }\n        }"),
    ('f07', 'P06', 'SetValueVoid', FS, "        for(const auto& continuation : continuations)\n        {\n            if(continuation)\n            {\n                continuation();\n            }\n        }", "        if(!continuations.empty() && continuations.back())\n        {\n            continuations.back()();\n        }"),
    ('f08', 'P07', 'SetValueVoid,SetValue', FS, "        cv.notify_all();\n        for", "        if(!continuations.empty())\n            cv.notify_all();\n        for"),
    ('f09', 'P05', 'SetException', FS, "            status = s;\n            continuations = std::move(callbacks);\n            callbacks.clear();\n        }\n\n        lock.unlock();", "            continuations = std::move(callbacks);\n            callbacks.clear();\n        }\n\n        lock.unlock();\n        status = s;"),
    ('f10', 'P07', 'FutureWait', FS, "        while(!ready())\n        {\n            if(this_thread::notified_for_exit())\n            {\n                break;\n            }\n            cv.wait(lock);\n        }", "        if(!ready())\n        {\n            cv.wait(lock);\n        }"),
    ('f11', 'P07', 'FutureWaitFor', FS, "                return ready() ? std::future_status::ready : std::future_status::timeout;", "                return std::future_status::timeout;"),
    ('f12', 'P07', 'FutureWaitFor', FS, "            if(cv.wait_for(lock, timeout_duration) == std::cv_status::timeout)", "            if(cv.wait_for(lock, timeout_duration / 2) == std::cv_status::timeout)"),
    ('f13', 'P07', 'FutureWaitFor', FS, "            if(this_thread::notified_for_exit())\n            {\n                return std::future_status::deferred;\n            }\n\n            if(cv", "            if(this_thread::notified_for_exit())\n            {\n                return std::future_status::ready;\n            }\n\n            if(cv"),
    ('f14', 'P07', 'FutureGet,SharedGet', FS, "        if(value)\n        {\n            return *value;\n        }\n\n        if(this->exception)\n        {\n            std::rethrow_exception(this->exception);\n        }\n        else\n        {\n            throw std::future_error(std::future_errc::broken_promise);\n        }", "        if(value)\n        {\n            return *value;\n        }\n        if(this->exception && !this_thread::notified_for_exit())\n        {\n            std::rethrow_exception(this->exception);\n        }\n        throw std::future_error(std::future_errc::broken_promise);"),
    ('f15', 'P07', 'FutureGetVoid', FS, "        rethrow_any_exception();\n\n        if(!ready())\n        {\n            throw", "        if(has_error() && !exception)\n            rethrow_any_exception();\n\n        if(!ready())\n        {\n            throw"),
    ('f16', 'P07', 'FutureGet', FH, "        this->wait();\n        auto state = std::move(this->state_);\n        return std::move", "        this->wait();\n        auto state = this->state_;\n        return std::move"),
    ('f17', 'P08', 'PromiseDtor', FH, "        if(state_ && !state_->ready())", "        if(state_ && state_.use_count() > 1 && !state_->ready() && !state_->callbacks.empty())"),
    ('f18', 'P08', 'PromiseDtor,Abandon', FH, "std::future_error(std::future_errc::broken_promise)", "std::future_error(std::future_errc::no_state)"),
    ('f19', 'P08', 'PromiseAssign', FH, "        basic_promise other(std::move(rhs));\n        std::swap(state_, other.state_);", "        state_ = std::move(rhs.state_);"),
    ('f20', 'P05', 'GetFuture', FH, "        if(state_->retrieved.test_and_set())", "        if(state_->ready() && state_->retrieved.test_and_set())"),
    ('f21', 'P05', 'SetValueVoid', FH, "        check_state(this->state_);\n        // the one who waits for the result may destroy the promise\n        auto state = this->state_;\n        state->set_value();", "        auto state = this->state_;\n        if(state)\n            state->set_value();"),
    ('f22', 'P07', 'FutureWait', FS, "        std::unique_lock<std::mutex> lock(guard);\n        while(!ready())\n        {\n            if(this_thread::notified_for_exit())\n            {\n                break;\n            }\n            cv.wait(lock);\n        }", "        while(!ready())\n        {\n            if(this_thread::notified_for_exit())\n            {\n                break;\n            }\n            std::unique_lock<std::mutex> lock(guard);\n            cv.wait(lock);\n        }"),
    ('f23', 'P07', 'SetValue', FH, "        state->set_value(std::move(value));", "        T copy(std::move(value));\n        state->set_value(value);"),
    ('f24', 'P06', 'SetValueVoid', FS, "        lock.unlock();\n        // this may call the log callback, so not with the lock held\n        cv.notify_all();\n        for", "        lock.unlock();\n        cv.notify_all();\n        if(this_thread::notified_for_exit())\n            return;\n        for"),
    ('f25', 'P08', 'PromiseDtor', FH, "        set_exception(exception);\n", "        try\n        {\n            if(!this_thread::notified_for_exit())\n                set_exception(exception);\n        }\n        catch(...)\n        {\n        }\n"),
    ('o40', 'ok', 'SetValueVoid,SetValue,SetException', FS, "        callback_container continuations;\n        {\n            status = s;\n            continuations = std::move(callbacks);\n            callbacks.clear();\n        }\n", "        callback_container continuations;\n        continuations.swap(callbacks);\n        status = s;\n"),
    ('o41', 'ok', 'SetValueVoid,SetValue,SetException', FS, "        for(const auto& continuation : continuations)\n        {\n            if(continuation)\n            {\n                continuation();\n            }\n        }", "        for(size_t i = 0; i < continuations.size(); ++i)\n        {\n            if(!continuations[i])\n            {\n                continue;\n            }\n            continuations[i]();\n        }"),
    ('o42', 'ok', 'SetValueVoid', FS, "        for(const auto& continuation : continuations)\n        {\n            if", "        for(auto continuation : continuations)\n        {\n            if"),
    ('o43', 'ok', 'FutureWait,FutureWaitVoid,FutureGet', FS, "        while(!ready())\n        {\n            if(this_thread::notified_for_exit())\n            {\n                break;\n            }\n            cv.wait(lock);\n        }", "        for(;;)\n        {\n            const bool done = ready() || this_thread::notified_for_exit();\n            if(done)\n            {\n                return;\n            }\n            cv.wait(lock);\n        }"),
    ('o44', 'ok', 'PromiseDtor,PromiseAssign', FH, "        if(state_ && !state_->ready())\n        {\n            abandon();\n        }", "        if(!state_ || state_->ready())\n        {\n            return;\n        }\n        abandon();"),
    ('o45', 'ok', 'FutureGet,FutureGetVoid,SharedGet', FS, "        if(value)\n        {\n            return *value;\n        }\n\n        if(this->exception)\n        {\n            std::rethrow_exception(this->exception);\n        }\n        else\n        {\n            throw std::future_error(std::future_errc::broken_promise);\n        }", "        if(!this->ready())\n        {\n            throw std::future_error(std::future_errc::broken_promise);\n        }\n        if(this->has_error())\n        {\n            std::rethrow_exception(this->exception);\n        }\n        return *value;"),
    ('o46', 'ok', 'SetValueVoid,SetValue,SetException', FS, "            status = s;\n            continuations = std::move(callbacks);\n            callbacks.clear();\n        }\n\n        lock.unlock();\n        // this may call the log callback, so not with the lock held\n        cv.notify_all();\n        for(const auto& continuation : continuations)\n        {\n            if(continuation)\n            {\n                continuation();\n            }\n        }\n    }", "            status = s;\n            continuations = std::move(callbacks);\n            callbacks.clear();\n        }\n\n        lock.unlock();\n        cv.notify_all();\n        run_all(continuations);\n    }\n    static void run_all(callback_container& list)\n    {\n        while(!list.empty())\n        {\n            auto first = std::move(list.front());\n            list.erase(list.begin());\n            if(first)\n                first();\n        }\n    }"),
    ('o47', 'ok', 'FutureWaitFor,FutureWaitForVoid,FutureWaitUntil', FS, "            if(cv.wait_for(lock, timeout_duration) == std::cv_status::timeout)\n            {\n                return ready() ? std::future_status::ready : std::future_status::timeout;\n            }", "            const auto result = cv.wait_for(lock, timeout_duration);\n            if(result == std::cv_status::timeout && !ready())\n            {\n                return std::future_status::timeout;\n            }"),
    # tasks
    ('g01', 'P10', 'Async,AsyncId', FH, "    if(id == caller_id())\n    {\n        id = this_thread::get_id();\n    }\n", ""),
    ('g02', 'P10', 'Async,ThenIdPolicy', FH, "    if(policy == std::launch::async)\n    {\n        // invoke(id, func);", "    if((policy & std::launch::async) == std::launch::async)\n    {\n        // invoke(id, func);"),
    ('g03', 'P10', 'Dispatch', TH, "    if(this_thread::get_id() == id)\n    {\n        // directly", "    if(this_thread::get_id() == id && this_thread::get_depth() == 0)\n    {\n        // directly"),
    ('g04', 'P10', 'AsyncId', FH, "    return async(id, std::launch::deferred | std::launch::async, std::forward<F>(f)", "    return async(id, std::launch::async, std::forward<F>(f)"),
    ('g05', 'P10', 'SharedThenVoidId', FH, "auto shared_future<void>::then(thread::id id, F&& f) const -> future<then_ret_type<F, shared_future<void>>>\n{\n    return then(id, std::launch::async | std::launch::deferred", "auto shared_future<void>::then(thread::id id, F&& f) const -> future<then_ret_type<F, shared_future<void>>>\n{\n    return then(id, std::launch::async"),
    ('g06', 'P06', 'SharedThenIdPolicy', FH, "    // do not invalidate the state\n    auto state = this->state_;\n", "    auto state = this->state_;\n    const_cast<shared_future<T>*>(this)->state_.reset();\n"),
    ('g07', 'P06', 'ThenVoidIdPolicy', FH, "auto future<void>::then(thread::id id, std::launch policy, F&& f) -> future<then_ret_type<F, future<void>>>\n{\n    detail::check_state(this->state_);\n\n    // invalidate the state\n    auto state = std::move(this->state_);", "auto future<void>::then(thread::id id, std::launch policy, F&& f) -> future<then_ret_type<F, future<void>>>\n{\n    detail::check_state(this->state_);\n\n    auto state = this->state_;"),
    ('g08', 'P06', 'ThenIdPolicy,SharedThenVoidPlain', FS, "            if(!ready())\n            {\n                callbacks.emplace_back(std::move(continuation));\n                return;\n            }\n        }\n", "            if(!ready())\n            {\n                callbacks.emplace_back(continuation);\n            }\n        }\n        if(!ready())\n            return;\n"),
    ('g09', 'P06', 'ThenIdPolicy', FS, "        if(continuation)\n        {\n            continuation();\n        }\n    }\n\n    void wait()", "        if(continuation && !has_error())\n        {\n            continuation();\n        }\n    }\n\n    void wait()"),
    ('g10', 'P09', 'Async,ThenIdPolicy', FH, "\t\t\t\t\t\tstd::get<0>(p.get()).set_exception(std::current_exception());", "\t\t\t\t\t\tstd::get<0>(p.get()).abandon();"),
    ('g11', 'P09', 'AsyncLvalues', 'threadpp/detail/utility/capture.hpp', "move_on_copy_t(U&&... args) noexcept : value_(std::make_tuple(std::forward<U>(args)...))", "move_on_copy_t(U&&... args) noexcept : value_(std::make_tuple(std::move(args)...))"),
    ('g13', 'P08', 'ThenIdPolicy', FH, "        [id, policy, task = std::move(task)]() mutable\n        {\n            detail::launch(id, policy, task);\n        });\n\n    return std::move(future);\n}\n\ntemplate<typename T>\ntemplate<typename F>\nauto future<T>::then(thread::id id, F&& f)", "        [id, policy, task = std::make_shared<tpp::task>(std::move(task))]() mutable\n        {\n            if(!*task)\n                return;\n            detail::launch(id, policy, *task);\n            if(*task)\n                new std::shared_ptr<tpp::task>(task);\n        });\n\n    return std::move(future);\n}\n\ntemplate<typename T>\ntemplate<typename F>\nauto future<T>::then(thread::id id, F&& f)"),
    ('g14', 'P10', 'AsyncPolicy,AsyncPlain', FH, "            this_thread::wait();\n            this_thread::unregister_this_thread();\n        });\n    detached_thread.detach();\n    return async(", "            this_thread::wait();\n        });\n    detached_thread.detach();\n    return async("),
    ('g15', 'P10', 'SharedThenPolicy', FH, "    detached_thread.detach();\n    return then(detached_thread.get_id(), policy, std::forward<F>(f));\n}\n\ntemplate<typename T>\ntemplate<typename F>\nauto shared_future<T>::then(F&& f)", "    detached_thread.detach();\n    return then(caller_id(), policy, std::forward<F>(f));\n}\n\ntemplate<typename T>\ntemplate<typename F>\nauto shared_future<T>::then(F&& f)"),
    ('g16', 'P09', 'ThenIdPolicy', FH, "            future<T> self(state);\n            return utility::invoke(f, std::move(self));", "            future<T> self;\n            return utility::invoke(f, std::move(self));"),
    ('g17', 'P09', 'AsyncVoid', FH, "        params);\n    p.set_value();\n", "        params);\n    if(!this_thread::notified_for_exit())\n        p.set_value();\n"),
    ('g18', 'P10', 'Invoke,InvokeLvalues', TH, "    return detail::invoke_packaged_task(id, task);", "    detail::invoke_packaged_task(id, task);\n    return id != invalid_id();"),
    ('g19', 'P04', 'ThenIdPolicy', FS, "            if(!ready())\n            {\n                callbacks.emplace_back(std::move(continuation));\n                return;\n            }\n        }\n\n        if(continuation)\n        {\n            continuation();\n        }\n", "            if(!ready())\n            {\n                callbacks.emplace_back(std::move(continuation));\n                return;\n            }\n            if(continuation)\n            {\n                continuation();\n            }\n        }\n"),
    ('g20', 'P10', 'Async', FH, "        // dispatch(id, func);\n        if(this_thread::get_id() == id)\n        {", "        // dispatch(id, func);\n        if(this_thread::get_id() == id || policy == std::launch::deferred)\n        {"),
    ('g21', 'P09', 'ThenVoidIdPolicy', FH, "            future<void> self(state);\n            utility::invoke(f, std::move(self));\n", "            if(state->has_error())\n                std::rethrow_exception(state->exception);\n            future<void> self(state);\n            utility::invoke(f, std::move(self));\n"),
    ('g22', 'P09', 'Async', FH, "\t\t\t\tcatch(...)\n\t\t\t\t{\n\t\t\t\t\ttry", "\t\t\t\tcatch(const std::exception&)\n\t\t\t\t{\n\t\t\t\t\ttry"),
    ('o50', 'ok', 'Async,AsyncId,ThenIdPolicy,SharedThenVoidPlain', FH, "    if(policy == std::launch::async)\n    {\n        // invoke(id, func);\n        detail::invoke_packaged_task(id, func);\n    }\n    else\n    {\n        // dispatch(id, func);\n        if(this_thread::get_id() == id)\n        {\n            // directly call it\n            func();\n        }\n        else\n        {\n            detail::invoke_packaged_task(id, func);\n        }\n    }", "    const bool inline_call = policy != std::launch::async && this_thread::get_id() == id;\n    if(!inline_call)\n    {\n        detail::invoke_packaged_task(id, func);\n        return;\n    }\n    func();"),
    ('o51', 'ok', 'AsyncPolicy,AsyncPlain,ThenPolicy', FH, "template<typename F, typename... Args>\nauto async(std::launch policy, F&& f, Args&&... args) -> future<async_ret_type<F, Args...>>\n{\n    thread detached_thread(\n        []()\n        {\n            this_thread::register_this_thread();\n            this_thread::wait();\n            this_thread::unregister_this_thread();\n        });\n    detached_thread.detach();\n    return async(detached_thread.get_id(), policy", "namespace detail\n{\ninline auto detached() -> thread::id\n{\n    thread detached_thread(\n        []()\n        {\n            this_thread::register_this_thread();\n            this_thread::wait();\n            this_thread::unregister_this_thread();\n        });\n    const auto id = detached_thread.get_id();\n    detached_thread.detach();\n    return id;\n}\n}\ntemplate<typename F, typename... Args>\nauto async(std::launch policy, F&& f, Args&&... args) -> future<async_ret_type<F, Args...>>\n{\n    return async(detail::detached(), policy"),
    ('o52', 'ok', 'ThenIdPolicy,ThenPlain', FS, "            std::lock_guard<std::mutex> lock(guard);\n            if(!ready())\n            {\n                callbacks.emplace_back(std::move(continuation));\n                return;\n            }\n        }\n\n        if(continuation)\n        {\n            continuation();\n        }\n", "            std::unique_lock<std::mutex> lock(guard);\n            const bool now = ready();\n            if(!now)\n            {\n                callbacks.push_back(std::move(continuation));\n            }\n            lock.unlock();\n            if(!now || !continuation)\n            {\n                return;\n            }\n        }\n        continuation();\n"),
    ('o53', 'ok', 'Dispatch', TH, "    if(this_thread::get_id() == id)\n    {\n        // directly call it\n        std::forward<F>(f)(std::forward<Args>(args)...);\n        return true;\n    }\n    else\n    {\n        return invoke(id, std::forward<F>(f), std::forward<Args>(args)...);\n    }", "    if(id != this_thread::get_id())\n    {\n        return invoke(id, std::forward<F>(f), std::forward<Args>(args)...);\n    }\n    std::forward<F>(f)(std::forward<Args>(args)...);\n    return true;"),
    ('o54', 'ok', 'Async,AsyncVoid,ThenIdPolicy', FH, "    auto package = detail::package_future_task(std::forward<F>(f), std::forward<Args>(args)...);\n    auto& future = package.callable_future;\n    auto& task = package.callable;\n\n    detail::launch(id, policy, task);\n\n    return std::move(future);", "    auto package = detail::package_future_task(std::forward<F>(f), std::forward<Args>(args)...);\n    detail::launch(id, policy, package.callable);\n    auto result = std::move(package.callable_future);\n    return result;"),
    # pool
    ('j01', 'P14', 'CheckJobs', TP, "                user_job = std::move(job.callable);", "                user_job = job.callable;"),
    ('j02', 'P14', 'AddJob,AddJobAsks', TP, "        add_job_handle(job.handle);\n        return id;", "        if(jobs_.size() == 1)\n        {\n            add_job_handle(job.handle);\n        }\n        return id;"),
    ('j03', 'P14', 'AddJobAsks,ChangePriorityAsks', TP, "            if(priority <= max_priority)\n            {\n                auto& workers", "            if(priority < max_priority)\n            {\n                auto& workers"),
    ('j04', 'P14', 'AddJobAsks,ChangePriorityAsks', TP, "                               check_jobs(priority);\n                           });\n", "                               check_jobs(priority);\n                           });\n                    break;\n"),
    ('j05', 'P14', 'AddJob', TP, "auto id = free_id_++;", "auto id = jobs_.size() + 1;"),
    ('j06', 'P14', 'CheckJobs', TP, "            if(it == jobs_.end())\n            {\n                job_queue.pop();\n                return;\n            }\n            auto& job", "            if(it == jobs_.end())\n            {\n                return;\n            }\n            auto& job"),
    ('j07', 'P14', 'ChangePriority,ChangePriorityAsks', TP, "        job.handle.group = group;\n\n        add_job_handle(job.handle);\n    }", "        job.handle.group = group;\n\n        job_priority_queues_[group.level].emplace(job.handle);\n    }"),
    ('j08', 'P15', 'CheckJobs', TP, "            if(level <= job.handle.group.level)\n            {\n                id", "            if(level <= handle.group.level)\n            {\n                id"),
    ('j09', 'P15', 'CheckJobs', TP, "                if(!job_queue.empty())\n                {\n                    selected_level", "                if(!job_queue.empty() && selected_level == level)\n                {\n                    selected_level"),
    ('j10', 'P15', 'CheckJobs,AddJob,ChangePriority', TP, "return lhs.group.priority < rhs.group.priority;", "return lhs.group.priority > rhs.group.priority;"),
    ('j11', 'P15', 'ChangePriority', TP, "        job.handle.group = group;\n\n        add_job_handle", "        job.handle.group.level = group.level;\n\n        add_job_handle"),
    ('q13', 'ok', 'ChangePriority', TP, "        if(!job.callable || job.handle.group == group)", "        if(job.handle.group == group)"),
    ('j13', 'P16', 'Stop', TP, "                if(it->second.callable)\n                {\n                    removed = std::move(it->second);\n                    jobs_.erase(id);\n                }", "                if(it->second.callable)\n                {\n                    removed = std::move(it->second);\n                }"),
    ('j14', 'P16', 'Stop', TP, "    impl_->clear(id, true);", "    impl_->clear(id, false);"),
    ('j15', 'P16', 'StopAll', TP, "            if(it->second.callable)\n            {\n                removed.emplace", "            if(it->second.callable && it->second.handle.group.level != priority::category::critical)\n            {\n                removed.emplace"),
    ('j16', 'P16', 'StopAll', TP, "            if(it->second.callable)\n            {\n                removed.emplace", "            if(!it->second.callable || it->second.handle.id != 0)\n            {\n                removed.emplace"),
    ('j17', 'P16', 'Wait,WaitAll,PoolWait,PoolWaitAll', TP, "        for(const auto& future : futures)\n        {\n            future.wait();\n        }", "        for(const auto& future : futures)\n        {\n            future.wait_for(std::chrono::seconds(10));\n        }"),
    ('j18', 'P16', 'WaitAll', TP, "                futures.emplace_back(job.callable_future);", "                if(job.callable)\n                {\n                    futures.emplace_back(job.callable_future);\n                }"),
    ('j19', 'P16', 'Count', TP, "        return jobs_.size();\n    }\n\nprivate", "        return jobs_.size() - 1;\n    }\n\nprivate"),
    ('j20', 'P16', 'CheckJobs', TP, "            user_job();\n            // clear after the call so that the task\n            // is waitable via the pool.\n            clear(id, false);", "            clear(id, false);\n            user_job();"),
    ('j21', 'P16', 'CheckJobs', TP, "            clear(id, false);\n        }\n    }", "            clear(id, true);\n        }\n    }"),
    ('j22', 'P16', 'PoolMove', TP, "    : impl_(std::move(rhs.impl_)), sentinel_(std::move(rhs.sentinel_))\n{\n    if(sentinel_)\n    {\n        *sentinel_ = this;\n    }\n", "    : impl_(std::move(rhs.impl_)), sentinel_(std::move(rhs.sentinel_))\n{\n"),
    ('j23', 'P16', 'PoolAssign', TP, "        sentinel_ = std::move(rhs.sentinel_);\n        if(sentinel_)", "        std::swap(sentinel_, rhs.sentinel_);\n        if(sentinel_)"),
    ('j24', 'P14', 'PoolEnd', TP, "        workers.clear();\n    }", "        for(auto& level : workers)\n        {\n            for(auto& w : level.second)\n            {\n                notify_for_exit(w.get_id());\n                w.detach();\n            }\n        }\n    }"),
    ('j25', 'P04', 'PoolEnd', TP, "        auto workers = [&]()\n        {\n            std::lock_guard<std::mutex> lock(guard_);\n            return std::move(workers_);\n        }();\n\n        workers.clear();", "        std::lock_guard<std::mutex> lock(guard_);\n        workers_.clear();"),
    ('j26', 'P20', 'PoolEnd', TP, "        clear_all();\n\n        auto workers = [&]()\n        {\n            std::lock_guard<std::mutex> lock(guard_);\n            return std::move(workers_);\n        }();\n\n        workers.clear();", "        clear_all();"),
    ('j27', 'P20', 'Count', TP, "        std::lock_guard<std::mutex> lock(guard_);\n        return jobs_.size();", "        return jobs_.size();"),
    ('j28', 'P04', 'Stop', TP, "        // destroyed after the lock is released\n        job_info removed;\n\n        std::lock_guard<std::mutex> lock(guard_);", "        std::lock_guard<std::mutex> lock(guard_);\n        job_info removed;\n"),
    ('j29', 'P14', 'CheckJobs', TP, "            job_queue.pop();\n        }\n        ////", "        }\n        ////"),
    ('j30', 'P16', 'Schedule', TPH, "    fut.id = add_job(packaged_task.callable, group);\n    fut.sentinel_ = sentinel_;", "    fut.id = add_job(packaged_task.callable, group);"),
    ('j31', 'P15', 'ScheduleDefault', TPH, "    return schedule(priority::normal(), std::", "    return schedule(priority::high(), std::"),
    ('j32', 'P16', 'JobStop', TP, "    (*owner)->stop(id);", "    (*owner)->stop_all();"),
    ('j33', 'P16', 'PoolEnd', TPH, "    std::unique_ptr<impl> impl_;\n\n    std::shared_ptr<thread_pool*> sentinel_ = std::make_shared<thread_pool*>(this);\n", "    std::shared_ptr<thread_pool*> sentinel_ = std::make_shared<thread_pool*>(this);\n\n    std::unique_ptr<impl> impl_;\n"),
    ('j34', 'P16', 'PoolAssign', TP, "        auto old = std::move(impl_);\n        impl_ = std", "        impl_ = std"),
    ('j35', 'P14', 'PoolNew', TP, "for(size_t i = 0; i < count; ++i)", "for(size_t i = 1; i < count; ++i)"),
    ('j36', 'P14', 'PoolNew', TP, "if(count > 0)", "if(count > 1)"),
    ('j37', 'P14', 'PoolNew', TP, "job_id free_id_ = 1;", "job_id free_id_ = 0;"),
    ('j38', 'P14', 'PoolNewDefault', TP, "thread_pool({{priority::category::normal, thread::hardware_concurrency()}})", "thread_pool({{priority::category::high, thread::hardware_concurrency()}})"),
    ('j39', 'P14', 'PoolNew', TP, "workers_for_level.emplace_back(make_thread(name));", "workers_for_level.emplace_back();"),
    ('j40', 'P14', 'PoolNew', TP, "for(size_t i = 0; i < count; ++i)", "for(size_t i = workers_.size(); i <= count; ++i)"),
    # behaviour kept
    ('q01', 'ok', 'CheckJobs', TP, "            const auto& handle = job_queue.top();\n            auto it = jobs_.find(handle.id);\n            if(it == jobs_.end())\n            {\n                job_queue.pop();\n                return;\n            }\n            auto& job = it->second;\n\n            // if priority level is lower still matches\n            if(level <= job.handle.group.level)\n            {\n                id = job.handle.id;\n                user_job = std::move(job.callable);\n            }\n\n            job_queue.pop();\n", "            const auto handle = job_queue.top();\n            job_queue.pop();\n            auto it = jobs_.find(handle.id);\n            if(it == jobs_.end())\n            {\n                return;\n            }\n            auto& job = it->second;\n            if(level <= job.handle.group.level)\n            {\n                id = job.handle.id;\n                user_job = std::move(job.callable);\n            }\n"),
    ('q02', 'ok', 'StopAll', TP, "        for(auto it = jobs_.begin(); it != jobs_.end();)\n        {\n            // jobs that are running stay until they are done\n            if(it->second.callable)\n            {\n                removed.emplace_back(std::move(it->second));\n                it = jobs_.erase(it);\n            }\n            else\n            {\n                ++it;\n            }\n        }", "        auto it = jobs_.begin();\n        while(it != jobs_.end())\n        {\n            auto& job = it->second;\n            if(!job.callable)\n            {\n                ++it;\n                continue;\n            }\n            removed.push_back(std::move(job));\n            it = jobs_.erase(it);\n        }"),
    ('q03', 'ok', 'CheckJobs,Stop', TP, "            if(check_callable)\n            {\n                if(it->second.callable)\n                {\n                    removed = std::move(it->second);\n                    jobs_.erase(id);\n                }\n            }\n            else\n            {\n                removed = std::move(it->second);\n                jobs_.erase(id);\n            }", "            if(!check_callable || it->second.callable)\n            {\n                removed = std::move(it->second);\n                jobs_.erase(it);\n            }"),
    ('q04', 'ok', 'AddJob,AddJobAsks,ChangePriority,ChangePriorityAsks', TP, "                auto& workers = workers_[priority];\n                for(auto& w : workers)\n", "                for(const auto& w : kvp.second)\n"),
    ('q05', 'ok', 'WaitAll', TP, "        for(const auto& future : futures)\n        {\n            future.wait();\n        }", "        for(size_t i = 0; i < futures.size(); ++i)\n        {\n            futures[i].wait();\n        }"),
    ('q06', 'ok', 'PoolEnd', TP, "        workers.clear();\n    }", "    }"),
    ('q07', 'ok', 'AddJob,AddJobAsks', TP, "        auto& job = jobs_[id];\n        job.handle.id = id;\n        job.handle.group = group;\n        job.callable = std::move(packaged_task.callable);\n        job.callable_future = packaged_task.callable_future.share();\n", "        job_info job;\n        job.handle.id = id;\n        job.handle.group = group;\n        job.callable = std::move(packaged_task.callable);\n        job.callable_future = packaged_task.callable_future.share();\n        jobs_[id] = std::move(job);\n"),
    ('q08', 'ok', 'AddJob,AddJobAsks', TP, "        add_job_handle(job.handle);\n        return id;", "        add_job_handle(job.handle);\n        return job.handle.id;"),
    ('q09', 'ok', 'CheckJobs', TP, "        for(const auto& kvp : job_priority_queues_)\n        {\n            auto queue_priority_level = kvp.first;\n\n            if(level <= queue_priority_level)\n            {\n                auto& job_queue = kvp.second;\n\n                if(!job_queue.empty())\n                {\n                    selected_level = queue_priority_level;\n                }\n            }\n        }", "        for(const auto& kvp : job_priority_queues_)\n        {\n            if(!(kvp.first < level) && !kvp.second.empty())\n            {\n                selected_level = kvp.first;\n            }\n        }"),
    ('q10', 'ok', 'CheckJobs', TP, "            if(level <= job.handle.group.level)\n            {\n                id = job.handle.id;\n                user_job = std::move(job.callable);\n            }\n\n            job_queue.pop();", "            if(level <= job.handle.group.level)\n            {\n                id = handle.id;\n                std::swap(user_job, job.callable);\n            }\n\n            job_queue.pop();"),
    ('q11', 'ok', 'AddJob,AddJobAsks', TP, "        job_priority_queues_[handle.group.level].emplace(handle);\n        notify_workers(handle.group.level);", "        notify_workers(handle.group.level);\n        job_priority_queues_[handle.group.level].push(handle);"),
    ('q12', 'ok', 'PoolAssign', TP, "        auto old = std::move(impl_);\n        impl_ = std::move(rhs.impl_);", "        std::unique_ptr<impl> old;\n        old.swap(impl_);\n        impl_.swap(rhs.impl_);"),
    # when_all, when_any
    ('w01', 'P17', 'AllRange', WH, "                                               shared_context->result[index] = std::move(f);\n                                               ++shared_context->ready_futures;", "                                               ++shared_context->ready_futures;\n                                               shared_context->result[shared_context->ready_futures - 1] = std::move(f);"),
    ('w02', 'P17', 'AllRange', WH, "shared_context->ready_futures == shared_context->total_futures", "shared_context->ready_futures + 1 >= shared_context->total_futures"),
    ('w03', 'P17', 'AllRange', WH, "    shared_context->total_futures = std::distance(first, last);\n    shared_context->result.reserve(shared_context->total_futures);\n    size_t index = 0;\n    auto id = this_thread::get_id();\n\n    for(; first != last; ++first, ++index)\n    {", "    size_t index = 0;\n    auto id = this_thread::get_id();\n\n    for(; first != last; ++first, ++index)\n    {\n        ++shared_context->total_futures;"),
    ('w04', 'P17', 'AllTuple,AllFour', WH, "                  ++context->ready_futures;\n                  std::get<I>(context->result) = std::move(f);", "                  ++context->ready_futures;\n                  if(I != 2)\n                  {\n                      std::get<I>(context->result) = std::move(f);\n                  }"),
    ('w05', 'P17', 'AllOne,AllTuple', WH, "    shared_context->total_futures = sizeof...(futures);\n    detail::apply_helper<0>(shared_context, std::forward<Futures>(futures)...);", "    detail::apply_helper<0>(shared_context, std::forward<Futures>(futures)...);\n    shared_context->total_futures = sizeof...(futures);"),
    ('w06', 'P17', 'AllEmpty', WH, "    using result_inner_type = std::vector<typename std::iterator_traits<InputIt>::value_type>;\n    if(first == last)", "    using result_inner_type = std::vector<typename std::iterator_traits<InputIt>::value_type>;\n    if(first == last && this_thread::get_id() == invalid_id())"),
    ('w07', 'P18', 'AnyRange', WH, "                    shared_context->result.index = index;\n", "                    shared_context->result.index = shared_context->processed;\n"),
    ('w08', 'P18', 'AnyRange', WH, "            for(size_t i = 0; i < result.futures.size(); ++i)", "            for(size_t i = 0; i + 1 < processed; ++i)"),
    ('w09', 'P18', 'AnyRangeShared', WH, "                if(!shared_context->ready)\n                {\n                    shared_context->result.index", "                if(!shared_context->promise_set)\n                {\n                    shared_context->result.index"),
    ('w10', 'P18', 'AnyRange', WH, "                auto state = states[i];\n                if(!f.valid())", "                auto state = states[i];\n                if(i != result.index + 1 && !f.valid())"),
    ('w11', 'P18', 'AnyTuple', WH, "                      if(context->processed == context->total && !context->result_moved)", "                      if(!context->result_moved)"),
    ('w12', 'P18', 'AnyTuple,AnyOne', WH, "        if(shared_context->ready && !shared_context->result_moved)", "        if(shared_context->ready && shared_context->processed != shared_context->total && !shared_context->result_moved)"),
    ('w13', 'P18', 'AnyNone,AnyEmpty', WH, "    size_t index = size_t(-1);", "    size_t index = 0;"),
    ('w14', 'P17', 'AllRange,AllRangeShared', WH, "        shared_context->result[index].then(id,\n", "        shared_context->result[index].then(index % 2 == 0 ? id : invalid_id(),\n"),
    ('w15', 'P18', 'AnyTuple,AnyFour', WH, "    auto id = this_thread::get_id();\n\n    std::get<I>(context->result.futures)", "    auto id = I == 0 ? this_thread::get_id() : main_thread::get_id();\n\n    std::get<I>(context->result.futures)"),
    ('w16', 'P04', 'AllTuple', WH, "                      lock.unlock();\n                      context->p.set_value(std::move(context->result));\n                  }\n              });\n}\n\ntemplate<size_t I, typename Context>\nvoid apply_helper", "                      context->p.set_value(std::move(context->result));\n                  }\n              });\n}\n\ntemplate<size_t I, typename Context>\nvoid apply_helper"),
    ('q14', 'ok', 'AllRange,AllRangeShared', WH, "    for(; first != last; ++first, ++index)\n    {\n        shared_context->result.emplace_back(copy_or_move(*first));\n        shared_context->result[index].then(id,", "    for(; first != last; ++index)\n    {\n        shared_context->result.push_back(copy_or_move(*first));\n        ++first;\n        auto& back = shared_context->result[index];\n        back.then(id,"),
    ('q15', 'ok', 'AllRange', WH, "                                               shared_context->result[index] = std::move(f);\n                                               ++shared_context->ready_futures;\n                                               if(shared_context->ready_futures == shared_context->total_futures)", "                                               auto& slot = shared_context->result[index];\n                                               slot = std::move(f);\n                                               bool last_one = ++shared_context->ready_futures >= shared_context->total_futures;\n                                               if(last_one)"),
    ('q16', 'ok', 'AnyRange', WH, "            for(size_t i = 0; i < result.futures.size(); ++i)\n            {\n                auto& f = result.futures[i];\n                auto state = states[i];\n                if(!f.valid())\n                {\n                    f._internal_set_state(state);\n                }\n            }", "            size_t i = 0;\n            for(auto& f : result.futures)\n            {\n                if(!f.valid())\n                {\n                    f._internal_set_state(states[i]);\n                }\n                ++i;\n            }"),
    ('q17', 'ok', 'AnyTuple,AnyFour,AnyOne', WH, "                  if(!context->ready)\n                  {\n                      context->ready = true;\n                      context->result.index = I;\n                      std::get<I>(context->result.futures) = std::move(f);", "                  if(context->ready)\n                  {\n                      return;\n                  }\n                  {\n                      context->result.index = I;\n                      std::get<I>(context->result.futures) = std::move(f);\n                      context->ready = true;"),
    ('q18', 'ok', 'AnyRange', WH, "                if(!shared_context->ready)\n                {\n                    shared_context->result.index = index;\n                    shared_context->ready = true;", "                if(shared_context->result.index == size_t(-1))\n                {\n                    shared_context->result.index = index;\n                    shared_context->ready = true;"),
    ('q19', 'ok', 'AllTuple,AllFour', WH, "        size_t total_futures;\n        size_t ready_futures = 0;\n        result_inner_type result;\n        promise", "        size_t total_futures;\n        std::atomic<size_t> ready_futures{0};\n        result_inner_type result;\n        promise"),
    ('q20', 'ok', 'PoolNew,PoolNewDefault', TP, "for(size_t i = 0; i < count; ++i)", "for(size_t i = count; i-- > 0;)"),
    ('q21', 'ok', 'PoolNew,PoolNewDefault', TP, "                job_priority_queues_[level];\n                auto& workers_for_level = workers_[level];", "                auto& workers_for_level = workers_[level];\n                job_priority_queues_[level];"),
    ('q22', 'ok', 'PoolNew,PoolNewDefault', TP, "                    workers_for_level.emplace_back(make_thread(name));\n                    auto& task = workers_for_level.back();\n                    tpp::set_thread_config(task.get_id(), config);", "                    auto worker = make_thread(name);\n                    tpp::set_thread_config(worker.get_id(), config);\n                    workers_for_level.push_back(std::move(worker));"),
    ('q23', 'ok', 'SetException,SetValue', FS, "            continuations = std::move(callbacks);\n            callbacks.clear();", "            continuations.swap(callbacks);"),
    # helpers extracted, loops rewritten, statements reordered
    ('r01', 'ok', 'NotifyForExit,InvokePackagedTask', T, [("void notify_for_exit(thread::id id)\n{\n    auto& global_context = get_global_context();\n    std::unique_lock<std::mutex> lock(global_context.mutex);\n\n    auto it = global_context.contexts.find(id);\n    if(it == global_context.contexts.end())\n    {\n        return;\n    }\n\n    auto context = it->second;\n\n    lock.unlock();\n", "static auto find_context(thread::id id) -> std::shared_ptr<thread_context>\n{\n    auto& global_context = get_global_context();\n    std::lock_guard<std::mutex> lock(global_context.mutex);\n    auto it = global_context.contexts.find(id);\n    return it == global_context.contexts.end() ? nullptr : it->second;\n}\n\nvoid notify_for_exit(thread::id id)\n{\n    auto context = find_context(id);\n    if(!context)\n    {\n        return;\n    }\n"),
        ("    auto& global_context = get_global_context();\n    std::unique_lock<std::mutex> lock(global_context.mutex);\n\n    auto it = global_context.contexts.find(id);\n    if(it == global_context.contexts.end())\n    {\n        return false;\n    }\n\n    auto context = it->second;\n\n    lock.unlock();\n", "    auto context = find_context(id);\n    if(!context)\n    {\n        return false;\n    }\n")], None),
    ('r02', 'ok', 'Wait,WaitFor,Process', T, [("        std::swap(context.tasks, context.processing_tasks);\n", "        context.processing_tasks.swap(context.tasks);\n"), ("auto prepare_tasks(thread_context& context) -> bool\n{\n    if(!has_tasks_to_process(context) && !context.tasks.empty())\n    {", "auto prepare_tasks(thread_context& context) -> bool\n{\n    if(has_tasks_to_process(context))\n    {\n        return true;\n    }\n    if(context.tasks.size() != 0)\n    {")], None),
    ('r03', 'ok', 'Wait,WaitFor,Process', T, [("    if(prepare_tasks(local_context))\n    {\n        auto task", "    if(!prepare_tasks(local_context))\n    {\n        return false;\n    }\n    {\n        auto task"), ("        return true;\n    }\n\n    return false;\n}\n\nvoid process_all_for", "    }\n\n    return true;\n}\n\nvoid process_all_for")], None),
    ('r04', 'ok', 'ProcessFor,Process', T, [("    while(!notified_for_exit() && now < end_time)\n    {\n        if(!process_one(lock))\n        {\n            break;\n        }\n\n        now = clock::now();\n    }", "    for(; !notified_for_exit() && now < end_time; now = clock::now())\n    {\n        const bool more = process_one(lock);\n        if(!more)\n        {\n            return;\n        }\n    }")], None),
    ('r05', 'ok', 'Wait,WaitFor', T, [("auto process_one(std::unique_lock<std::mutex>& lock) -> bool\n{", "static auto registered_or_log() -> bool\n{\n    if(has_local_context())\n    {\n        return true;\n    }\n    log_error_func(\"not registered\");\n    return false;\n}\n\nauto process_one(std::unique_lock<std::mutex>& lock) -> bool\n{"),
        ("void wait()\n{\n    if(!has_local_context())\n    {\n        log_error_func(\"Calling functions in the this_thread namespace \"\n                       \"requires the thread to be already registered by calling \"\n                       \"this_thread::register_this_thread\");\n        return;\n    }", "void wait()\n{\n    if(!registered_or_log())\n    {\n        return;\n    }")], None),
    ('r06', 'ok', 'MakeThread,ThreadBody', T, [("auto make_thread(const std::string& name) -> thread\n{", "static void thread_main(const std::string& name)\n{\n    name_thread(name);\n    this_thread::register_this_thread(name);\n    on_thread_start(name);\n    for(;;)\n    {\n        if(this_thread::notified_for_exit())\n        {\n            break;\n        }\n        this_thread::wait();\n    }\n    this_thread::unregister_this_thread();\n}\n\nauto make_thread(const std::string& name) -> thread\n{"),
        ("                 name_thread(name);\n\n                 this_thread::register_this_thread(name);\n\n                 on_thread_start(name);\n\n                 while(!this_thread::notified_for_exit())\n                 {\n                     this_thread::wait();\n                 }\n\n                 this_thread::unregister_this_thread();\n", "                 thread_main(name);\n")], None),
    ('r07', 'ok', 'UnregisterThisThread', T, [("    std::swap(tasks, context->tasks);\n    std::swap(processing_tasks, context->processing_tasks);\n    context->processing_idx = 0;\n", "    context->processing_idx = 0;\n    processing_tasks = std::move(context->processing_tasks);\n    context->processing_tasks.clear();\n    tasks.swap(context->tasks);\n"), ("    global_context.contexts.erase(id);\n", "    global_context.contexts.erase(it);\n")], None),
    ('r08', 'ok', 'Shutdown', T, [("    do\n    {\n        if(init_count == 0)\n        {\n            log_error_func(\"Shutting down when not initted.\");\n            return -1;\n        }\n    } while(!global_context.init_count.compare_exchange_weak(init_count, init_count - 1));", "    while(true)\n    {\n        if(init_count == 0)\n        {\n            log_error_func(\"Shutting down when not initted.\");\n            return -1;\n        }\n        if(global_context.init_count.compare_exchange_strong(init_count, init_count - 1))\n        {\n            break;\n        }\n    }")], None),
    ('r09', 'ok', 'RegisterThread,RegisterThisThread,RegisterThisThreadNamed', T, [("    auto& global_context = get_global_context();\n    std::unique_lock<std::mutex> lock(global_context.mutex);\n    auto id = [&]()", "    auto& global_context = get_global_context();\n    auto local_context = std::make_shared<thread_context>();\n    local_context->native_thread_id = native_thread_id;\n    local_context->name = name;\n    std::unique_lock<std::mutex> lock(global_context.mutex);\n    auto id = [&]()"), ("    auto local_context = std::make_shared<thread_context>();\n    local_context->tasks.reserve", "    local_context->tasks.reserve"), ("    local_context->native_thread_id = native_thread_id;\n    local_context->id = id;", "    local_context->id = id;"), ("    local_context->name = name;\n    global_context.id_map[native_thread_id] = id;\n    global_context.contexts.emplace(id, local_context);", "    global_context.contexts[id] = local_context;\n    global_context.id_map[native_thread_id] = id;")], None),
    ('r10', 'ok', 'RegisterThread,RegisterThisThread,RegisterThisThreadNamed,UnregisterThisThread,Wait,WaitFor,Process,ThreadBody', T, [("unregister_thread_impl", "release_context"), ("register_thread_impl", "acquire_context"), ("process_one", "run_next"), ("prepare_tasks", "refill")], 'all'),
    ('r11', 'ok', 'ThreadAssign,ThreadDtor,ThreadEnd,ThreadMoveAssign', T, [("thread& thread::operator=(thread&& th) noexcept\n{\n    if(joinable())\n    {\n        join();\n    }\n    swap(th);", "static void finish(thread& t)\n{\n    if(t.joinable())\n    {\n        t.join();\n    }\n}\n\nthread& thread::operator=(thread&& th) noexcept\n{\n    finish(*this);\n    th.swap(*this);"), ("thread::~thread()\n{\n    if(joinable())\n    {\n        join();\n    }\n}", "thread::~thread()\n{\n    finish(*this);\n}")], None),
    ('r12', 'ok', 'PendingCount,PendingCountDetailed', T, [("    const auto left_to_process = context->processing_tasks.size() - context->processing_idx;\n    const auto pending = context->tasks.size();\n    const auto processing = context->processing_stack_depth.load();\n    const auto total = processing + left_to_process + pending;\n\n    task_info info;\n    info.count = total;\n", "    task_info info;\n    info.count += context->tasks.size();\n    info.count += context->processing_stack_depth;\n    info.count += context->processing_tasks.size();\n    info.count -= context->processing_idx;\n")], None),
    ('r20', 'ok', 'AddJob,AddJobAsks', TP, [("        auto& job = jobs_[id];\n", "        auto& job = jobs_.emplace(id, job_info{}).first->second;\n")], None),
    ('r21', 'ok', 'CheckJobs,Stop', TP, [("        if(it != jobs_.end())\n        {\n            if(check_callable)\n            {\n                if(it->second.callable)\n                {\n                    removed = std::move(it->second);\n                    jobs_.erase(id);\n                }\n            }\n            else\n            {\n                removed = std::move(it->second);\n                jobs_.erase(id);\n            }\n        }", "        if(it == jobs_.end() || (check_callable && !it->second.callable))\n        {\n            return;\n        }\n        std::swap(removed, it->second);\n        jobs_.erase(it);")], None),
    ('r22', 'ok', 'StopAll,PoolEnd', TP, [("        for(auto it = jobs_.begin(); it != jobs_.end();)\n        {\n            // jobs that are running stay until they are done\n            if(it->second.callable)\n            {\n                removed.emplace_back(std::move(it->second));\n                it = jobs_.erase(it);\n            }\n            else\n            {\n                ++it;\n            }\n        }", "        std::vector<job_id> waiting;\n        for(const auto& kvp : jobs_)\n        {\n            if(kvp.second.callable)\n            {\n                waiting.emplace_back(kvp.first);\n            }\n        }\n        for(auto id : waiting)\n        {\n            auto it = jobs_.find(id);\n            removed.emplace_back(std::move(it->second));\n            jobs_.erase(it);\n        }")], None),
    ('r23', 'ok', 'Wait', TP, [("        auto f = [this, id]()\n        {\n            std::lock_guard<std::mutex> lock(guard_);\n            auto it = jobs_.find(id);\n            if(it == jobs_.end())\n            {\n                return make_ready_future().share();\n            }\n            return it->second.callable_future;\n        }();\n\n        f.wait();", "        shared_future<void> f;\n        {\n            std::lock_guard<std::mutex> lock(guard_);\n            auto it = jobs_.find(id);\n            if(it == jobs_.end())\n            {\n                return;\n            }\n            f = it->second.callable_future;\n        }\n\n        f.wait();")], None),
    ('r24', 'ok', 'CheckJobs', TP, [("        priority::category selected_level = level;\n\n        for(const auto& kvp : job_priority_queues_)\n        {\n            auto queue_priority_level = kvp.first;\n\n            if(level <= queue_priority_level)\n            {\n                auto& job_queue = kvp.second;\n\n                if(!job_queue.empty())\n                {\n                    selected_level = queue_priority_level;\n                }\n            }\n        }\n        return job_priority_queues_[selected_level];", "        for(auto it = job_priority_queues_.rbegin(); it != job_priority_queues_.rend(); ++it)\n        {\n            if(it->first < level)\n            {\n                break;\n            }\n            if(!it->second.empty())\n            {\n                return it->second;\n            }\n        }\n        return job_priority_queues_[level];")], None),
    ('r25', 'ok', 'CheckJobs', TP, [("    void check_jobs(priority::category level)\n    {\n        if(this_thread::notified_for_exit())\n        {\n            return;\n        }\n\n        task user_job;\n        job_id id = 0;\n\n        {\n            std::lock_guard<std::mutex> lock(guard_);\n            auto& job_queue = get_highest_priority_queue_above(level);\n\n            if(job_queue.empty())\n            {\n                return;\n            }\n", "    auto take_job(priority::category level, job_id& id) -> task\n    {\n        task user_job;\n        {\n            std::lock_guard<std::mutex> lock(guard_);\n            auto& job_queue = get_highest_priority_queue_above(level);\n\n            if(job_queue.empty())\n            {\n                return user_job;\n            }\n"), ("                job_queue.pop();\n                return;\n            }\n            auto& job", "                job_queue.pop();\n                return user_job;\n            }\n            auto& job"), ("            job_queue.pop();\n        }\n        ////////////\n        if(user_job)", "            job_queue.pop();\n        }\n        return user_job;\n    }\n\n    void check_jobs(priority::category level)\n    {\n        if(this_thread::notified_for_exit())\n        {\n            return;\n        }\n        job_id id = 0;\n        task user_job = take_job(level, id);\n        if(user_job)")], None),
    ('r26', 'ok', 'AddJob,AddJobAsks,ChangePriority,ChangePriorityAsks', TP, [("        for(const auto& kvp : workers_)\n        {\n            auto priority = kvp.first;\n\n            if(priority <= max_priority)\n            {\n                auto& workers = workers_[priority];\n                for(auto& w : workers)\n                {\n                    // always queue it, guard_ is locked here\n                    // even if this thread is one of the workers\n                    invoke(w.get_id(),\n                           [this, priority]()\n                           {\n                               check_jobs(priority);\n                           });\n                }\n            }\n        }", "        for(const auto& kvp : workers_)\n        {\n            auto priority = kvp.first;\n\n            if(priority > max_priority)\n            {\n                break;\n            }\n            for(const auto& w : kvp.second)\n            {\n                invoke(w.get_id(),\n                       [this, priority]()\n                       {\n                           check_jobs(priority);\n                       });\n            }\n        }")], None),
    ('r27', 'ok', 'AddJob,AddJobAsks,ChangePriority,ChangePriorityAsks', TP, [("    void notify_workers(priority::category max_priority)\n    {", "    void ask(const tpp::thread& w, priority::category priority)\n    {\n        invoke(w.get_id(), &impl::call, this, priority);\n    }\n    static void call(impl* self, priority::category p)\n    {\n        self->check_jobs(p);\n    }\n\n    void notify_workers(priority::category max_priority)\n    {"), ("                    invoke(w.get_id(),\n                           [this, priority]()\n                           {\n                               check_jobs(priority);\n                           });", "                    ask(w, priority);")], None),
    ('r28', 'ok', 'WaitAll', TP, [("            for(const auto& jobkvp : jobs_)\n            {\n                auto& job = jobkvp.second;\n                futures.emplace_back(job.callable_future);\n            }", "            for(auto it = jobs_.begin(), end = jobs_.end(); it != end; ++it)\n            {\n                futures.push_back(it->second.callable_future);\n            }"), ("        for(const auto& future : futures)\n        {\n            future.wait();\n        }", "        while(!futures.empty())\n        {\n            futures.back().wait();\n            futures.pop_back();\n        }")], None),
    ('r29', 'ok', 'ChangePriority,ChangePriorityAsks', TP, [("        if(it == jobs_.end())\n        {\n            return;\n        }\n\n        job_info& job = it->second;\n\n        if(!job.callable || job.handle.group == group)\n        {\n            return;\n        }\n\n        job.handle.group = group;\n\n        add_job_handle(job.handle);", "        if(it != jobs_.end())\n        {\n            auto& job = it->second;\n            const bool same = job.handle.group == group;\n            if(job.callable && !same)\n            {\n                auto handle = job.handle;\n                handle.group = group;\n                job.handle = handle;\n                add_job_handle(handle);\n            }\n        }")], None),
    ('r30', 'ok', 'SetValueVoid,SetValue,SetException', FS, [("        for(const auto& continuation : continuations)\n        {\n            if(continuation)\n            {\n                continuation();\n            }\n        }\n    }\n", "        run_all(continuations);\n    }\n\n    static void run_all(const callback_container& continuations)\n    {\n        for(auto it = continuations.begin(); it != continuations.end(); ++it)\n        {\n            if(*it)\n            {\n                (*it)();\n            }\n        }\n    }\n")], None),
    ('r31', 'ok', 'SetContinuation,ThenIdPolicy,ThenPlain', FS, [("        {\n            std::lock_guard<std::mutex> lock(guard);\n            if(!ready())\n            {\n                callbacks.emplace_back(std::move(continuation));\n                return;\n            }\n        }\n\n        if(continuation)\n        {\n            continuation();\n        }", "        std::unique_lock<std::mutex> lock(guard);\n        if(ready())\n        {\n            lock.unlock();\n            if(continuation != nullptr)\n            {\n                continuation();\n            }\n            return;\n        }\n        callbacks.push_back(std::move(continuation));")], None),
    ('r32', 'ok', 'FutureWait,FutureWaitVoid,FutureGet', FS, [("        while(!ready())\n        {\n            if(this_thread::notified_for_exit())\n            {\n                break;\n            }\n            cv.wait(lock);\n        }", "        for(;;)\n        {\n            if(ready() || this_thread::notified_for_exit())\n            {\n                return;\n            }\n            cv.wait(lock);\n        }")], None),
    ('r33', 'ok', 'FutureWaitFor,FutureWaitForVoid,FutureWaitUntil', FS, [("            if(cv.wait_for(lock, timeout_duration) == std::cv_status::timeout)\n            {\n                return ready() ? std::future_status::ready : std::future_status::timeout;\n            }", "            const bool timed_out = cv.wait_for(lock, timeout_duration) == std::cv_status::timeout;\n            if(timed_out && !ready())\n            {\n                return std::future_status::timeout;\n            }")], None),
    ('r34', 'ok', 'CvNotifyOne,CvNotifyAll', S, [("    auto waiter = [&]()\n    {\n        std::lock_guard<std::mutex> lock(mutex_);\n\n        if(!waiters_.empty())\n        {\n            // The standard doesn't specify any order/priority\n            // here. We are fair and wake the oldest one\n            auto waiter = std::move(waiters_.front());\n            waiters_.erase(waiters_.begin());\n            // a waiter which is no longer registered\n            // must be able to see why\n            waiter.token.interrupt();\n\n            return waiter;\n        }\n\n        return waiter_info();\n    }();\n", "    waiter_info waiter = waiter_info();\n    {\n        std::lock_guard<std::mutex> lock(mutex_);\n        if(waiters_.size() > 0)\n        {\n            std::swap(waiter, *waiters_.begin());\n            waiter.token.interrupt();\n            waiters_.erase(waiters_.begin());\n        }\n    }\n"), ("    auto waiters = [&]()\n    {\n        std::lock_guard<std::mutex> lock(mutex_);\n\n        // a waiter which is no longer registered\n        // must be able to see why\n        for(auto& waiter : waiters_)\n        {\n            waiter.token.interrupt();\n        }\n\n        return std::move(waiters_);\n    }();\n", "    std::vector<waiter_info> waiters;\n    {\n        std::lock_guard<std::mutex> lock(mutex_);\n        waiters.swap(waiters_);\n        for(std::size_t i = waiters.size(); i > 0; --i)\n        {\n            waiters[i - 1].token.interrupt();\n        }\n    }\n")], None),
    ('r36', 'ok', 'Shutdown', T, [("    for(const auto& id : all_threads)\n    {\n        notify_for_exit(id);\n    }", "    while(!all_threads.empty())\n    {\n        notify_for_exit(all_threads.back());\n        all_threads.pop_back();\n    }")], None),
    ('r37', 'ok', 'Shutdown', T, [("    for(const auto& id : all_threads)\n    {\n        notify_for_exit(id);\n    }", "    for(auto it = all_threads.rbegin(); it != all_threads.rend(); ++it)\n    {\n        notify_for_exit(*it);\n    }")], None),
    ('r38', 'ok', 'AddJob,AddJobAsks', TP, [("                for(auto& w : workers)\n                {\n                    // always queue it, guard_ is locked here\n                    // even if this thread is one of the workers\n                    invoke(w.get_id(),", "                for(size_t i = workers.size(); i-- > 0;)\n                {\n                    invoke(workers[i].get_id(),")], None),
    ('r39', 'ok', 'CvNotifyAll', S, [("    for(auto& waiter : waiters)\n    {\n        if(waiter.id != invalid_id())\n        {\n            notify(waiter.id);\n        }\n    }", "    std::for_each(waiters.begin(), waiters.end(), [](const waiter_info& waiter)\n    {\n        if(waiter.id == invalid_id())\n        {\n            return;\n        }\n        notify(waiter.id);\n    });")], None),
    ('r40', 'ok', 'ListThreads,Shutdown', T, [("    for(const auto& p : global_context.contexts)\n    {\n        result.emplace_back(p.first);\n    }", "    std::transform(global_context.contexts.begin(), global_context.contexts.end(), std::back_inserter(result), [](const std::pair<const thread::id, std::shared_ptr<thread_context>>& p) { return p.first; });"), ("#include ", "#include <algorithm>\n#include <iterator>\n#include ")], None),
    ('r35', 'ok', 'CvWait,CvWaitFor', S, [("    while(!token.is_interrupted())\n    {\n        if(this_thread::notified_for_exit())\n        {\n            break;\n        }\n\n        if(before_wait)", "    while(!token.is_interrupted() && !this_thread::notified_for_exit())\n    {\n        if(before_wait)")], None),
]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    todo = [m for m in M if m[4] is not None and (not args or any(re.fullmatch(a, m[0]) for a in args))]
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
        print('%d unexpected' % sum(ex.map(lambda m: one(here, *m), todo)))


def one(here, mid, want, only, f, old, new):
    tmp = tempfile.mkdtemp(prefix='mut-')
    try:
        shutil.copytree('/repo/threadpp', os.path.join(tmp, 'threadpp'))
        p = os.path.join(tmp, f)
        s = open(p).read()
        for o, n in old if isinstance(old, list) else [(old, new)]:
            if o not in s:
                print('%s: text not found' % mid, flush=True)
                return 1
            s = s.replace(o, n, -1 if new == 'all' else 1)
        open(p, 'w').write(s)
        env = dict(os.environ, ITCV_REPO=tmp, ITCV_SCRATCH='1')
        cmd = ['python3-vt', os.path.join(here, 'itcv', 'run.py'), 'ALL' if want == 'ok' else want, '--no-native', '--tags'] + (['--only', only] if only else [])
        r = subprocess.run(cmd, capture_output=True, text=True, env=env)
        tags = set()
        names = set()
        for l in r.stdout.splitlines():
            m = re.match(r'refuted: (.*?) \[(.*?)\]', l)
            if m:
                names.add(m.group(1))
                tags |= set(m.group(2).split(','))
        und = [l[:400] for l in r.stdout.splitlines() if l.startswith(('undecided', 'the tree'))]
        ok = (r.returncode == 0 and not und) if want == 'ok' else want in tags
        print('%-5s %s %-4s reported: %-24s %s %s' % (mid, 'ok  ' if ok else 'MISS', want, ','.join(sorted(tags)) or '-', sorted(names), und or ''), flush=True)
        if r.returncode not in (0, 1, 2):
            print(r.stderr[-800:], flush=True)
        return not ok
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
