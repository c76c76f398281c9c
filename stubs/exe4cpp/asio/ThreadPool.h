#ifndef EXE4CPP_THREADPOOL_H
#define EXE4CPP_THREADPOOL_H
#include <functional>
#include <memory>
#include <thread>
#include <vector>
#include "asio.hpp"
#include "exe4cpp/asio/StrandExecutor.h"
namespace exe4cpp
{
class ThreadPool final
{
public:
    ThreadPool(const std::shared_ptr<asio::io_service>& io_service, uint32_t concurrency,
               std::function<void(uint32_t)> on_thread_start = [](uint32_t) {},
               std::function<void(uint32_t)> on_thread_exit = [](uint32_t) {})
        : m_io_service(io_service), m_infinite_timer(*io_service), m_is_shutdown(false)
    {
        if(concurrency == 0) concurrency = 1;
        m_infinite_timer.expires_at(std::chrono::steady_clock::time_point::max());
        m_infinite_timer.async_wait([](const std::error_code&) {});
        for(uint32_t i = 0; i < concurrency; ++i)
        {
            m_threads.emplace_back([this, i, on_thread_start, on_thread_exit]() {
                on_thread_start(i);
                m_io_service->run();
                on_thread_exit(i);
            });
        }
    }
    ~ThreadPool() { shutdown(); }
    void shutdown()
    {
        if(!m_is_shutdown)
        {
            m_is_shutdown = true;
            m_infinite_timer.cancel();
            for(auto& thread : m_threads) thread.join();
        }
    }
private:
    std::shared_ptr<asio::io_service> m_io_service;
    asio::steady_timer m_infinite_timer;
    bool m_is_shutdown;
    std::vector<std::thread> m_threads;
};
}
#endif
