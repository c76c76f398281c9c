#ifndef EXE4CPP_STRANDEXECUTOR_H
#define EXE4CPP_STRANDEXECUTOR_H
#include <memory>
#include "asio.hpp"
#include "exe4cpp/IExecutor.h"
namespace exe4cpp
{
class StrandExecutor final : public IExecutor, public std::enable_shared_from_this<StrandExecutor>
{
    class StrandTimer final : public exe4cpp::ITimer
    {
    public:
        StrandTimer(asio::io_service& service) : m_timer(service) {}
        void cancel() override { m_timer.cancel(); }
        steady_time_t expires_at() override { return m_timer.expiry(); }
        asio::steady_timer m_timer;
    };
public:
    explicit StrandExecutor(const std::shared_ptr<asio::io_service>& io_service)
        : m_io_service(io_service), m_strand(*io_service) {}
    template <class Handler> auto wrap(const Handler& handler) { return m_strand.wrap(handler); }
    steady_time_t get_time() override { return std::chrono::steady_clock::now(); }
    Timer start(const duration_t& duration, const action_t& action) override { return start(get_time() + duration, action); }
    Timer start(const steady_time_t& expiration, const action_t& action) override
    {
        auto timer = std::make_shared<StrandTimer>(*m_io_service);
        timer->m_timer.expires_at(expiration);
        timer->m_timer.async_wait(wrap([timer, action, self = shared_from_this()](const std::error_code& ec) {
            if(!ec) action();
        }));
        return Timer(timer);
    }
    void post(const action_t& action) override
    {
        m_strand.post([action, self = shared_from_this()]() { action(); });
    }
    std::shared_ptr<StrandExecutor> fork() { return std::make_shared<StrandExecutor>(m_io_service); }
    std::shared_ptr<asio::io_service> get_context() { return m_io_service; }
private:
    std::shared_ptr<asio::io_service> m_io_service;
    asio::io_service::strand m_strand;
};
}
#endif
