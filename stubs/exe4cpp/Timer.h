#ifndef EXE4CPP_TIMER_H
#define EXE4CPP_TIMER_H
#include <memory>
#include "exe4cpp/Typedefs.h"
namespace exe4cpp
{
class ITimer
{
public:
    virtual ~ITimer() = default;
    virtual void cancel() = 0;
    virtual steady_time_t expires_at() = 0;
};
class Timer
{
public:
    Timer() : m_timer(nullptr) {}
    explicit Timer(const std::shared_ptr<ITimer>& timer) : m_timer(timer) {}
    bool is_active() const { return m_timer ? true : false; }
    bool cancel()
    {
        if(m_timer)
        {
            m_timer->cancel();
            m_timer.reset();
            return true;
        }
        return false;
    }
    steady_time_t expires_at() const { return m_timer ? m_timer->expires_at() : steady_time_t::max(); }
private:
    std::shared_ptr<ITimer> m_timer;
};
}
#endif
