#ifndef EXE4CPP_MOCKEXECUTOR_H
#define EXE4CPP_MOCKEXECUTOR_H
#include <deque>
#include <limits>
#include <vector>
#include "exe4cpp/IExecutor.h"
namespace exe4cpp
{
class MockExecutor final : public IExecutor, public std::enable_shared_from_this<MockExecutor>
{
    class MockTimer final : public ITimer
    {
    public:
        MockTimer(MockExecutor* source, const steady_time_t& time, const action_t& action)
            : m_source(source), m_time(time), m_action(action) {}
        void cancel() override { m_source->cancel(this); }
        steady_time_t expires_at() override { return m_time; }
        MockExecutor* m_source;
        steady_time_t m_time;
        action_t m_action;
    };
public:
    MockExecutor() : m_current_time(std::chrono::milliseconds(0)) {}
    steady_time_t get_time() override { return m_current_time; }
    Timer start(const duration_t& duration, const action_t& action) override { return start(m_current_time + duration, action); }
    Timer start(const steady_time_t& expiration, const action_t& action) override
    {
        auto timer = std::make_shared<MockTimer>(this, expiration, action);
        m_timers.push_back(timer);
        return Timer(timer);
    }
    void post(const action_t& action) override { m_posts.push_back(action); }
    size_t run_many(size_t maximum = std::numeric_limits<size_t>::max())
    {
        size_t num = 0;
        while(num < maximum && run_one()) ++num;
        return num;
    }
    bool run_one()
    {
        check_for_expired_timers();
        if(m_posts.empty()) return false;
        auto action = m_posts.front();
        m_posts.pop_front();
        action();
        return true;
    }
    size_t advance_time(duration_t duration)
    {
        m_current_time += duration;
        return check_for_expired_timers();
    }
    size_t num_active() const { return m_posts.size(); }
    size_t num_timers() const { return m_timers.size(); }
private:
    size_t check_for_expired_timers()
    {
        size_t count = 0;
        while(true)
        {
            auto best = m_timers.end();
            for(auto it = m_timers.begin(); it != m_timers.end(); ++it)
            {
                if((*it)->m_time <= m_current_time && (best == m_timers.end() || (*it)->m_time < (*best)->m_time)) best = it;
            }
            if(best == m_timers.end()) return count;
            m_posts.push_back((*best)->m_action);
            m_timers.erase(best);
            ++count;
        }
    }
    void cancel(ITimer* timer)
    {
        for(auto it = m_timers.begin(); it != m_timers.end(); ++it)
        {
            if(it->get() == timer)
            {
                m_timers.erase(it);
                return;
            }
        }
    }
    steady_time_t m_current_time;
    std::deque<action_t> m_posts;
    std::vector<std::shared_ptr<MockTimer>> m_timers;
};
}
#endif
