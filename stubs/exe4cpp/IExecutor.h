#ifndef EXE4CPP_IEXECUTOR_H
#define EXE4CPP_IEXECUTOR_H
#include "exe4cpp/Timer.h"
#include "exe4cpp/Typedefs.h"
namespace exe4cpp
{
class IExecutor
{
public:
    virtual ~IExecutor() = default;
    virtual steady_time_t get_time() = 0;
    virtual Timer start(const duration_t& duration, const action_t& action) = 0;
    virtual Timer start(const steady_time_t& expiration, const action_t& action) = 0;
    virtual void post(const action_t& action) = 0;
};
}
#endif
