#ifndef SER4CPP_STATICBUFFER_H
#define SER4CPP_STATICBUFFER_H
#include "ser4cpp/container/SequenceTypes.h"
namespace ser4cpp
{
template <size_t LENGTH> class StaticBuffer
{
public:
    StaticBuffer() = default;
    rseq_t as_seq() const { return rseq_t(m_buffer, LENGTH); }
    rseq_t as_seq(size_t max_size) const { return as_seq().take(max_size); }
    wseq_t as_wseq() { return wseq_t(m_buffer, LENGTH); }
    wseq_t as_wseq(size_t max_size) { return wseq_t(m_buffer, (max_size <= LENGTH) ? max_size : LENGTH); }
    size_t length() const { return LENGTH; }
private:
    uint8_t m_buffer[LENGTH] = {0};
};
}
#endif
