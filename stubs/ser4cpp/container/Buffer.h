#ifndef SER4CPP_BUFFER_H
#define SER4CPP_BUFFER_H
#include <memory>
#include "ser4cpp/container/SequenceTypes.h"
namespace ser4cpp
{
class Buffer : public HasLength<size_t>
{
public:
    Buffer() : HasLength(0) {}
    explicit Buffer(size_t length) : HasLength(length), m_bytes(new uint8_t[length]()) {}
    explicit Buffer(const rseq_t& input) : HasLength(input.length()), m_bytes(new uint8_t[input.length()])
    {
        if(input.length() > 0) memcpy(m_bytes.get(), static_cast<const uint8_t*>(input), input.length());
    }
    Buffer(const Buffer&) = delete;
    Buffer& operator=(const Buffer&) = delete;
    Buffer(Buffer&&) = default;
    Buffer& operator=(Buffer&&) = default;
    virtual ~Buffer() = default;
    rseq_t as_rslice() const { return rseq_t(m_bytes.get(), length()); }
    wseq_t as_wslice() { return wseq_t(m_bytes.get(), length()); }
    const uint8_t* operator()() const { return m_bytes.get(); }
    uint8_t* operator()() { return m_bytes.get(); }
    const uint8_t& operator[](size_t index) const { return m_bytes[index]; }
    uint8_t& operator[](size_t index) { return m_bytes[index]; }
private:
    std::unique_ptr<uint8_t[]> m_bytes;
};
}
#endif
