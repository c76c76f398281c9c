// Stand-in for the ser4cpp dependency (not installable offline). Same API and
// behaviour as far as modbus-cpp uses it; only used to parse / link /repo.
#ifndef SER4CPP_SEQUENCETYPES_H
#define SER4CPP_SEQUENCETYPES_H
#include <cstddef>
#include <cstdint>
#include <cstring>
namespace ser4cpp
{
template <class L> class HasLength
{
public:
    HasLength(L length) : m_length{length} {}
    L length() const { return m_length; }
    bool is_empty() const { return m_length == 0; }
    bool is_not_empty() const { return m_length != 0; }
protected:
    L m_length;
};
template <class L> class RSeq : public HasLength<L>
{
public:
    static RSeq empty() { return RSeq(); }
    RSeq() : HasLength<L>(0), m_buffer(nullptr) {}
    RSeq(const uint8_t* buffer, L length) : HasLength<L>(length), m_buffer(buffer) {}
    void make_empty() { m_buffer = nullptr; this->m_length = 0; }
    RSeq take(L count) const { return RSeq(m_buffer, (this->m_length < count) ? this->m_length : count); }
    RSeq skip(L count) const
    {
        const auto num = (this->m_length < count) ? this->m_length : count;
        return RSeq(m_buffer + num, this->m_length - num);
    }
    void advance(L count)
    {
        const auto num = (this->m_length < count) ? this->m_length : count;
        m_buffer += num;
        this->m_length -= num;
    }
    bool equals(const RSeq& rhs) const
    {
        return this->m_length == rhs.m_length && (this->m_length == 0 || memcmp(m_buffer, rhs.m_buffer, this->m_length) == 0);
    }
    operator uint8_t const*() const { return m_buffer; }
private:
    const uint8_t* m_buffer;
};
template <class L> class WSeq : public HasLength<L>
{
public:
    static WSeq empty() { return WSeq(); }
    WSeq() : HasLength<L>(0), m_buffer(nullptr) {}
    WSeq(uint8_t* buffer, L length) : HasLength<L>(length), m_buffer(buffer) {}
    void set_all_to(uint8_t value) { memset(m_buffer, value, this->m_length); }
    void make_empty() { m_buffer = nullptr; this->m_length = 0; }
    WSeq take(L count) const { return WSeq(m_buffer, (this->m_length < count) ? this->m_length : count); }
    WSeq skip(L count) const
    {
        const auto num = (this->m_length < count) ? this->m_length : count;
        return WSeq(m_buffer + num, this->m_length - num);
    }
    L advance(L count)
    {
        const auto num = (this->m_length < count) ? this->m_length : count;
        m_buffer += num;
        this->m_length -= num;
        return num;
    }
    bool put(uint8_t byte)
    {
        if(this->m_length == 0) return false;
        m_buffer[0] = byte;
        advance(1);
        return true;
    }
    RSeq<L> copy_from(const RSeq<L>& source)
    {
        if(source.length() > this->m_length) return RSeq<L>::empty();
        auto ret = this->readonly().take(source.length());
        if(source.length() > 0)
        {
            memcpy(m_buffer, source, source.length());
            advance(source.length());
        }
        return ret;
    }
    RSeq<L> move_from(const RSeq<L>& source)
    {
        if(source.length() > this->m_length) return RSeq<L>::empty();
        auto ret = this->readonly().take(source.length());
        if(source.length() > 0)
        {
            memmove(m_buffer, source, source.length());
            advance(source.length());
        }
        return ret;
    }
    RSeq<L> readonly() const { return RSeq<L>(m_buffer, this->m_length); }
    operator uint8_t*() { return m_buffer; }
    operator uint8_t const*() const { return m_buffer; }
private:
    uint8_t* m_buffer;
};
using rseq_t = RSeq<size_t>;
using wseq_t = WSeq<size_t>;
}
#endif
