#ifndef SER4CPP_BIGENDIAN_H
#define SER4CPP_BIGENDIAN_H
#include "ser4cpp/container/SequenceTypes.h"
namespace ser4cpp
{
class UInt8
{
public:
    typedef uint8_t type_t;
    const static size_t size = 1;
    static bool read_from(rseq_t& input, uint8_t& out)
    {
        if(input.length() < size) return false;
        out = input[0];
        input.advance(size);
        return true;
    }
    static bool write_to(wseq_t& dest, uint8_t value)
    {
        if(dest.length() < size) return false;
        dest[0] = value;
        dest.advance(size);
        return true;
    }
};
class UInt16
{
public:
    typedef uint16_t type_t;
    const static size_t size = 2;
    static bool read_from(rseq_t& input, uint16_t& out)
    {
        if(input.length() < size) return false;
        out = static_cast<uint16_t>((input[0] << 8) | input[1]);
        input.advance(size);
        return true;
    }
    static bool write_to(wseq_t& dest, uint16_t value)
    {
        if(dest.length() < size) return false;
        dest[0] = static_cast<uint8_t>(value >> 8);
        dest[1] = static_cast<uint8_t>(value & 0xFF);
        dest.advance(size);
        return true;
    }
};
}
#endif
