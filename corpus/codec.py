M = 'lib/src/messages/'
RB, RR = M + 'ReadBitsRequestImpl.cpp', M + 'ReadRegistersRequestImpl.cpp'
WC, WR = M + 'WriteMultipleCoilsRequestImpl.cpp', M + 'WriteMultipleRegistersRequestImpl.cpp'
SC, SR = M + 'WriteSingleCoilRequestImpl.cpp', M + 'WriteSingleRegisterRequestImpl.cpp'
PB, PR = M + 'ReadBitsResponseImpl.cpp', M + 'ReadRegistersResponseImpl.cpp'
PC, PW = M + 'WriteMultipleCoilsResponseImpl.cpp', M + 'WriteMultipleRegistersResponseImpl.cpp'
PS = M + 'WriteSingleCoilResponseImpl.cpp'
PSR = M + 'WriteSingleRegisterResponseImpl.cpp'
IM, ET, ER = M + 'IMessage.cpp', M + 'ExceptionType.cpp', M + 'ExceptionResponse.cpp'
MB = M + 'mbap/MbapMessage.cpp'
WCH = M + 'WriteMultipleCoilsRequestImpl.h'

PACK = '''    unsigned int current_bit = 0;
    for(unsigned int i = 0; i < num_bytes; ++i)
    {
        uint8_t value = 0x00;
        for(unsigned int j = 0; j < 8; ++j)
        {
            if(current_bit >= m_request.values.size())
            {
                break;
            }

            value |= static_cast<uint8_t>(m_request.values[current_bit]) << j;

            ++current_bit;
        }

        ser4cpp::UInt8::write_to(buffer, value);
    }
'''
EDITS = [
 # ---- wrong
 ('packmod', 'bad', 'C01', [(WC, 'if(current_bit >= m_request.values.size())', 'if(current_bit >= m_request.values.size() || (current_bit >= 1024 && j == 7))')]),
 ('packshift', 'bad', 'C01', [(WC, '<< j;', '<< (7 - j);')]),
 ('pack9', 'bad', 'C01', [(WC, 'qty_of_outputs % 8 != 0', 'qty_of_outputs % 8 != 0 || qty_of_outputs == 1968')]),
 ('qtytrunc', 'bad', 'C01', [(WR, 'static_cast<uint16_t>(m_request.values.size())', 'static_cast<uint8_t>(m_request.values.size() & 0x3F)')]),
 ('regbc', 'bad', 'C01', [(WR, 'static_cast<uint8_t>(2 * m_request.values.size())', 'static_cast<uint8_t>(2 * m_request.values.size() - (m_request.values.size() > 120 ? 1 : 0))')]),
 ('coilval', 'bad', 'C01', [(SC, 'value = WriteSingleCoilRequestImpl::ON;', 'value = 0x00FF;')]),
 ('rspbc', 'bad', 'C02', [(PB, 'get_message_length() - 2', 'm_response.values.size() / 8')]),
 ('rsplast', 'bad', 'C02', [(PB, 'if(current_offset != 0)', 'if(current_offset > 1)')]),
 ('rsporder', 'bad', 'C02', [(PW, 'm_response.starting_address); // Starting', 'm_response.qty_of_registers); // Starting')]),
 ('rspreset', 'bad', 'C02', [(PB, '            current_byte = 0x00;\n', '')]),
 ('len', 'bad', 'C03', [(WC, 'return 6 + get_byte', 'return 5 + get_byte')]),
 ('rsplen', 'bad', 'C03', [(PB, 'if(m_response.values.size() % 8 != 0)', 'if(m_response.values.size() % 8 > 1)')]),
 ('mlen', 'bad', 'C03', [(MB, '(uint16_t)(length + 1)', '(uint16_t)((length + 1) & 0x7F)')]),
 ('mtake', 'bad', 'C03', [(MB, 'take(length + 7)', 'take(length + 6)')]),
 ('mtx', 'bad', 'C03', [(MB, 'ser4cpp::UInt16::write_to(buffer, 0x0000);', 'ser4cpp::UInt16::write_to(buffer, transaction_id.get_value() > 0x7FFF ? 1 : 0);')]),
 ('maxbits', 'bad', 'C04', [(RB, 'qty_of_bits > ReadBitsRequestImpl<function_code, request_t>::max_bits', 'qty_of_bits >= ReadBitsRequestImpl<function_code, request_t>::max_bits')]),
 ('maxregs', 'bad', 'C04', [(RR, '::max_registers)', '::max_registers + 1)')]),
 ('wclen', 'bad', 'C04', [(WC, 'if(byte_count != view.length())', 'if(byte_count > view.length())')]),
 ('wcbc', 'bad', 'C04', [(WC, 'if(get_byte_count_from_qty_of_outputs(qty_of_outputs) != byte_count)', 'if(get_byte_count_from_qty_of_outputs(qty_of_outputs) > byte_count)')]),
 ('wrodd', 'bad', 'C04', [(WR, 'if(2 * qty_of_registers != byte_count)', 'if(qty_of_registers != byte_count / 2)')]),
 ('coilany', 'bad', 'C04', [(SC, '        case WriteSingleCoilRequestImpl::OFF:', '        default:'), (SC, '        default:\n            return', '        case 0x1234:\n            return')]),
 ('bitord', 'bad', 'C04', [(WC, '(current_value >> i) & 0x01', '(current_value >> (num_bits_to_extract - 1 - i)) & 0x01')]),
 ('rspaddr', 'bad', 'C05', [(PR, 'auto current_address = req.get_request().starting_address;', 'auto current_address = static_cast<uint16_t>(req.get_request().starting_address & 0x7FFF);')]),
 ('rspcheck', 'bad', 'C05', [(PB, 'if(length != expected_num_bytes)', 'if(length < expected_num_bytes)')]),
 ('rspextra', 'bad', 'C05', [(PB, 'num_bits_to_extract = 8;', 'num_bits_to_extract = 7;')]),
 ('rspexc', 'bad', 'C05', [(IM, '    if((read_function_code & 0x7F) != function_code)', '    if((read_function_code & 0x3F) != function_code)')]),
 ('rspexclen', 'bad', 'C05', [(IM, 'if(data.length() != 1)', 'if(data.length() < 1)')]),
 ('rspsingle', 'bad', 'C05', [(PS, 'if(view.length() != 4)', 'if(view.length() < 4)')]),
 ('short', 'bad', 'C06', [(WC, '    if(view.length() < 6)\n', '    if(view.length() < 5)\n')]),
 ('short2', 'bad', 'C06', [(PR, '    if(view.length() < 1)\n', '    if(view.length() < 0)\n')]),
 ('table', 'bad', 'C07', [(ET, 'case 0x0A:\n', 'case 0x09:\n')]),
 ('table2', 'bad', 'C07', [(ET, '        case 0x05:\n            return ExceptionType::Acknowledge;', '        case 0x05:\n        case 0x07:\n            return ExceptionType::Acknowledge;')]),
 ('valid', 'bad', 'C08', [(WC, 'm_request.values.size() <= m_request.max_coils', 'm_request.values.size() < m_request.max_coils')]),
 ('valid2', 'bad', 'C08', [(RB, 'return m_request.qty_of_bits > 0 &&', 'return m_request.qty_of_bits > 0 ||')]),
 # ---- behaviour preserving
 ('ok_packidx', 'ok', 'C01 C03', [(WC, PACK, '''    for(size_t i = 0; i < num_bytes; ++i)
    {
        uint8_t value = 0;
        for(size_t bit = 8 * i; bit < 8 * i + 8 && bit < m_request.values.size(); ++bit)
        {
            if(m_request.values[bit]) value |= static_cast<uint8_t>(1u << (bit % 8));
        }
        ser4cpp::UInt8::write_to(buffer, value);
    }
''')]),
 ('ok_packiter', 'ok', 'C01 C03', [(WC, PACK, '''    auto it = m_request.values.begin();
    while(it != m_request.values.end())
    {
        uint8_t value = 0;
        uint8_t mask = 1;
        do
        {
            if(*it) value = static_cast<uint8_t>(value | mask);
            mask = static_cast<uint8_t>(mask << 1);
            ++it;
        } while(it != m_request.values.end() && mask != 0);
        ser4cpp::UInt8::write_to(buffer, value);
    }
''')]),
 ('ok_packvec', 'ok', 'C01 C03', [(WC, PACK, '''    std::vector<uint8_t> packed(num_bytes, 0);
    for(size_t k = 0; k < m_request.values.size(); ++k)
    {
        packed[k / 8] |= static_cast<uint8_t>((m_request.values[k] ? 1 : 0) << (k % 8));
    }
    for(auto b : packed)
    {
        ser4cpp::UInt8::write_to(buffer, b);
    }
'''), (WC, '#include "messages/WriteMultipleCoilsRequestImpl.h"', '#include "messages/WriteMultipleCoilsRequestImpl.h"\n#include <vector>')]),
 ('ok_packhelper', 'ok', 'C01 C03', [(WC, PACK, '''    for(size_t i = 0; i < m_request.values.size(); i += 8)
    {
        ser4cpp::UInt8::write_to(buffer, pack_byte(m_request, i));
    }
'''), (WC, 'void WriteMultipleCoilsRequestImpl::build_message', '''static uint8_t pack_byte(const WriteMultipleCoilsRequest& request, size_t first)
{
    uint8_t value = 0;
    for(unsigned int j = 0; j < 8 && first + j < request.values.size(); ++j)
    {
        value |= static_cast<uint8_t>(request.values[first + j]) << j;
    }
    return value;
}

void WriteMultipleCoilsRequestImpl::build_message''')]),
 ('ok_ceil', 'ok', 'C01 C03 C04', [(WC, '''    auto num_bytes = qty_of_outputs / 8;
    if (qty_of_outputs % 8 != 0)
    {
        ++num_bytes;
    }
    return num_bytes;''', '    return (qty_of_outputs + 7) / 8;')]),
 ('ok_ceil2', 'ok', 'C02 C03', [(PB, '''    auto num_bytes = m_response.values.size() / 8;
    if(m_response.values.size() % 8 != 0)
    {
        ++num_bytes;
    }
    return 2 + num_bytes;''', '    return 2 + (m_response.values.size() + 7) / 8;')]),
 ('ok_ceil3', 'ok', 'C05 C06', [(PB, '''    auto expected_num_bytes = req.get_request().qty_of_bits / 8;
    if(req.get_request().qty_of_bits % 8 != 0)
    {
        ++expected_num_bytes;
    }''', '    const auto expected_num_bytes = (req.get_request().qty_of_bits + 7) / 8;')]),
 ('ok_regidx', 'ok', 'C01 C03', [(WR, '    for(auto value : m_request.values)\n    {\n        ser4cpp::UInt16::write_to(buffer, value);\n    }', '    for(size_t i = 0; i < m_request.values.size(); ++i)\n    {\n        ser4cpp::UInt16::write_to(buffer, m_request.values.at(i));\n    }')]),
 ('ok_regbytes', 'ok', 'C01 C03', [(WR, '        ser4cpp::UInt16::write_to(buffer, value);\n', '        ser4cpp::UInt8::write_to(buffer, static_cast<uint8_t>(value >> 8));\n        ser4cpp::UInt8::write_to(buffer, static_cast<uint8_t>(value & 0xFF));\n')]),
 ('ok_regalgo', 'ok', 'C01 C03', [(WR, '    for(auto value : m_request.values)\n    {\n        ser4cpp::UInt16::write_to(buffer, value);\n    }', '    std::for_each(m_request.values.begin(), m_request.values.end(), [&buffer](uint16_t v) { ser4cpp::UInt16::write_to(buffer, v); });'), (WR, '#include "messages/WriteMultipleRegistersRequestImpl.h"', '#include "messages/WriteMultipleRegistersRequestImpl.h"\n#include <algorithm>')]),
 ('ok_coiltern', 'ok', 'C01 C03', [(SC, '''    auto value = WriteSingleCoilRequestImpl::OFF;
    if(m_request.value.value == true)
    {
        value = WriteSingleCoilRequestImpl::ON;
    }
    ser4cpp::UInt16::write_to(buffer, value);''', '    ser4cpp::UInt16::write_to(buffer, m_request.value.value ? ON : OFF);')]),
 ('ok_header', 'ok', 'C01 C03', [(RB, '''    ser4cpp::UInt16::write_to(buffer, m_request.starting_address); // Starting address
    ser4cpp::UInt16::write_to(buffer, m_request.qty_of_bits); // Qty of registers''', '''    for(uint16_t word : { m_request.starting_address, m_request.qty_of_bits })
    {
        ser4cpp::UInt16::write_to(buffer, word);
    }''')]),
 ('ok_rsppack', 'ok', 'C02 C03', [(PB, '''        if(value.value)
        {
            current_byte |= static_cast<uint8_t>(1) << current_offset;
        }

        ++current_offset;
        if(current_offset == 8)''', '''        current_byte |= static_cast<uint8_t>((value.value ? 1 : 0) << current_offset);
        current_offset = static_cast<uint8_t>((current_offset + 1) % 8);
        if(current_offset == 0)''')]),
 ('ok_minmb', 'ok', 'C03', [(MB, '    if(length > 253)\n    {\n        length = 253;\n    }\n', '    length = std::min<size_t>(length, 253);\n'), (MB, '#include "MbapMessage.h"' if False else '#include "messages/mbap/MbapMessage.h"', '#include "messages/mbap/MbapMessage.h"\n#include <algorithm>')]),
 ('ok_mbresult', 'ok', 'C03', [(MB, '    auto result = buffer.readonly().take(length + 7);\n', '    const auto start = buffer.readonly();\n'), (MB, '    return result;', '    return start.take(length + 7);')]),
 ('ok_mbtail', 'ok', 'C03', [(MB, '    ser4cpp::UInt16::write_to(buffer, 0x0000);', '    const uint16_t protocol = 0;\n    ser4cpp::UInt16::write_to(buffer, protocol);')]),
 ('ok_rawidx', 'ok', 'C04 C06', [(RB, '    uint8_t read_function_code;\n    ser4cpp::UInt8::read_from(view, read_function_code);\n', '    const uint8_t read_function_code = view[0];\n    view.advance(1);\n')]),
 ('ok_rawall', 'ok', 'C04 C06', [(RB, '    uint16_t starting_address;\n    ser4cpp::UInt16::read_from(view, starting_address);\n', '    const uint16_t starting_address = static_cast<uint16_t>((view[0] << 8) | view[1]);\n    view.advance(2);\n')]),
 ('ok_coilif', 'ok', 'C04 C06', [(SC, '''    switch(value)
    {
        case WriteSingleCoilRequestImpl::ON:
            bool_value = true;
            break;
        case WriteSingleCoilRequestImpl::OFF:
            bool_value = false;
            break;
        default:
            return Expected<WriteSingleCoilRequest>::from_exception(ModbusException{ExceptionType::IllegalDataValue});
    }''', '''    if(value != ON && value != OFF)
    {
        return Expected<WriteSingleCoilRequest>::from_exception(ModbusException{ExceptionType::IllegalDataValue});
    }
    bool_value = value == ON;''')]),
 ('ok_unpackcount', 'ok', 'C04 C06', [(WC, '''    while(ser4cpp::UInt8::read_from(view, current_value))
    {
        auto num_bits_to_extract = qty_of_outputs - request.values.size();
        if(num_bits_to_extract > 8)
        {
            num_bits_to_extract = 8;
        }
        for(unsigned int i = 0; i < num_bits_to_extract; ++i)
        {
            auto bit_value = static_cast<bool>((current_value >> i) & 0x01);
            request.values.emplace_back(bit_value);
        }
    }''', '''    for(unsigned int i = 0; i < qty_of_outputs; ++i)
    {
        current_value = view[i / 8];
        request.values.push_back((current_value & (1u << (i % 8))) != 0);
    }''')]),
 ('ok_unpackmin', 'ok', 'C04 C06', [(WC, '''        auto num_bits_to_extract = qty_of_outputs - request.values.size();
        if(num_bits_to_extract > 8)
        {
            num_bits_to_extract = 8;
        }
''', '        const auto num_bits_to_extract = std::min<size_t>(8, qty_of_outputs - request.values.size());\n'), (WC, '#include "messages/WriteMultipleCoilsRequestImpl.h"', '#include "messages/WriteMultipleCoilsRequestImpl.h"\n#include <algorithm>')]),
 ('ok_unpackmask', 'ok', 'C04 C06', [(WC, '''        for(unsigned int i = 0; i < num_bits_to_extract; ++i)
        {
            auto bit_value = static_cast<bool>((current_value >> i) & 0x01);
            request.values.emplace_back(bit_value);
        }''', '''        for(unsigned int i = 0; i < num_bits_to_extract; ++i)
        {
            request.values.emplace_back((current_value & 1) != 0);
            current_value = static_cast<uint8_t>(current_value >> 1);
        }''')]),
 ('ok_regloop', 'ok', 'C04 C06', [(WR, '    uint16_t current_value;\n    while(ser4cpp::UInt16::read_from(view, current_value))\n    {', '    request.values.reserve(qty_of_registers);\n    for(uint16_t i = 0; i < qty_of_registers; ++i)\n    {\n        uint16_t current_value = 0;\n        ser4cpp::UInt16::read_from(view, current_value);')]),
 ('ok_regraw', 'ok', 'C04 C06', [(WR, '    uint16_t current_value;\n    while(ser4cpp::UInt16::read_from(view, current_value))\n    {', '    for(; view.length() >= 2; view.advance(2))\n    {\n        const uint16_t current_value = static_cast<uint16_t>((view[0] << 8) + view[1]);')]),
 ('ok_checkorder', 'ok', 'C04 C06', [(WR, '    if(2 * qty_of_registers != byte_count)', '    const bool fits = byte_count == qty_of_registers * 2;\n    if(!fits)')]),
 ('ok_rsploop', 'ok', 'C05 C06', [(PR, '    while(ser4cpp::UInt16::read_from(view, current_value))\n    {\n        response.values.emplace_back(RegisterValue{current_address, current_value});\n        ++current_address;\n    }', '    for(uint16_t i = 0; i < req.get_request().qty_of_registers; ++i)\n    {\n        ser4cpp::UInt16::read_from(view, current_value);\n        response.values.push_back(RegisterValue{static_cast<uint16_t>(current_address + i), current_value});\n    }')]),
 ('ok_rspbits', 'ok', 'C05 C06', [(PB, '''    while(ser4cpp::UInt8::read_from(view, current_value))
    {
        auto num_bits_to_extract = req.get_request().qty_of_bits - response.values.size();
        if(num_bits_to_extract > 8)
        {
            num_bits_to_extract = 8;
        }
        for(unsigned int i = 0; i < num_bits_to_extract; ++i)
        {
            auto bit_value = static_cast<bool>((current_value >> i) & 0x01);
            response.values.emplace_back(SingleBitValue{current_address, bit_value});
            ++current_address;
        }
    }''', '''    size_t remaining = req.get_request().qty_of_bits;
    while(remaining > 0 && ser4cpp::UInt8::read_from(view, current_value))
    {
        for(unsigned int i = 0; i < 8 && remaining > 0; ++i, --remaining)
        {
            response.values.emplace_back(SingleBitValue{current_address++, ((current_value >> i) & 1) == 1});
        }
    }''')]),
 ('ok_rspidx', 'ok', 'C05 C06', [(PB, '''    while(ser4cpp::UInt8::read_from(view, current_value))
    {
        auto num_bits_to_extract = req.get_request().qty_of_bits - response.values.size();
        if(num_bits_to_extract > 8)
        {
            num_bits_to_extract = 8;
        }
        for(unsigned int i = 0; i < num_bits_to_extract; ++i)
        {
            auto bit_value = static_cast<bool>((current_value >> i) & 0x01);
            response.values.emplace_back(SingleBitValue{current_address, bit_value});
            ++current_address;
        }
    }''', '''    for(uint16_t k = 0; k < req.get_request().qty_of_bits; ++k)
    {
        current_value = view[k >> 3];
        const bool bit_value = (current_value >> (k & 7)) & 1;
        response.values.emplace_back(SingleBitValue{static_cast<uint16_t>(current_address + k), bit_value});
    }''')]),
 ('ok_fcbits', 'ok', 'C05 C06', [(IM, '    if((read_function_code & 0x80) != 0)\n', '    const bool is_exception = read_function_code >= 0x80;\n    if(is_exception)\n')]),
 ('ok_fcvals', 'ok', 'C05 C06', [(IM, '    if((read_function_code & 0x7F) != function_code)', '    if(read_function_code != function_code && read_function_code != (function_code | 0x80))')]),
 ('ok_exctable', 'ok', 'C05 C07', [(ET, '    switch(data)\n    {', '    if(data == 0 || data > 0x0B)\n    {\n        return ExceptionType::Unknown;\n    }\n    switch(data)\n    {')]),
 ('ok_excif', 'ok', 'C05 C07', [(ET, '        case 0x0A:\n            return ExceptionType::GatewayPathUnavailable;\n', ''), (ET, '    switch(data)\n    {', '    if(data == 10) return ExceptionType::GatewayPathUnavailable;\n    switch(data)\n    {')]),
 ('ok_excarray', 'ok', 'C05 C07', [(ET, '    switch(data)\n    {\n        case 0x01:', '    static const ExceptionType first[] = { ExceptionType::IllegalFunction, ExceptionType::IllegalDataAddress, ExceptionType::IllegalDataValue };\n    if(data >= 1 && data <= 3)\n    {\n        return first[data - 1];\n    }\n    switch(data)\n    {\n        case 0x01:')]),
 ('ok_excresp', 'ok', 'C02 C03', [(ER, 'm_function_code | 0x80', 'static_cast<uint8_t>(m_function_code < 0x80 ? m_function_code + 0x80 : m_function_code)')]),
 ('ok_valid', 'ok', 'C08', [(WC, '    return m_request.values.size() > 0 &&', '    if(m_request.values.empty()) return false;\n    return')]),
 ('ok_validrange', 'ok', 'C08', [(RB, '    return m_request.qty_of_bits > 0 &&', '    const unsigned int n = m_request.qty_of_bits;\n    return n - 1 < 2000u &&')]),
 ('ok_lenconst', 'ok', 'C03', [(RB, '    return 5;', '    return sizeof(uint8_t) + 2 * sizeof(uint16_t);')]),
 ('ok_nested', 'ok', 'C04 C06', [(RB, '''    if(view.length() != 5)
    {
        return Expected<request_t>::from_exception(MalformedModbusRequestException{"Request does not have the expected length."});
    }
''', '''    auto check = [](const ser4cpp::rseq_t& v, size_t n) { return v.length() == n; };
    if(!check(view, 5))
    {
        return Expected<request_t>::from_exception(MalformedModbusRequestException{"Request does not have the expected length."});
    }
''')]),
 ('ok_brace', 'ok', 'C04', [(RB, '    request_t request;\n    request.starting_address = starting_address;\n    request.qty_of_bits = qty_of_bits;\n    return Expected<request_t>(request);', '    return Expected<request_t>(request_t{starting_address, qty_of_bits});')]),
]
