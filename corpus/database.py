D = 'lib/src/server/db/InMemoryDatabase.cpp'
S = 'lib/src/server/db/SingleTypeDatabase.cpp'
H = 'lib/include/modbus/server/db/SingleTypeDatabase.h'
DH = 'lib/include/modbus/server/db/InMemoryDatabase.h'
ALG = ('#include "modbus/server/db/SingleTypeDatabase.h"\n', '#include "modbus/server/db/SingleTypeDatabase.h"\n#include <algorithm>\n#include <iterator>\n')
LG = '    std::lock_guard<std::mutex> lock{m_mutex};\n'
RC = '''Expected<ReadCoilsResponse> InMemoryDatabase::on_request(const ReadCoilsRequest& request)
{
'''
EDITS = [
 # C31
 ('nohole', 'bad', 'C31', [(S, 'if(it->first != current_address + 1)', 'if(it->first == current_address)')]),
 ('ok_offby', 'ok', 'C31', [(S, '+ 1) == count', '+ 1) >= count')]),
 ('wrapaddr', 'bad', 'C31', [(S, '''    auto it = m_values.find(starting_address);
    if(it == m_values.end())
    {
        return false;
    }
    ++it;
''', '''    for(size_t i = 0; i < count; ++i)
    {
        if(!is_valid(static_cast<Address>(starting_address + i))) return false;
    }
    if(count > 0) return true;
    auto it = m_values.find(starting_address);
    if(it == m_values.end())
    {
        return false;
    }
    ++it;
''')]),
 ('partial', 'bad', 'C31 C30', [(S, '''    // Validate the range
    if(!is_valid_range(starting_address, values.size()))
    {
        return false;
    }
''', ''), (S, '''        it->second = values[i];
        ++it;
''', '''        if(it == m_values.end() || it->first != starting_address + i) return false;
        it->second = values[i];
        ++it;
''')]),
 ('overwrite', 'bad', 'C31', [(S, 'return m_values.insert({address, value}).second;', 'const bool is_new = m_values.find(address) == m_values.end(); m_values[address] = value; return is_new;')]),
 ('setcreates', 'bad', 'C31', [(S, '''        it->second = value;
        return true;
    }

    return false;''', '''        it->second = value;
        return true;
    }

    m_values[address] = value;
    return false;''')]),
 ('lower', 'bad', 'C31', [(S, 'auto it = m_values.find(address);', 'auto it = m_values.lower_bound(address);')]),
 ('lowerrange', 'bad', 'C31', [(S, '''    // Find the start value
    auto it = m_values.find(starting_address);''', '''    // Find the start value
    auto it = m_values.lower_bound(starting_address);''')]),
 ('distance', 'bad', 'C31', [(S, '''    ++it;

    // Check that the range''', '''    if(static_cast<size_t>(std::distance(it, m_values.end())) < count) return false;
    ++it;
    return true;

    // Check that the range''')]),
 ('u8', 'bad', 'C31', [(S, 'Address current_address = starting_address;', 'uint8_t n = 1;\n    while(n < static_cast<uint8_t>(count) && it != m_values.end()) { if(it->first != static_cast<Address>(starting_address + n)) return false; ++n; ++it; }\n    if(n == static_cast<uint8_t>(count)) return true;\n    Address current_address = starting_address;')]),
 ('unordered', 'bad', 'C31', [(H, 'std::map<Address, T> m_values;', 'std::map<Address, T, std::greater<Address>> m_values;')]),
 ('ok_loop', 'ok', 'C31 C30', [(S, '''    auto it = m_values.find(starting_address);
    if(it == m_values.end())
    {
        return false;
    }
    ++it;
''', '''    for(size_t i = 0; i < count; ++i)
    {
        const size_t address = starting_address + i;
        if(address > 65535 || !is_valid(static_cast<Address>(address))) return false;
    }
    if(count > 0) return true;
    auto it = m_values.find(starting_address);
    if(it == m_values.end())
    {
        return false;
    }
    ++it;
''')]),
 ('ok_lower', 'ok', 'C31 C30', [(S, 'auto it = m_values.find(starting_address);', 'auto it = m_values.lower_bound(starting_address);')]),
 ('ok_count', 'ok', 'C31 C30', [(S, '''    auto it = m_values.find(address);
    if(it != m_values.end())
    {
        return true;
    }

    return false;
}

template<typename T>
bool SingleTypeDatabase<T>::is_valid_range''', '''    return m_values.count(address) != 0;
}

template<typename T>
bool SingleTypeDatabase<T>::is_valid_range''')]),
 ('ok_at', 'ok', 'C31 C30', [(S, '''        it->second = values[i];
        ++it;
''', '''        m_values.at(static_cast<Address>(starting_address + i)) = values[i];
''')]),
 ('ok_rangefor', 'ok', 'C31 C30', [(S, '''    for(size_t i = 0; i < values.size(); ++i)
    {
        it->second = values[i];
        ++it;
    }''', '''    for(const auto value : values)
    {
        it->second = value;
        ++it;
    }''')]),
 ('ok_emplace', 'ok', 'C31 C30', [(S, 'return m_values.insert({address, value}).second;', 'if(is_valid(address)) { return false; }\n    m_values.emplace(address, value);\n    return true;')]),
 ('ok_rangedist', 'ok', 'C31', [(S, '''    ++it;

    // Check that the range''', '''    const auto last = starting_address + count - 1;
    if(count > 1) {
        if(last > 65535) return false;
        const auto end = m_values.upper_bound(static_cast<Address>(last));
        return static_cast<size_t>(std::distance(it, end)) == count;
    }
    ++it;

    // Check that the range'''), (S, ALG[0], ALG[1])]),
 # C30
 ('di_coil', 'bad', 'C30', [(D, 'm_discrete_input_db.get_values', 'm_coil_db.get_values')]),
 ('wr_input', 'bad', 'C30', [(D, 'auto result = m_holding_register_db.set_values', 'auto result = m_input_register_db.set_values')]),
 ('single_input', 'bad', 'C30', [(D, 'auto result = m_holding_register_db.set_value(', 'auto result = m_input_register_db.set_value(')]),
 ('illegalvalue', 'bad', 'C30', [(D, 'ReadInputRegistersResponse>::from_exception(ModbusException{ExceptionType::IllegalDataAddress}', 'ReadInputRegistersResponse>::from_exception(ModbusException{ExceptionType::IllegalDataValue}')]),
 ('relative', 'bad', 'C30', [(D, 'response.values.push_back(RegisterValue{static_cast<Address>(request.starting_address + i), values[i]});', 'response.values.push_back(RegisterValue{static_cast<Address>(i), values[i]});')]),
 ('onebased', 'bad', 'C30', [(D, 'response.values.push_back(SingleBitValue{static_cast<Address>(request.starting_address + i), values[i]});', 'response.values.push_back(SingleBitValue{static_cast<Address>(request.starting_address + i + 1), values[i]});')]),
 ('u8loop', 'bad', 'C30', [(D, 'response.values.push_back(SingleBitValue{static_cast<Address>(request.starting_address + i), values[i]});', 'response.values.push_back(SingleBitValue{static_cast<Address>(request.starting_address + static_cast<uint8_t>(i)), values[i]});')]),
 ('rangeplus', 'bad', 'C30', [(D, 'WriteMultipleCoilsResponse response{request.starting_address, static_cast<uint16_t>(request.values.size())};', 'WriteMultipleCoilsResponse response{request.starting_address, static_cast<uint8_t>(request.values.size())};')]),
 ('echo', 'bad', 'C30', [(D, 'WriteSingleCoilResponse response{SingleBitValue{request.value.address, request.value.value}};', 'WriteSingleCoilResponse response{SingleBitValue{request.value.address, true}};')]),
 ('okanyway', 'bad', 'C30', [(D, '''    auto result = m_coil_db.set_value(request.value.address, request.value.value);
    if(!result)''', '''    auto result = m_coil_db.set_value(request.value.address, request.value.value);
    if(!result && request.value.value)''')]),
 ('addcoil', 'bad', 'C30', [(D, 'return m_coil_db.add_value(address, value);', 'm_discrete_input_db.add_value(address, value);\n    return m_coil_db.add_value(address, value);')]),
 ('getswap', 'bad', 'C30', [(D, 'return m_input_register_db.get_value(address, output);', 'return m_holding_register_db.get_value(address, output);')]),
 ('clamp', 'bad', 'C30', [(D, 'std::vector<uint16_t> values(request.qty_of_registers);', 'std::vector<uint16_t> values(request.qty_of_registers > 100 ? 100 : request.qty_of_registers);')]),
 ('ok_helper', 'ok', 'C30 C29', [(D, 'bool InMemoryDatabase::add_coil(', '''namespace {
template<typename TResponse, typename TDb, typename TValue>
Expected<TResponse> read(const TDb& db, Address start, uint16_t count, TValue make)
{
    using value_t = decltype(make(start, 0).value);
    std::vector<value_t> values(count);
    if(!db.get_values(start, values))
    {
        return Expected<TResponse>::from_exception(ModbusException{ExceptionType::IllegalDataAddress});
    }
    TResponse response{};
    response.values.reserve(count);
    auto address = start;
    for(const value_t value : values)
    {
        response.values.emplace_back(make(address++, value));
    }
    return Expected<TResponse>{std::move(response)};
}
}

bool InMemoryDatabase::add_coil('''), (D, '''    std::vector<uint16_t> values(request.qty_of_registers);
    auto result = m_holding_register_db.get_values(request.starting_address, values);
    if(!result)
    {
        return Expected<ReadHoldingRegistersResponse>::from_exception(ModbusException{ExceptionType::IllegalDataAddress});
    }
''', '    if(request.qty_of_registers != 0) return read<ReadHoldingRegistersResponse>(m_holding_register_db, request.starting_address, request.qty_of_registers, [](Address a, uint16_t v) { return RegisterValue{a, v}; });\n    std::vector<uint16_t> values;\n')]),
 ('ok_ternary', 'ok', 'C30 C29', [(D, '''    if(!result)
    {
        return Expected<WriteMultipleCoilsResponse>::from_exception(ModbusException{ExceptionType::IllegalDataAddress});
    }

    WriteMultipleCoilsResponse response{request.starting_address, static_cast<uint16_t>(request.values.size())};
    return Expected<WriteMultipleCoilsResponse>{response};''', '''    return result ? Expected<WriteMultipleCoilsResponse>{WriteMultipleCoilsResponse{request.starting_address, static_cast<uint16_t>(request.values.size())}}
                  : Expected<WriteMultipleCoilsResponse>::from_exception(ModbusException{ExceptionType::IllegalDataAddress});''')]),
 # C29
 ('nolockadd', 'bad', 'C29', [(D, LG + '\n    return m_input_register_db.add_value', '    return m_input_register_db.add_value')]),
 ('nolockread', 'bad', 'C29', [(D, RC + LG, RC)]),
 ('latelock', 'bad', 'C29', [(D, LG + '''
    std::vector<bool> values(request.qty_of_bits);
    auto result = m_discrete_input_db.get_values(request.starting_address, values);
''', '''
    std::vector<bool> values(request.qty_of_bits);
    auto result = m_discrete_input_db.get_values(request.starting_address, values);
    std::lock_guard<std::mutex> lock{m_mutex};
''')]),
 ('shortlock', 'bad', 'C29', [(D, LG + '\n    auto result = m_coil_db.set_values(request.starting_address, request.values);', '    { std::lock_guard<std::mutex> lock{m_mutex}; }\n    auto result = m_coil_db.set_values(request.starting_address, request.values);')]),
 ('temp', 'bad', 'C29', [(D, LG + '\n    auto result = m_holding_register_db.set_value(', '    std::lock_guard<std::mutex>{m_mutex};\n    auto result = m_holding_register_db.set_value(')]),
 ('deadlock', 'bad', 'C29', [(D, 'return m_holding_register_db.get_value(address, output);', LG.strip() + '\n    return m_holding_register_db.get_value(address, output);'), (DH, 'std::mutex m_mutex', 'mutable std::mutex m_mutex')]),
 ('txnolock', 'bad', 'C29', [(D, LG + '\n    transaction(*this);', '    transaction(*this);')]),
 ('twolocks', 'bad', 'C29', [(D, RC + LG, RC + '    std::lock_guard<std::mutex> lock{m_read_mutex};\n'), (DH, 'std::mutex m_mutex', 'std::mutex m_read_mutex;\n    std::mutex m_mutex')]),
 ('manual', 'bad', 'C29', [(D, LG + '\n    transaction(*this);', '    m_mutex.lock();\n    transaction(*this);\n    m_mutex.unlock();')]),
 ('dblock', 'bad', 'C29', [(D, 'return m_coil_db.add_value(address, value);', 'if(!m_coil_db.is_valid(address)) { bool added = true; execute_transaction([&](IDatabase&) { added = m_coil_db.add_value(address, value); }); return added; }\n    return false;')]),
 ('ok_unique', 'ok', 'C29', [(D, LG + '\n    transaction(*this);', '    std::unique_lock<std::mutex> guard(m_mutex);\n    transaction(*this);\n    guard.unlock();')]),
 ('ok_scoped', 'ok', 'C29', [(D, LG + '\n    return m_coil_db.add_value(address, value);', '    bool added = false;\n    {\n        const std::scoped_lock lock(m_mutex);\n        added = m_coil_db.add_value(address, value);\n    }\n    return added;')]),
 ('ok_late', 'ok', 'C29 C30', [(D, RC + LG + '''
    std::vector<bool> values(request.qty_of_bits);
''', RC + '''    std::vector<bool> values(request.qty_of_bits);
''' + LG)]),
 ('ok_rec', 'ok', 'C29', [(DH, 'std::mutex m_mutex', 'mutable std::recursive_mutex m_mutex')] ),
]
_src = open('/repo/' + D).read()
# recursive variant: replace the guard type everywhere
E = EDITS.pop()
E[3].extend([(D, 'std::lock_guard<std::mutex>', 'std::lock_guard<std::recursive_mutex>')] * _src.count('std::lock_guard<std::mutex>'))
EDITS.append(E)
