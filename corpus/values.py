X = 'lib/include/modbus/Expected.h'
U = 'lib/include/modbus/UnitIdentifier.h'
UC = 'lib/src/UnitIdentifier.cpp'
T = 'lib/src/TransactionIdentifier.cpp'
EP = 'lib/src/Ipv4Endpoint.cpp'
ME = 'lib/include/modbus/exceptions/ModbusException.h'
IE = 'lib/include/modbus/exceptions/IException.h'
TE = 'lib/include/modbus/exceptions/TimeoutException.h'
CE = 'lib/include/modbus/exceptions/ConnectionException.h'
ET = 'lib/src/messages/ExceptionType.cpp'
SE = 'lib/src/client/session/ClientSessionImpl.cpp'
TW = 'lib/src/TimerWrapper.cpp'
IS = 'lib/include/modbus/server/IServerSession.h'
RB = 'lib/src/messages/ReadBitsRequestImpl.cpp'
WM = 'lib/src/messages/WriteMultipleCoilsRequestImpl.cpp'
WR = 'lib/src/messages/WriteSingleRegisterRequestImpl.cpp'
ER = 'lib/src/messages/ExceptionResponse.cpp'
EDITS = [
 # Expected
 ('x_valid', 'bad', 'C33', [(X, '        return m_has_value;\n', '        return !m_has_value;\n')]),
 ('x_copyflag', 'bad', 'C33', [(X, '''    Expected(const Expected& rhs)
        : m_has_value{rhs.m_has_value}''', '''    Expected(const Expected& rhs)
        : m_has_value{true}''')]),
 ('x_copyswap', 'bad', 'C33', [(X, '''        : m_has_value{rhs.m_has_value}
    {
        if(m_has_value)
        {
            new(&m_value) T{rhs.m_value};''', '''        : m_has_value{rhs.m_has_value}
    {
        if(!m_has_value)
        {
            new(&m_value) T{rhs.m_value};''')]),
 ('x_moveflag', 'bad', 'C33', [(X, '''            new(&m_exception) std::exception_ptr{std::move(rhs.m_exception)};
        }''', '''            new(&m_exception) std::exception_ptr{std::move(rhs.m_exception)};
            m_has_value = true;
        }''')]),
 ('x_movenull', 'bad', 'C33', [(X, 'new(&m_exception) std::exception_ptr{std::move(rhs.m_exception)};', 'new(&m_exception) std::exception_ptr{};')]),
 ('x_dtor', 'bad', 'C33', [(X, '        if (m_has_value) m_value.~T();\n        else m_exception.~exception_ptr();', '        if (!m_has_value) m_exception.~exception_ptr();')]),
 ('x_dtor_swap', 'bad', 'C33', [(X, '        if (m_has_value) m_value.~T();\n        else m_exception.~exception_ptr();', '        if (!m_has_value) m_value.~T();\n        else m_exception.~exception_ptr();')]),
 ('x_get', 'bad', 'C33', [(X, '''    const T& get() const
    {
        if(!m_has_value)''', '''    const T& get() const
    {
        if(m_has_value && !m_exception)''')]),
 ('x_get_nothrow', 'bad', 'C33', [(X, '''    T& get()
    {
        if(!m_has_value)
        {
            std::rethrow_exception(m_exception);
        }''', '''    T& get()
    {''')]),
 ('x_has_any', 'bad', 'C33', [(X, '''            return true;
        }
        catch(...) {}
        return false;''', '''            return true;
        }
        catch(...) { return true; }
        return false;''')]),
 ('x_has_value', 'bad', 'C33', [(X, '''        catch(...) {}
        return false;''', '''        catch(...) {}
        return m_has_value;''')]),
 ('x_getexc', 'bad', 'C33', [(X, 'if (m_has_value) throw std::invalid_argument("no exception");', '')]),
 ('x_slicing', 'bad', 'C33', [(X, '''        if(typeid(exception) != typeid(E))
        {
            throw std::invalid_argument("slicing detected");
        }
''', '')]),
 ('x_from_flag', 'bad', 'C33', [(X, '        result.m_has_value = false;\n', '        result.m_has_value = true;\n')]),
 ('x_ok_swap', 'ok', 'C33', [(X, '        if (m_has_value) m_value.~T();\n        else m_exception.~exception_ptr();', '        if (!m_has_value) { m_exception.~exception_ptr(); } else { m_value.~T(); }')]),
 ('x_ok_get', 'ok', 'C33', [(X, '''    T& get()
    {
        if(!m_has_value)
        {
            std::rethrow_exception(m_exception);
        }
        return m_value;''', '''    T& get()
    {
        if(is_valid())
        {
            return m_value;
        }
        std::rethrow_exception(m_exception);''')]),
 ('x_ok_has', 'ok', 'C33', [(X, '''        try
        {
            if(!m_has_value) std::rethrow_exception(m_exception);
        }
        catch(const E&)
        {
            return true;
        }
        catch(...) {}
        return false;''', '''        bool result = false;
        if(m_has_value) { return result; }
        try
        {
            std::rethrow_exception(m_exception);
        }
        catch(const E&)
        {
            result = true;
        }
        catch(...) {}
        return result;''')]),
 ('x_ok_from', 'ok', 'C33', [(X, '''        Expected<T> result;
        result.m_has_value = false;
        new(&result.m_exception) std::exception_ptr(std::move(exception));
        return result;''', '''        Expected<T> result;
        new(&result.m_exception) std::exception_ptr(exception);
        result.m_has_value = false;
        return result;''')]),
 # identifiers
 ('u_default', 'bad', 'C34', [(U, 'UnitIdentifier{0xFF}', 'UnitIdentifier{0x00}')]),
 ('u_eq', 'bad', 'C34', [(U, 'return m_value == other.m_value;', 'return (m_value & 0x7F) == (other.m_value & 0x7F);')]),
 ('u_ne', 'bad', 'C34', [(U, 'return m_value != other.m_value;', 'return m_value > other.m_value;')]),
 ('u_get', 'bad', 'C34', [(U, '        return m_value;\n', '        return m_value & 0x7F;\n')]),
 ('u_hash', 'bad', 'C34', [(UC, 'hash<unsigned int>()(unit_identifier.get_value())', 'hash<const void*>()(&unit_identifier)')]),
 ('u_hash_ok', 'ok', 'C34', [(UC, 'hash<unsigned int>()(unit_identifier.get_value())', 'static_cast<size_t>(unit_identifier.get_value())')]),
 ('t_wrap', 'bad', 'C34', [(T, '''    ++m_value;
    return *this;''', '''    if(++m_value == 0) m_value = 1;
    return *this;''')]),
 ('t_post', 'bad', 'C34', [(T, '''    ++m_value;
    return temp;''', '''    ++m_value;
    return *this;''')]),
 ('t_post_ok', 'ok', 'C34', [(T, '''    auto temp = (*this);
    ++m_value;
    return temp;''', '''    const TransactionIdentifier old{m_value};
    ++(*this);
    return old;''')]),
 ('t_ne', 'bad', 'C34', [(T, 'return m_value != other.m_value;', 'return m_value < other.m_value;')]),
 ('e_port', 'bad', 'C34', [(EP, '''    return m_hostname == other.m_hostname &&
           m_port == other.m_port;''', '''    return m_hostname == other.m_hostname;''')]),
 ('e_or', 'bad', 'C34', [(EP, 'other.m_hostname &&', 'other.m_hostname ||')]),
 ('e_trunc', 'bad', 'C34', [(EP, 'return m_port;', 'return static_cast<uint16_t>(m_port);')]),
 ('e_ne', 'bad', 'C34', [(EP, 'return !(*this == other);', 'return m_hostname != other.m_hostname && m_port != other.m_port;')]),
 ('e_ne_ok', 'ok', 'C34', [(EP, 'return !(*this == other);', 'return m_port != other.m_port || m_hostname != other.m_hostname;')]),
 ('e_eq_ok', 'ok', 'C34', [(EP, '''    return m_hostname == other.m_hostname &&
           m_port == other.m_port;''', '''    if(m_port != other.get_port()) return false;
    return get_hostname().compare(other.m_hostname) == 0;''')]),
 ('me_type', 'bad', 'C34', [(ME, 'm_exception_type{exception_type}', 'm_exception_type{ExceptionType::Unknown}')]),
 ('ce_msg', 'bad', 'C34', [(CE, 'IException{message}', 'IException{"Connection error"}')]),
 ('te_msg', 'bad', 'C34', [(TE, 'IException{"Timeout reached"}', 'IException{""}')]),
 ('et_dup', 'bad', 'C34', [(ET, 'return stream << "Server device busy";', 'return stream << "Server device failure";')]),
 # copies
 ('cl_static', 'ok', 'C32', [(WR, 'std::make_unique<WriteSingleRegisterRequestImpl>(m_request)', 'std::make_unique<WriteSingleRegisterRequestImpl>(*this)')]),
 ('cl_default', 'bad', 'C32', [(WR, 'std::make_unique<WriteSingleRegisterRequestImpl>(m_request)', 'std::make_unique<WriteSingleRegisterRequestImpl>(WriteSingleRegisterRequest{})')]),
 ('cl_exc', 'bad', 'C32', [(ER, 'std::make_unique<ExceptionResponse>(m_function_code, m_exception)', 'std::make_unique<ExceptionResponse>(static_cast<uint8_t>(m_function_code | 0x80), m_exception)')]),
 # timers
 ('tm_now', 'bad', 'C36', [(SE, 'std::make_unique<TimerWrapper>(this->m_executor->start(expiration, action))', 'std::make_unique<TimerWrapper>(this->m_executor->start(expiration - std::chrono::steady_clock::now(), action))')]),
 ('tm_cancel', 'bad', 'C36', [(TW, '    m_timer_impl.cancel();\n', '')]),
 ('tm_ok', 'ok', 'C36', [(SE, 'return std::make_unique<TimerWrapper>(this->m_executor->start(duration, action));', 'auto timer = m_executor->start(duration, action);\n    return std::make_unique<TimerWrapper>(timer);')]),
 ('tm_ok2', 'ok', 'C36', [(SE, 'return std::make_unique<TimerWrapper>(this->m_executor->start(duration, action));', 'return std::make_unique<TimerWrapper>(m_executor->start(duration, [action]() { action(); }));')]),
 ('tm_twice', 'bad', 'C36', [(SE, 'return std::make_unique<TimerWrapper>(this->m_executor->start(duration, action));', 'return std::make_unique<TimerWrapper>(m_executor->start(duration, [action]() { action(); action(); }));')]),
 ('tm_half', 'bad', 'C36', [(SE, 'm_executor->start(duration, action)', 'm_executor->start(duration / 2, action)')]),
 # default answers
 ('d_addr', 'bad', 'C37', [(IS, 'Expected<WriteSingleRegisterResponse>::from_exception(ModbusException{ExceptionType::IllegalFunction})', 'Expected<WriteSingleRegisterResponse>::from_exception(ModbusException{ExceptionType::IllegalDataAddress})')]),
 ('d_value', 'bad', 'C37', [(IS, 'return Expected<WriteMultipleCoilsResponse>::from_exception(ModbusException{ExceptionType::IllegalFunction});', 'return Expected<WriteMultipleCoilsResponse>(WriteMultipleCoilsResponse{});')]),
 ('d_ok', 'ok', 'C37', [(IS, 'return Expected<WriteMultipleCoilsResponse>::from_exception(ModbusException{ExceptionType::IllegalFunction});', 'const ModbusException unsupported{ExceptionType::IllegalFunction};\n        return Expected<WriteMultipleCoilsResponse>::from_exception(unsupported);')]),
]
