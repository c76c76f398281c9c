S = 'lib/src/server/channel/ServerChannelTcp.cpp'
H = 'lib/src/server/channel/ServerChannelTcp.h'
L = 'lib/src/server/channel/ServerConnectionListener.cpp'
MB = 'message.unit_id, message.transaction_id'
EXC = '            auto exception = parse_result.template get_exception<ModbusException>();\n'
EXC2 = '            auto exception = response_result.template get_exception<ModbusException>();\n'
SEND = '            send_message(connection, message.unit_id, message.transaction_id, response);'
EDITS = [
 ('case2', 'bad', 'C20', [(S, 'process_message<ReadDiscreteInputsRequestImpl, ReadDiscreteInputsResponseImpl>', 'process_message<ReadCoilsRequestImpl, ReadCoilsResponseImpl>')]),
 ('fcswap', 'bad', 'C20', [(S, '        case 0x03:', '        case 0x44:'), (S, '        case 0x04:', '        case 0x03:'), (S, '        case 0x44:', '        case 0x04:')]),
 ('missfc', 'bad', 'C20', [(S, '        case 0x0F:', '        case 0x0E:')]),
 ('missfc2', 'bad', 'C20', [(S, '        case 0x10:', '        case 10:')]),
 ('nodefault', 'bad', 'C21', [(S, '            send_message(connection, message.unit_id, message.transaction_id, ExceptionResponse{function_code, ExceptionType::IllegalFunction});', '')]),
 ('defaultonly', 'bad', 'C21', [(S, 'm_logger->warn("Received unsupported function code: {}", function_code);', 'm_logger->warn("Received unsupported function code: {}", function_code); if(function_code >= 0x80) return;')]),
 ('defaultcode', 'bad', 'C21', [(S, 'ExceptionType::IllegalFunction}', 'ExceptionType::IllegalDataAddress}')]),
 ('defaultfc', 'bad', 'C21', [(S, 'ExceptionResponse{function_code, ExceptionType::IllegalFunction}', 'ExceptionResponse{static_cast<uint8_t>(function_code & 0x3F), ExceptionType::IllegalFunction}')]),
 ('silentreject', 'bad', 'C21', [(S, 'if(parse_result.template has_exception<ModbusException>())', 'if(parse_result.template has_exception<MalformedModbusRequestException>() && parse_result.template has_exception<ModbusException>())')]),
 ('silentsession', 'bad', 'C21', [(S, 'if(response_result.template has_exception<ModbusException>())', 'if(false)')]),
 ('fixedcode', 'bad', 'C21', [(S, EXC + '            ExceptionResponse response{function_code, exception.get_exception_type()};', EXC + '            ExceptionResponse response{function_code, ExceptionType::IllegalDataValue};')]),
 ('fixedcode2', 'bad', 'C21', [(S, EXC2 + '            ExceptionResponse response{function_code, exception.get_exception_type()};', EXC2 + '            ExceptionResponse response{function_code, exception.get_exception_type() == ExceptionType::ServerDeviceBusy ? ExceptionType::ServerDeviceFailure : exception.get_exception_type()};')]),
 ('ackquiet', 'bad', 'C21', [(S, EXC2, EXC2 + '            if(exception.get_exception_type() == ExceptionType::Acknowledge) return;\n')]),
 ('sendtwice', 'bad', 'C20', [(S, '    connection.send(serialized_request);', '    connection.send(serialized_request);\n    if(serialized_request.length() > 200) connection.send(serialized_request);')]),
 ('swapids', 'bad', 'C20', [(S, 'MbapMessage::build_message(unit_id,\n                                                         transaction_id,', 'MbapMessage::build_message(UnitIdentifier(static_cast<uint8_t>(unit_id.get_value() & 0x7F)),\n                                                         transaction_id,')]),
 ('txid', 'bad', 'C20', [(S, '                                                         transaction_id,\n', '                                                         TransactionIdentifier(static_cast<uint16_t>(transaction_id.get_value() & 0xFF)),\n')]),
 ('twicereq', 'bad', 'C20', [(S, 'auto response_result = session->on_request(request);', 'auto response_result = session->on_request(request);\n    if(response_result.template has_exception<TimeoutException>()) session->on_request(request);')]),
 ('skipview', 'bad', 'C20', [(S, 'auto parse_result = TRequest::parse(message.data);', 'auto parse_result = TRequest::parse(message.data.take(message.data.length() > 250 ? 250 : message.data.length()));')]),
 ('anyunit', 'bad', 'C20', [(S, 'auto it = m_sessions.find(message.unit_id);', 'auto it = m_sessions.find(message.unit_id);\n    if(it == m_sessions.end() && message.unit_id.get_value() == 0xFF) it = m_sessions.begin();')]),
 ('broadcast', 'bad', 'C20', [(S, '        m_logger->warn("Received message for unknown unit: {}", message.unit_id);', '        ExceptionResponse r{0x01, ExceptionType::GatewayPathUnavailable};\n        send_message(connection, message.unit_id, message.transaction_id, r);')]),
 ('empty', 'bad', 'C20', [(S, '        if(view.length() < 1)\n        {\n            m_logger->warn("Received invalid message.");\n            return;\n        }\n', '')]),
 ('tooshort', 'bad', 'C21', [(S, 'if(view.length() < 1)', 'if(view.length() < 2)')]),
 ('insert', 'bad', 'C24', [(S, 'm_sessions[unit_identifier] = session;', 'm_sessions.insert({unit_identifier, session});')]),
 ('latemsg', 'bad', 'C24', [(S, '    if(m_is_shutdown) return;\n    \n    auto it', '    auto it'), (S, '        m_sessions.clear();', '')]),
 ('latestart', 'bad', 'C24', [(S, '        if(m_is_shutdown) return;\n\n        m_server->start', '        m_server->start'), (S, '    if(m_is_shutdown) return;\n\n    m_executor->post([=, self=shared_from_this()] {', '    m_executor->post([=, self=shared_from_this()] {')]),
 ('lateadd', 'ok', 'C24', [(S, '        if(m_is_shutdown) return;\n\n        m_sessions[', '        m_sessions[')]),
 ('nosesshut', 'bad', 'C24', [(S, '            session.second->shutdown();', '')]),
 ('clearfirst', 'bad', 'C24', [(S, '        for(auto session : m_sessions)', '        m_sessions.clear();\n        for(auto session : m_sessions)')]),
 ('sesonlystarted', 'bad', 'C24', [(S, '            m_is_started = false;\n        }\n        \n        for', '            m_is_started = false;\n        }\n        else return;\n        for')]),
 ('nostopserver', 'bad', 'C24', [(S, '            m_server->shutdown();\n', '')]),
 ('nostartedflag', 'bad', 'C24', [(S, '        m_is_started = true;\n', '')]),
 ('nostart', 'bad', 'C24', [(S, '        m_server->start(std::make_shared', '        if(m_is_started) m_server->start(std::make_shared')]),
 ('flaglate', 'bad', 'C24', [(S, '        m_is_shutdown = true;\n', '')]),
 ('startflaginit', 'bad', 'C24', [(S, '    if(m_is_shutdown) return;\n\n    m_executor->post([=, self=shared_from_this()]() {', '    if(m_is_shutdown || m_is_started) return;\n\n    m_executor->post([=, self=shared_from_this()]() {')]),
 ('firstses', 'bad', 'C20', [(S, 'process_message<ReadCoilsRequestImpl, ReadCoilsResponseImpl>(it->second,', 'process_message<ReadCoilsRequestImpl, ReadCoilsResponseImpl>(m_sessions.begin()->second,')]),
 ('refid', 'bad', 'C24 C20', [(S, '    m_executor->post([=, self=shared_from_this()]() {\n        if(m_is_shutdown) return;\n\n        m_sessions[', '    m_executor->post([this, &unit_identifier, session, self=shared_from_this()]() {\n        if(m_is_shutdown) return;\n\n        m_sessions[')]),
 # behaviour preserving
 ('ok_ifchain', 'ok', 'C20 C21 C24', [(S, '        case 0x05:\n            process_message<WriteSingleCoilRequestImpl, WriteSingleCoilResponseImpl>(it->second, message, function_code, connection);\n            break;\n', ''), (S, '        switch(function_code)', '        if(function_code == 0x05)\n        {\n            process_message<WriteSingleCoilRequestImpl, WriteSingleCoilResponseImpl>(it->second, message, function_code, connection);\n            return;\n        }\n        switch(function_code)')]),
 ('ok_early', 'ok', 'C20 C21 C24', [(S, '    if(it != m_sessions.end())\n    {', '    if(it == m_sessions.end())\n    {\n        m_logger->warn("Received message for unknown unit: {}", message.unit_id);\n        return;\n    }\n    {'), (S, '    else\n    {\n        m_logger->warn("Received message for unknown unit: {}", message.unit_id);\n    }\n', '')]),
 ('ok_helper', 'ok', 'C20 C21 C24', [(S, EXC + '            ExceptionResponse response{function_code, exception.get_exception_type()};\n' + SEND, '            send_exception(connection, message, function_code, parse_result.template get_exception<ModbusException>());'), (S, EXC2 + '            ExceptionResponse response{function_code, exception.get_exception_type()};\n' + SEND, '            send_exception(connection, message, function_code, response_result.template get_exception<ModbusException>());'), (S, '} // namespace modbus', 'void ServerChannelTcp::send_exception(ITcpConnection& connection, const MbapMessage& message, uint8_t function_code, const ModbusException& e)\n{\n    send_message(connection, message.unit_id, message.transaction_id, ExceptionResponse{function_code, e.get_exception_type()});\n}\n} // namespace modbus'), (H, '    void send_message(', '    void send_exception(ITcpConnection& connection, const MbapMessage& message, uint8_t function_code, const ModbusException& e);\n    void send_message(')]),
 ('ok_assign', 'ok', 'C20 C24', [(S, 'm_sessions[unit_identifier] = session;', 'auto it = m_sessions.find(unit_identifier);\n        if(it != m_sessions.end()) it->second = session;\n        else m_sessions.emplace(unit_identifier, session);')]),
 ('ok_erase', 'ok', 'C20 C24', [(S, 'm_sessions[unit_identifier] = session;', 'm_sessions.erase(unit_identifier);\n        m_sessions.insert(std::make_pair(unit_identifier, session));')]),
 ('ok_order', 'ok', 'C24', [(S, '        if(m_is_started)\n        {\n            m_server->shutdown();\n            m_is_started = false;\n        }\n        \n        for(auto session : m_sessions)\n        {\n            session.second->shutdown();\n        }\n        m_sessions.clear();', '        std::unordered_map<UnitIdentifier, std::shared_ptr<IServerSession>> sessions;\n        sessions.swap(m_sessions);\n        for(auto it = sessions.begin(); it != sessions.end(); ++it)\n        {\n            it->second->shutdown();\n        }\n        if(!m_is_started) return;\n        m_is_started = false;\n        m_server->shutdown();')]),
 ('ok_enum', 'ok', 'C20 C21', [(S, 'uint8_t function_code;\n        ser4cpp::UInt8::read_from(view, function_code);', 'const uint8_t function_code = message.data[0];')]),
 ('ok_tern', 'ok', 'C20 C21', [(S, '    if(!response_result.is_valid())\n    {', '    const auto failed = !response_result.is_valid();\n    if(failed)\n    {')]),
 ('ok_vec', 'ok', 'C20 C21', [(S, '    auto response = response_result.get();\n    TResponse formatted_response{response};', '    TResponse formatted_response{response_result.get()};')]),
 ('ok_count', 'ok', 'C20 C24', [(S, '    auto it = m_sessions.find(message.unit_id);\n    if(it != m_sessions.end())', '    const auto n = m_sessions.count(message.unit_id);\n    auto it = m_sessions.find(message.unit_id);\n    if(n > 0)')]),
 ('ok_table', 'ok', 'C20 C21', [(S, '        default:\n            m_logger', '        case 0x07:\n        default:\n            m_logger')]),
 ('ok_map', 'ok', 'C20 C24', [(H, 'std::unordered_map<UnitIdentifier, std::shared_ptr<IServerSession>> m_sessions;', 'std::map<uint8_t, std::shared_ptr<IServerSession>> m_sessions;'), (H, 'class ServerChannelTcp final', '}\n#include <map>\nnamespace modbus {\nclass ServerChannelTcp final'), (S, 'm_sessions[unit_identifier] =', 'm_sessions[unit_identifier.get_value()] ='), (S, 'm_sessions.find(message.unit_id)', 'm_sessions.find(message.unit_id.get_value())')]),
]
