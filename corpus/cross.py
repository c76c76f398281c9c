ER = 'lib/src/messages/ExceptionResponse.cpp'
MM = 'lib/src/messages/mbap/MbapMessage.cpp'
MP = 'lib/src/messages/mbap/MbapParser.cpp'
CS = 'lib/src/client/session/ClientSessionImpl.cpp'
TI = 'lib/src/TransactionIdentifier.cpp'
UI = 'lib/src/UnitIdentifier.cpp'
UH = 'lib/include/modbus/UnitIdentifier.h'
PR = 'lib/src/client/channel/PendingRequest.h'
TW = 'lib/src/TimerWrapper.cpp'
EX = 'lib/include/modbus/Expected.h'
SL = 'lib/src/server/channel/ServerConnectionListener.cpp'
ME = 'lib/include/modbus/exceptions/ModbusException.h'
RB = 'lib/src/messages/ReadBitsRequestImpl.cpp'
# bugs outside the file a property is anchored in that break it all the same
EDITS = [
 ('x_er80', 'bad', 'C02 C21', [(ER, 'm_function_code | 0x80', 'm_function_code')]),
 ('x_ercode', 'bad', 'C02 C07 C21', [(ER, 'static_cast<uint8_t>(m_exception)', 'static_cast<uint8_t>(static_cast<uint8_t>(m_exception) & 0x07)')]),
 ('x_mmtid', 'bad', 'C03 C12 C20', [(MM, 'transaction_id.get_value()', 'static_cast<uint16_t>(transaction_id.get_value() & 0x7FFF)')]),
 ('x_mmuid', 'bad', 'C03 C12 C20', [(MM, 'unit_id.get_value()', 'static_cast<uint8_t>(unit_id.get_value() == 0xFF ? 0 : unit_id.get_value())')]),
 ('x_twice', 'bad', 'C13 C16', [(CS, 'handler(TResponseImpl::parse(request_impl, response.get()));', 'handler(TResponseImpl::parse(request_impl, response.get()));\n            if(!TResponseImpl::parse(request_impl, response.get()).is_valid()) handler(TResponseImpl::parse(request_impl, response.get()));')]),
 ('x_never', 'bad', 'C13 C16', [(CS, '            handler(Expected<TResponse>::from_exception(response.get_exception()));', '            if(!response.template has_exception<ConnectionException>()) handler(Expected<TResponse>::from_exception(response.get_exception()));'), (CS, 'namespace modbus\n', '#include "modbus/exceptions/ConnectionException.h"\nnamespace modbus\n')]),
 ('x_reset', 'bad', 'C09 C18 C23', [(MP, '    m_num_bytes_to_read = MaxMbapHeaderSize;\n    m_reading_body = false;', '    m_num_bytes_to_read = MaxMbapHeaderSize;'), (MP, '    : m_sink{sink}\n{', '    : m_sink{sink},\n      m_reading_body{false}\n{'), (MP, '        m_sink->on_mbap_message(message);\n    }\n', '        m_sink->on_mbap_message(message);\n    }\n    m_reading_body = false;\n')]),
 ('x_resetview', 'bad', 'C09 C18 C23', [(MP, '    m_buffer_view = m_buffer.as_wseq();\n    m_num_bytes_to_read', '    if(m_buffer_view.length() == 0) m_buffer_view = m_buffer.as_wseq();\n    m_num_bytes_to_read'), (MP, '    : m_sink{sink}\n{', '    : m_sink{sink}\n{\n    m_buffer_view = m_buffer.as_wseq();')]),
 ('x_tieq', 'bad', 'C12 C34', [(TI, 'return m_value == other.m_value;', 'return static_cast<uint8_t>(m_value) == static_cast<uint8_t>(other.m_value);')]),
 ('x_uieq', 'bad', 'C20 C24 C34 C12', [(UH, 'return m_value == other.m_value;', 'return (m_value & 0x7F) == (other.m_value & 0x7F);')]),
 ('x_prtimeout', 'bad', 'C14', [(PR, 'timeout{timeout}', 'timeout{timeout / 2}')]),
 ('x_prunit', 'bad', 'C12', [(PR, 'unit_id{unit_id}', 'unit_id{UnitIdentifier::default_unit_identifier()}')]),
 ('x_exmove', 'bad', 'C33', [(EX, 'new(&m_exception) std::exception_ptr{std::move(rhs.m_exception)};', 'new(&m_exception) std::exception_ptr{};')]),
 ('x_metype', 'bad', 'C34 C21', [(ME, 'return m_exception_type;', 'return m_exception_type == ExceptionType::Acknowledge ? ExceptionType::ServerDeviceBusy : m_exception_type;')]),
 ('x_stop', 'bad', 'C17', [(CS, '            req->stop();', '            (void)req;')]),
 ('x_rbget', 'bad', 'C32', [(RB, 'return m_request;', 'static request_t r; r = m_request; r.qty_of_bits = r.qty_of_bits & 0x3FF; return r;')]),
]
