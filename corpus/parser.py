F = 'lib/src/messages/mbap/MbapParser.cpp'
EDITS = [
 ('noadv', 'bad', 'C09', [(F, 'm_num_bytes_to_read -= read.length();', 'm_num_bytes_to_read -= read.length(); if(m_reading_body) m_num_bytes_to_read = 0;')]),
 ('lenbyte', 'bad', 'C09', [(F, 'm_num_bytes_to_read = length - 1;', 'm_num_bytes_to_read = (uint8_t)(length) - 1;'), (F, 'view.take(length - 1)', 'view.take((length & 0x7F) - 1)')]),
 ('noreset', 'bad', 'C09', [(F, '''        m_sink->on_mbap_message(message);
    }

    reset();''', '''        m_sink->on_mbap_message(message);
        reset();
    }''')]),
 ('dropRest', 'bad', 'C09', [(F, '''                send_data();
''', '''                send_data();
                return;
''')]),
 ('proto', 'bad', 'C09', [(F, 'protocol_id == ModbusProtocolId && length', 'length')]),
 ('protolow', 'bad', 'C09', [(F, 'protocol_id == ModbusProtocolId', '(protocol_id & 0xFF) == ModbusProtocolId')]),
 ('resetview', 'bad', 'C09', [(F, '    m_buffer_view = m_buffer.as_wseq();\n    m_num', '    m_num'), (F, ': m_sink{sink}\n', ': m_sink{sink}, m_buffer_view{m_buffer.as_wseq()}\n')]),
 ('resetbody', 'bad', 'C09', [(F, '    m_reading_body = false;\n', ''), (F, ': m_sink{sink}\n', ': m_sink{sink}, m_reading_body{false}\n')]),
 ('resetpartial', 'bad', 'C09', [(F, '''    m_num_bytes_to_read = MaxMbapHeaderSize;
    m_reading_body = false;''', '''    if(m_reading_body) m_num_bytes_to_read = MaxMbapHeaderSize;
    m_reading_body = false;'''), (F, ': m_sink{sink}\n', ': m_sink{sink}, m_num_bytes_to_read{MaxMbapHeaderSize}\n')]),
 ('zero', 'bad', 'C09', [(F, '''        reset();
        return;''', '''        m_num_bytes_to_read = 7;
        return;''')]),
 ('unitswap', 'bad', 'C09', [(F, 'UnitIdentifier{unit_id}', 'UnitIdentifier{(uint8_t)(unit_id & 0x7F)}')]),
 ('bodyorder', 'ok', 'C09 C03 C06', [(F, '''    m_num_bytes_to_read = length - 1;
    m_reading_body = true;''', '''    m_reading_body = true;
    --length;
    m_num_bytes_to_read = length;''')]),
 ('loop', 'ok', 'C09', [(F, '''    while(data.is_not_empty())
    {
        auto read''', '''    for(;;)
    {
        if(data.is_empty()) break;
        auto read''')]),
 ('min', 'ok', 'C09', [(F, '''        auto read = data.take(m_num_bytes_to_read);
        data.advance(read.length());''', '''        const auto count = std::min<std::size_t>(data.length(), m_num_bytes_to_read);
        auto read = data.take(count);
        data.advance(count);''')]),
 ('handlecomplete', 'ok', 'C09', [(F, '''        if(m_num_bytes_to_read == 0)
        {
            if(!m_reading_body)
            {
                find_body_size();
            }
            else
            {
                send_data();
            }
        }''', '''        if(m_num_bytes_to_read != 0) continue;
        if(m_reading_body)
            send_data();
        else
            find_body_size();''')]),
]
