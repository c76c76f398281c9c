C = 'lib/src/client/channel/AsioClientTcpConnection.cpp'
CH = 'lib/src/client/channel/AsioClientTcpConnection.h'
EDITS = [
 ('noresolveerr', 'bad', 'C19', [(C, '        m_logger->error("IP resolver error: {}", ec.message());\n        disconnect();\n        send_error(ec.message());', '        m_logger->error("IP resolver error: {}", ec.message());\n        disconnect();')]),
 ('noresolvedis', 'bad', 'C19', [(C, '        m_logger->error("IP resolver error: {}", ec.message());\n        disconnect();\n', '        m_logger->error("IP resolver error: {}", ec.message());\n')]),
 ('noconnecterr', 'bad', 'C19', [(C, '        m_logger->error("Connection error: {}", ec.message());\n        disconnect();\n        send_error(ec.message());', '        m_logger->error("Connection error: {}", ec.message());\n        disconnect();')]),
 ('noconnectdis', 'bad', 'C19', [(C, '        m_logger->error("Connection error: {}", ec.message());\n        disconnect();\n', '        m_logger->error("Connection error: {}", ec.message());\n')]),
 ('noreaderr', 'bad', 'C19', [(C, '            m_logger->error("Read error: {}", ec.message());\n            disconnect();\n            send_error(ec.message());', '            m_logger->error("Read error: {}", ec.message());\n            disconnect();')]),
 ('noreaddis', 'bad', 'C19', [(C, '            m_logger->error("Read error: {}", ec.message());\n            disconnect();\n', '            m_logger->error("Read error: {}", ec.message());\n')]),
 ('nowriteerr', 'bad', 'C19', [(C, '        m_logger->error("Write error: {}", ec.message());\n        disconnect();\n        send_error(ec.message());', '        m_logger->error("Write error: {}", ec.message());\n        disconnect();')]),
 ('noeof', 'bad', 'C19', [(C, 'gracefully closed by peer.");\n            disconnect();\n            send_error(ec.message());', 'gracefully closed by peer.");\n            disconnect();')]),
 ('nosetup', 'bad', 'C19', [(C, 'm_logger->error("socket bind error: {}", ec.message()); fail_connection(ec.message()); return;', 'm_logger->error("socket bind error: {}", ec.message()); return;')]),
 ('reentrant', 'ok', 'C19', [(C, 'm_logger->error("socket bind error: {}", ec.message()); fail_connection(ec.message()); return;', 'm_logger->error("socket bind error: {}", ec.message()); disconnect(); fail_connection(ec.message()); return;')]),
 ('noread', 'bad', 'C19', [(C, '    send_buffer();\n    begin_read();', '    send_buffer();')]),
 ('noread3', 'bad', 'C19', [(C, '(unsigned int) bytes_transferred});\n    }\n\n    begin_read();', '(unsigned int) bytes_transferred});\n    }\n\n    if(bytes_transferred < 4096) begin_read();')]),
 ('deliver1', 'bad', 'C19', [(C, '(unsigned int) bytes_transferred}', '(unsigned int) bytes_transferred - 1}')]),
 ('deliver2', 'bad', 'C19', [(C, '(unsigned int) bytes_transferred}', '(unsigned int) m_read_buffer.size()}')]),
 ('deliver3', 'bad', 'C19', [(C, 'm_read_buffer.data(), (unsigned int) bytes_transferred}', 'm_read_buffer.data(), (unsigned int) std::min<std::size_t>(bytes_transferred, 260)}')]),
 ('nosendconn', 'bad', 'C19', [(C, '    send_buffer();\n    begin_read();', '    begin_read();')]),
 ('sendpart', 'bad', 'C19', [(C, 'asio::buffer(buffer->as_rslice(), buffer->length())', 'asio::buffer(buffer->as_rslice(), buffer->length() - 1)')]),
 ('sendsome', 'bad', 'C19', [(C, 'asio::async_write(m_tcp_socket,\n                          asio::buffer(buffer->as_rslice(), buffer->length()),', 'm_tcp_socket.async_write_some(\n                          asio::buffer(buffer->as_rslice(), buffer->length()),')]),
 ('writelost', 'bad', 'C19', [(C, "    // Bytes that were given to send() in the meantime\n    send_buffer();", '')]),
 ('overlap', 'bad', 'C19', [(C, 'if(m_write_buffer && !m_is_writing)', 'if(m_write_buffer)')]),
 ('stuckwriting', 'bad', 'C19', [(C, '    ++m_connection_id;\n    m_is_writing = false;\n', '    ++m_connection_id;\n')]),
 ('staleread', 'bad', 'C19', [(C, 'void AsioClientTcpConnection::read_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred)\n{\n    if(m_is_shutdown || connection_id != m_connection_id) return;', 'void AsioClientTcpConnection::read_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred)\n{\n    if(m_is_shutdown) return;')]),
 ('stalewrite', 'bad', 'C19', [(C, 'std::size_t bytes_transferred)\n{\n    if(m_is_shutdown || connection_id != m_connection_id) return;\n\n    m_is_writing = false;', 'std::size_t bytes_transferred)\n{\n    if(m_is_shutdown) return;\n\n    m_is_writing = false;')]),
 ('staleconn', 'bad', 'C19', [(C, 'void AsioClientTcpConnection::connect_handler(unsigned int connection_id, const asio::error_code& ec)\n{\n    if(m_is_shutdown || connection_id != m_connection_id) return;', 'void AsioClientTcpConnection::connect_handler(unsigned int connection_id, const asio::error_code& ec)\n{\n    if(m_is_shutdown) return;')]),
 ('staleres', 'bad', 'C19', [(C, 'asio::ip::tcp::resolver::iterator endpoints)\n{\n    if(m_is_shutdown || connection_id != m_connection_id) return;', 'asio::ip::tcp::resolver::iterator endpoints)\n{\n    if(m_is_shutdown) return;')]),
 ('noid', 'bad', 'C19', [(C, '    ++m_connection_id;\n', '')]),
 ('noshutconn', 'ok', 'C19', [(C, 'void AsioClientTcpConnection::connect_handler(unsigned int connection_id, const asio::error_code& ec)\n{\n    if(m_is_shutdown || connection_id != m_connection_id) return;', 'void AsioClientTcpConnection::connect_handler(unsigned int connection_id, const asio::error_code& ec)\n{\n    if(connection_id != m_connection_id) return;')]),
 ('noshutsend', 'bad', 'C19', [(C, '    if(m_is_shutdown) return;\n    \n    m_write_buffer = std::make_unique', '    m_write_buffer = std::make_unique')]),
 ('nocancel', 'bad', 'C19', [(C, '        m_tcp_socket.cancel(ec);\n', '')]),
 ('noshutflag', 'bad', 'C19', [(C, '        m_is_shutdown = true;\n', '')]),
 ('statusconn', 'bad', 'C19', [(C, '        m_current_connection_status = ConnectionStatus::Connecting;\n        asio::ip', '        asio::ip')]),
 ('statusup', 'bad', 'C19', [(C, '    m_current_connection_status = ConnectionStatus::Connected;\n', '')]),
 ('statusdown', 'bad', 'C19', [(C, '    m_is_writing = false;\n    m_current_connection_status = ConnectionStatus::NotConnected;\n', '    m_is_writing = false;\n')]),
 ('noclose', 'bad', 'C19', [(C, '        m_tcp_socket.close(ec);\n', '')]),
 ('freed', 'bad', 'C27', [(C, 'std::shared_ptr<ser4cpp::Buffer> buffer{std::move(m_write_buffer)};', 'std::shared_ptr<ser4cpp::Buffer> buffer{std::move(m_write_buffer)};\n        auto keep = buffer;'), (C, 'm_connection_id, buffer, _1, _2)', 'm_connection_id, std::shared_ptr<ser4cpp::Buffer>{}, _1, _2)')]),
 ('stackbuf', 'bad', 'C27', [(C, '        std::shared_ptr<ser4cpp::Buffer> buffer{std::move(m_write_buffer)};', '        std::shared_ptr<ser4cpp::Buffer> buffer{std::move(m_write_buffer)};\n        const ser4cpp::Buffer copy{buffer->as_rslice()};'), (C, 'asio::buffer(buffer->as_rslice(), buffer->length())', 'asio::buffer(copy.as_rslice(), copy.length())')]),
 # behaviour-preserving
 ('okmerge', 'ok', 'C19 C27', [(C, '''        if(ec == asio::error::misc_errors::eof)
        {
            m_logger->info("Connection gracefully closed by peer.");
            disconnect();
            send_error(ec.message());
        }
        else
        {
            m_logger->error("Read error: {}", ec.message());
            disconnect();
            send_error(ec.message());
        }
''', '''        if(ec == asio::error::eof) m_logger->info("Connection gracefully closed by peer.");
        else m_logger->error("Read error: {}", ec.message());
        disconnect();
        send_error(ec.message());
''')]),
 ('oklambda', 'ok', 'C19 C27', [(C, '''m_executor->wrap(std::bind(&AsioClientTcpConnection::read_handler,
                                                            std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
                                                            m_connection_id, _1, _2))''', '''m_executor->wrap([this, self = shared_from_this(), id = m_connection_id](const asio::error_code& ec, std::size_t n) { read_handler(id, ec, n); })''')]),
 ('okswitch', 'ok', 'C19 C27', [(C, '''    if(m_current_connection_status == ConnectionStatus::Connected)
    {
        send_buffer();
    }''', '''    switch(m_current_connection_status)
    {
        case ConnectionStatus::Connected: send_buffer(); break;
        default: break;
    }''')]),
 ('okearly', 'ok', 'C19 C27', [(C, '''    if(connection_listener)
    {
        connection_listener->on_error(message);
    }''', '''    if(!connection_listener) return;
    connection_listener->on_error(message);''')]),
 ('okorder', 'ok', 'C19 C27', [(C, '    send_buffer();\n    begin_read();', '    begin_read();\n    send_buffer();')]),
 ('oksync', 'ok', 'C19 C27', [(C, '''    m_executor->post([=, self = shared_from_this()] () {
        if(m_is_shutdown) return;

        disconnect();
    });''', '''    disconnect();''')]),
 ('okshutclose', 'ok', 'C19 C27', [(C, '        m_tcp_socket.cancel(ec);\n', '        m_tcp_socket.close(ec);\n')]),
 ('okshutcancel', 'ok', 'C19 C27', [(C, '        m_tcp_socket.cancel(ec);\n', '        m_tcp_socket.cancel(ec);\n        m_resolver.cancel();\n')]),
 ('okhelper', 'ok', 'C19 C27', [(C, '    if(m_current_connection_status == ConnectionStatus::NotConnected)\n    {\n        m_logger->info("Est', '    const bool idle = m_current_connection_status == ConnectionStatus::NotConnected;\n    if(idle)\n    {\n        m_logger->info("Est')]),
 ('okonestop', 'ok', 'C19 C27', [(C, '        m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);\n', '')]),
 ('okvector', 'ok', 'C19 C27', [(C, '        asio::ip::tcp::endpoint endpoint{};\n        endpoint.address(address);\n        endpoint.port(0);\n', '        const asio::ip::tcp::endpoint endpoint{address, 0};\n')]),
]
