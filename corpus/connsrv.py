S = 'lib/src/server/channel/AsioServer.cpp'
SH = 'lib/src/server/channel/AsioServer.h'
T = 'lib/src/server/channel/AsioServerTcpConnection.cpp'
TH = 'lib/src/server/channel/AsioServerTcpConnection.h'
L = 'lib/src/server/channel/ServerConnectionListener.cpp'
B = 'lib/src/server/channel/ServerConnectionListenerBuilder.cpp'
EDITS = [
 # server
 ('noreaccept', 'bad', 'C22', [(S, '        m_connections.remove(connection);\n        start_accept();\n        return;', '        m_connections.remove(connection);\n        return;')]),
 ('noaccept2', 'bad', 'C22', [(S, '    // Loop to continue accepting connections\n    start_accept();', '')]),
 ('acceptcap', 'bad', 'C22', [(S, '    // Loop to continue accepting connections\n    start_accept();', '    if(m_num_connections < m_max_connections) start_accept();')]),
 ('offbycap', 'bad', 'C22', [(S, 'if(m_num_connections > m_max_connections)', 'if(m_num_connections >= m_max_connections)')]),
 ('offbycap2', 'bad', 'C22', [(S, 'if(m_num_connections > m_max_connections)', 'if(m_num_connections > m_max_connections + 1)')]),
 ('killnew', 'bad', 'C22', [(S, 'remove_connection(m_connections.front());', 'remove_connection(m_connections.back());')]),
 ('nocount', 'bad', 'C22', [(S, '    ++m_num_connections;\n', '')]),
 ('nouncount', 'bad', 'C22', [(S, '        --m_num_connections;\n', '')]),
 ('failedkept', 'bad', 'C22', [(S, '        m_connections.remove(connection);\n        start_accept();', '        start_accept();')]),
 ('failremove', 'bad', 'C22', [(S, '        m_connections.remove(connection);\n        start_accept();', '        remove_connection(connection);\n        start_accept();')]),
 ('noclose', 'bad', 'C22', [(S, '        (*it)->close();\n        m_connections.erase(it);', '        m_connections.erase(it);')]),
 ('noerase', 'bad', 'C22', [(S, '        m_connections.erase(it);\n', '')]),
 ('shutnoclose', 'bad', 'C22', [(S, '            (*it)->close();\n            ++it;', '            ++it;')]),
 ('shutaccept', 'bad', 'C22', [(S, '        m_tcp_acceptor.close(', '        if(false) m_tcp_acceptor.close(')]),
 ('servefailed', 'bad', 'C22', [(S, '        m_connections.remove(connection);\n        start_accept();\n        return;\n', '        m_connections.remove(connection);\n        start_accept();\n')]),
 ('noflag', 'bad', 'C22', [(S, '        m_is_shutdown = true;\n', '')]),
 ('nolistener', 'bad', 'C23', [(S, '    connection->set_listener(std::shared_ptr<IConnectionListener>(m_connection_listener_builder->build(connection)));\n', '')]),
 ('oldlistener', 'bad', 'C23', [(S, 'm_connection_listener_builder->build(connection)', 'm_connection_listener_builder->build(m_connections.front())'), ]),
 ('nostart', 'bad', 'C23', [(S, '    connection->start();\n', '')]),
 # connection
 ('noread', 'bad', 'C23', [(T, '    send_buffer();\n\n    begin_read();', '    send_buffer();')]),
 ('noread2', 'bad', 'C23', [(T, '(unsigned int) bytes_transferred});\n    }\n\n    begin_read();', '(unsigned int) bytes_transferred});\n    }')]),
 ('tworeads', 'bad', 'C23', [(T, '    send_buffer();\n\n    if(m_connection_listener)', '    send_buffer();\n    begin_read();\n\n    if(m_connection_listener)')]),
 ('shortdata', 'bad', 'C23', [(T, '(unsigned int) bytes_transferred}', '(unsigned int) bytes_transferred / 2}')]),
 ('nonext', 'bad', 'C23', [(T, '    m_write_buffers.pop_front();\n    send_buffer();', '    m_write_buffers.pop_front();')]),
 ('nopop', 'bad', 'C23', [(T, '    m_write_buffers.pop_front();\n    send_buffer();', '    send_buffer();')]),
 ('poplate', 'bad', 'C23', [(T, '    m_write_buffers.pop_front();\n    send_buffer();', '    m_write_buffers.pop_back();\n    send_buffer();')]),
 ('overlap', 'bad', 'C23', [(T, '    if(m_write_buffers.size() == 1)\n', '')]),
 ('front', 'bad', 'C23', [(T, 'm_write_buffers.emplace_back(data);', 'm_write_buffers.emplace_front(data);')]),
 ('lifo', 'bad', 'C23', [(T, 'm_write_buffers.emplace_back(data);', 'if(m_write_buffers.empty()) m_write_buffers.emplace_back(data); else m_write_buffers.front() = ser4cpp::Buffer{data};')]),
 ('nosend', 'ok', 'C23', [(T, '    m_is_connected = true;\n    send_buffer();', '    m_is_connected = true;')]),
 ('notconnected', 'bad', 'C23', [(T, '    m_is_connected = true;\n    send_buffer();', '    send_buffer();')]),
 ('shortw', 'bad', 'C23', [(T, 'm_write_buffers.front().length())', 'm_write_buffers.front().length() - 1)')]),
 ('somew', 'bad', 'C23', [(T, 'asio::async_write(m_tcp_socket,\n                          asio::buffer(m_write_buffers.front().as_rslice(), m_write_buffers.front().length()),', 'm_tcp_socket.async_write_some(\n                          asio::buffer(m_write_buffers.front().as_rslice(), m_write_buffers.front().length()),')]),
 ('noerr', 'bad', 'C23', [(T, '        m_logger->error("Read error: {}", ec.message());\n        close();\n        send_error(ec.message());', '        m_logger->error("Read error: {}", ec.message());\n        close();')]),
 ('noclose2', 'bad', 'C23', [(T, '        m_logger->error("Read error: {}", ec.message());\n        close();\n', '        m_logger->error("Read error: {}", ec.message());\n'), (T, '        m_connection_listener->on_error(message);\n    }\n\n    notify_close();', '        m_connection_listener->on_error(message);\n    }')]),
 ('nocloseop', 'bad', 'C23', [(T, '            m_tcp_socket.close(ec);\n', '')]),
 ('wnoerr', 'bad', 'C23', [(T, '        m_logger->error("Write error: {}", ec.message());\n        close();\n        send_error(ec.message());', '        m_logger->error("Write error: {}", ec.message());\n        close();')]),
 ('noshutrd', 'bad', 'C23', [(T, 'const asio::error_code& ec, std::size_t bytes_transferred)\n{\n    if(m_is_shutdown) return;', 'const asio::error_code& ec, std::size_t bytes_transferred)\n{')]),
 ('noshut', 'bad', 'C23', [(T, '        m_is_shutdown = true;\n', '')]),
 ('reopen', 'bad', 'C23', [(T, '    m_write_buffers.emplace_back(data);\n    if(m_write_buffers.size() == 1)\n    {\n        send_buffer();\n    }', '    m_write_buffers.emplace_back(data);\n    if(m_write_buffers.size() == 1)\n    {\n        send_buffer();\n        m_write_buffers.pop_front();\n    }')]),
 ('wbchange', 'bad', 'C27', [(T, '    m_write_buffers.emplace_back(data);', '    if(m_write_buffers.empty()) m_write_buffers.emplace_back(data); else m_write_buffers.front() = ser4cpp::Buffer{data};')]),
 ('wbself', 'bad', 'C27', [(T, '    m_write_buffers.emplace_back(data);\n    if(m_write_buffers.size() == 1)\n    {\n        send_buffer();\n    }', '    asio::async_write(m_tcp_socket, asio::buffer(data, data.length()), m_executor->wrap(std::bind(&AsioServerTcpConnection::write_handler, std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()), _1, _2)));')]),
 ('wbvec', 'bad', 'C27', [(T, '    m_write_buffers.pop_front();\n    send_buffer();', '    send_buffer();\n    m_write_buffers.pop_front();')]),
 ('rawthis', 'bad', 'C27', [(T, '''std::bind(&AsioServerTcpConnection::read_handler,
                                                               std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
                                                               _1, _2)''', '''[this](const asio::error_code& e, std::size_t n) { read_handler(e, n); }''')]),
 # listener
 ('lnoparse', 'bad', 'C23', [(L, '    m_parser.parse(data);', '    if(data.length() >= 8) m_parser.parse(data);')]),
 ('ltwice', 'bad', 'C23', [(L, '    m_parser.parse(data);', '    m_parser.reset();\n    m_parser.parse(data);')]),
 ('lnoreset', 'bad', 'C23', [(L, '    m_parser.reset();', '')]),
 ('lnolock', 'bad', 'C23', [(L, '    if(channel && connection)', '    if(channel)')]),
 ('lonce', 'bad', 'C23', [(L, '        channel->on_mbap(message, *connection);', '        if(message.data.length() > 1) channel->on_mbap(message, *connection);')]),
 # behaviour-preserving
 ('oklreturn', 'ok', 'C23', [(L, '    if(channel && connection)\n    {\n        channel->on_mbap(message, *connection);\n    }', '    if(!channel || !connection) return;\n    channel->on_mbap(message, *connection);')]),
 ('oklexp', 'ok', 'C23', [(L, '    auto connection = m_connection.lock();\n', '    if(m_connection.expired()) return;\n    auto connection = m_connection.lock();\n')]),
 ('okmerge', 'ok', 'C22 C23 C27', [(T, '        close();\n        send_error(ec.message());\n        return;\n    }\n\n    m_logger->debug("Received', '        send_error(ec.message());\n        close();\n        return;\n    }\n\n    m_logger->debug("Received')]),
 ('oklambda', 'ok', 'C22 C23 C27', [(T, '''std::bind(&AsioServerTcpConnection::read_handler,
                                                               std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
                                                               _1, _2)''', '''[this, self = shared_from_this()](const asio::error_code& e, std::size_t n) { read_handler(e, n); }''')]),
 ('okdeque', 'ok', 'C22 C23 C27', [(T, 'if(m_write_buffers.size() == 1)', 'const bool idle = m_write_buffers.size() < 2;\n    if(idle)')]),
 ('okfor', 'ok', 'C22 C23', [(S, 'remove_connection(m_connections.front());', 'auto oldest = *m_connections.begin();\n        remove_connection(oldest);')]),
 ('okorder', 'ok', 'C22 C23 C27', [(S, '''    // Loop to continue accepting connections
    start_accept();''', ''), (S, '    connection->set_listener(', '    start_accept();\n    connection->set_listener(')]),
 ('okwhile', 'ok', 'C22', [(S, '    if(m_num_connections > m_max_connections)\n    {', '    while(m_num_connections > m_max_connections)\n    {')]),
 ('okshutcancel', 'ok', 'C22 C23 C27', [(T, '        m_tcp_socket.cancel(ec);\n', '        m_tcp_socket.close(ec);\n')]),
 ('okclosenow', 'ok', 'C22 C23 C27', [(T, '            notify_close();\n        }\n    });', '        }\n        notify_close();\n    });')]),
 ('okstart', 'ok', 'C22 C23 C27', [(T, '    send_buffer();\n\n    begin_read();', '    begin_read();\n    send_buffer();')]),
 ('okfind', 'ok', 'C22 C23', [(S, '''    auto it = std::find(m_connections.begin(), m_connections.end(), connection);
    if(it != m_connections.end())
    {
        (*it)->close();
        m_connections.erase(it);
        --m_num_connections;
    }''', '''    for(auto it = m_connections.begin(); it != m_connections.end(); ++it)
    {
        if(*it != connection) continue;
        connection->close();
        m_connections.erase(it);
        --m_num_connections;
        break;
    }''')]),
]
