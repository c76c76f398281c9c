C = 'lib/src/client/channel/AsioClientTcpConnection.cpp'
CC = 'lib/src/client/channel/ClientChannelTcp.cpp'
SE = 'lib/src/client/session/ClientSessionImpl.cpp'
SR = 'lib/src/client/session/ScheduledRequest.hpp'
S = 'lib/src/server/channel/AsioServer.cpp'
T = 'lib/src/server/channel/AsioServerTcpConnection.cpp'
SC = 'lib/src/server/channel/ServerChannelTcp.cpp'
EDITS = [
 ('cc_shutdown', 'bad', 'C25', [(CC, '    m_executor->post([=, self = shared_from_this()] {', '    m_executor->post([=] {')]),
 ('cc_timer', 'bad', 'C25', [(CC, 'm_current_request->timeout, [=, self = shared_from_this()]()', 'm_current_request->timeout, [this, transaction_id]()')]),
 ('conn_close', 'bad', 'C25', [(C, '    m_executor->post([=, self = shared_from_this()] () {\n        if(m_is_shutdown) return;\n', '    m_executor->post([this] () {\n        if(m_is_shutdown) return;\n')]),
 ('conn_read', 'bad', 'C25', [(C, 'm_executor->wrap(std::bind(&AsioClientTcpConnection::read_handler,\n                                                            std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),', 'm_executor->wrap(std::bind(&AsioClientTcpConnection::read_handler,\n                                                            this,')]),
 ('conn_fail', 'bad', 'C25', [(C, '[this, self = shared_from_this(), connection_id = m_connection_id, message] ()', '[this, self = shared_from_this(), connection_id = m_connection_id, &message] ()')]),
 ('ses_req', 'ok', 'C25', [(SE, 'timeout, [=, self = shared_from_this()](const', 'timeout, [=](const')]),
 ('ses_shut', 'ok', 'C25', [(SE, '    m_executor->post([=, self = shared_from_this()]() {', '    m_executor->post([=]() {')]),
 ('sch_start', 'bad', 'C25', [(SR, '    m_executor->post([=, self = shared_from_this()]() {', '    m_executor->post([=]() {')]),
 ('sch_req', 'bad', 'C25', [(SR, 'm_timeout, [=, self = shared_from_this()](const', 'm_timeout, [=](const'), (SR, '[=, self2 = self]() {', '[=, self2 = this->shared_from_this()]() {')]),
 ('sch_timer', 'bad', 'C25', [(SR, '[=, self2 = self]() {', '[this, generation]() {')]),
 ('srv_shut', 'bad', 'C25', [(S, '[this, self=shared_from_this()] {', '[this] {')]),
 ('srv_acc', 'bad', 'C25', [(S, '    m_executor->post([=, self=shared_from_this()] {', '    m_executor->post([=] {')]),
 ('srv_acc2', 'bad', 'C25', [(S, 'std::bind(&AsioServer::handle_accept,\n                                        std::dynamic_pointer_cast<AsioServer>(shared_from_this()),', 'std::bind(&AsioServer::handle_accept,\n                                        this,')]),
 ('srv_weak', 'bad', 'C25', [(S, 'std::bind(&AsioServer::handle_accept,\n                                        std::dynamic_pointer_cast<AsioServer>(shared_from_this()),\n                                        connection, _1)', '[this, weak = std::weak_ptr<AsioServer>(std::dynamic_pointer_cast<AsioServer>(shared_from_this())), connection](const std::error_code& e) { handle_accept(connection, e); }')]),
 ('sconn_close', 'bad', 'C25', [(T, '    m_executor->post([=, self=shared_from_this()]() {', '    m_executor->post([=]() {')]),
 ('sconn_shut', 'bad', 'C25', [(T, '    m_executor->post([=, self = shared_from_this()] () {', '    m_executor->post([=] () {')]),
 ('sconn_wr', 'bad', 'C25', [(T, '''std::bind(&AsioServerTcpConnection::write_handler,
                                                     std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),''', '''std::bind(&AsioServerTcpConnection::write_handler,
                                                     this,''')]),
 ('sconn_rseq', 'bad', 'C25', [(T, '''    m_write_buffers.emplace_back(data);
    if(m_write_buffers.size() == 1)
    {
        send_buffer();
    }''', '''    m_executor->post([=, self = shared_from_this()] {
        m_write_buffers.emplace_back(data);
        if(m_write_buffers.size() == 1)
        {
            send_buffer();
        }
    });''')]),
 ('sc_start', 'bad', 'C25', [(SC, '    m_executor->post([=, self=shared_from_this()] {', '    m_executor->post([=] {')]),
 ('sc_shut', 'bad', 'C25', [(SC, '    m_executor->post([this, self=shared_from_this()] {', '    m_executor->post([this] {')]),
 ('sc_add', 'bad', 'C25', [(SC, '    m_executor->post([=, self=shared_from_this()]() {', '    m_executor->post([&, self=shared_from_this()]() {')]),
 ('ses_shut2', 'bad', 'C25', [(SE, '    m_executor->post([=, self = shared_from_this()] {', '    m_executor->post([=] {')]),
 # preserving
 ('okweak', 'ok', 'C25', [(S, '[this, self=shared_from_this()] {', '[self=std::dynamic_pointer_cast<AsioServer>(shared_from_this())] {'),
    (S, '''        m_is_shutdown = true;

        m_tcp_acceptor.close();

        auto it = m_connections.begin();
        while(it != m_connections.end())
        {
            (*it)->close();
            ++it;
        }
        m_connections.clear();''', '''        self->m_is_shutdown = true;
        self->m_tcp_acceptor.close();
        for(auto& c : self->m_connections) c->close();
        self->m_connections.clear();''')]),
 ('okcopy', 'ok', 'C25', [(T, '''    m_write_buffers.emplace_back(data);
    if(m_write_buffers.size() == 1)
    {
        send_buffer();
    }''', '''    auto copy = std::make_shared<ser4cpp::Buffer>(data);
    m_executor->post([=, self = shared_from_this()] {
        m_write_buffers.emplace_back(copy->as_rslice());
        if(m_write_buffers.size() == 1)
        {
            send_buffer();
        }
    });''')]),
 ('oklocal', 'ok', 'C25', [(CC, '    m_executor->post([=, self = shared_from_this()] {', '    auto keep = shared_from_this();\n    m_executor->post([this, keep] {')]),
 ('okbindself', 'ok', 'C25', [(SC, '    m_executor->post([this, self=shared_from_this()] {', '    auto self = shared_from_this();\n    m_executor->post([this, self = std::move(self)] {')]),
 ('okweaklock', 'ok', 'C25', [(C, '    m_executor->post([=, self = shared_from_this()] () {\n        if(m_is_shutdown) return;\n', '    std::weak_ptr<AsioClientTcpConnection> weak = std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this());\n    m_executor->post([weak] () {\n        auto self = weak.lock();\n        if(!self || self->m_is_shutdown) return;\n'), (C, '        disconnect();\n    });', '        self->disconnect();\n    });')]),
]
