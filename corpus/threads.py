M = 'lib/src/ModbusManagerImpl.cpp'
C = 'lib/src/client/channel/AsioClientTcpConnection.cpp'
CC = 'lib/src/client/channel/ClientChannelTcp.cpp'
CCH = 'lib/src/client/channel/ClientChannelTcp.h'
SE = 'lib/src/client/session/ClientSessionImpl.cpp'
SR = 'lib/src/client/session/ScheduledRequest.hpp'
SRH = 'lib/src/client/session/ScheduledRequest.h'
S = 'lib/src/server/channel/AsioServer.cpp'
T = 'lib/src/server/channel/AsioServerTcpConnection.cpp'
SC = 'lib/src/server/channel/ServerChannelTcp.cpp'
SCH = 'lib/src/server/channel/ServerChannelTcp.h'
EDITS = [
 ('cc_atomic', 'bad', 'C26', [(CCH, 'std::atomic<bool> m_is_shutdown', 'bool m_is_shutdown')]),
 ('sc_atomic', 'bad', 'C26', [(SCH, 'std::atomic<bool> m_is_shutdown', 'bool m_is_shutdown')]),
 ('sr_freq', 'bad', 'C26', [(SRH, 'std::atomic<duration_t> m_frequency', 'duration_t m_frequency')]),
 ('sr_run', 'bad', 'C26', [(SRH, 'std::atomic<bool> m_running', 'bool m_running')]),
 ('sr_freq_direct', 'ok', 'C26', [(SR, '''    m_executor->post([=, self = shared_from_this()]() {
        m_frequency = frequency;
    });''', '    m_frequency = frequency;')]),
 ('sr_stop_direct', 'bad', 'C26', [(SR, '''    m_executor->post([=, self = shared_from_this()]() {
        if(m_running)
        {
            m_running = false;
            m_timer.cancel();
        }
    });''', '''    if(m_running)
    {
        m_running = false;
        m_timer.cancel();
    }''')]),
 ('sr_start_direct', 'bad', 'C26', [(SR, '''    m_executor->post([=, self = shared_from_this()]() {
        if(!m_running)
        {
            m_running = true;
            ++m_generation;
            execute();
        }
    });''', '''    if(!m_running)
    {
        m_running = true;
        ++m_generation;
        execute();
    }''')]),
 ('cc_create_nolock', 'bad', 'C26', [(CC, '    std::lock_guard<std::mutex> lock(m_sessions_mutex);\n    if(!m_is_shutdown)', '    if(!m_is_shutdown)')]),
 ('cc_shut_nolock', 'bad', 'C26', [(CC, '            std::lock_guard<std::mutex> lock(m_sessions_mutex);\n            m_is_shutdown = true;', '            m_is_shutdown = true;')]),
 ('cc_create_unlocked_early', 'bad', 'C26', [(CC, '    std::lock_guard<std::mutex> lock(m_sessions_mutex);\n    if(!m_is_shutdown)', '    { std::lock_guard<std::mutex> lock(m_sessions_mutex); }\n    if(!m_is_shutdown)')]),
 ('cc_create_unique', 'ok', 'C26', [(CC, '    std::lock_guard<std::mutex> lock(m_sessions_mutex);\n    if(!m_is_shutdown)', '    std::unique_lock<std::mutex> lock(m_sessions_mutex);\n    if(!m_is_shutdown)')]),
 ('cc_id_user', 'bad', 'C26', [(CC, '        std::shared_ptr<IMessage> req{request.clone()};', '        std::shared_ptr<IMessage> req{request.clone()};\n        ++m_next_transaction_id;')]),
 ('cc_pending_read', 'bad', 'C26', [(CC, '    if(request.is_valid())', '    if(m_pending_requests.size() > 10000) return;\n    if(request.is_valid())')]),
 ('cc_shut_direct', 'bad', 'C26', [(CC, '''    m_executor->post([=, self = shared_from_this()] {
        m_logger->info("Shutting down.");''', '''    m_current_timer.cancel();
    m_executor->post([=, self = shared_from_this()] {
        m_logger->info("Shutting down.");''')]),
 ('cc_shut_conn', 'ok', 'C26', [(CC, '''    m_executor->post([=, self = shared_from_this()] {
        m_logger->info("Shutting down.");''', '''    m_tcp_connection->shutdown();
    m_executor->post([=, self = shared_from_this()] {
        m_logger->info("Shutting down.");''')]),
 ('conn_shut_flag', 'bad', 'C26', [(C, '''    m_executor->post([=, self = shared_from_this()] () {
        m_is_shutdown = true;
''', '''    m_is_shutdown = true;
    m_executor->post([=, self = shared_from_this()] () {
'''), (CC, '''    m_executor->post([=, self = shared_from_this()] {
        m_logger->info("Shutting down.");''', '''    m_tcp_connection->shutdown();
    m_executor->post([=, self = shared_from_this()] {
        m_logger->info("Shutting down.");''')]),
 ('cc_setlistener_user', 'bad', 'C26', [(CC, '    if(request.is_valid())', '    m_tcp_connection->set_listener(std::dynamic_pointer_cast<ClientChannelTcp>(shared_from_this()));\n    if(request.is_valid())')]),
 ('sc_add_direct', 'bad', 'C26', [(SC, '''    m_executor->post([=, self=shared_from_this()]() {
        if(m_is_shutdown) return;

        m_sessions[unit_identifier] = session;
    });''', '    m_sessions[unit_identifier] = session;')]),
 ('sc_start_direct', 'bad', 'C26', [(SC, '''    if(m_is_shutdown) return;

    m_executor->post([=, self=shared_from_this()] {
        if(m_is_shutdown) return;
''', '''    if(m_is_shutdown || m_is_started) return;

    m_executor->post([=, self=shared_from_this()] {
        if(m_is_shutdown) return;
''')]),
 ('sc_start_server', 'bad', 'C26', [(SC, '''    m_executor->post([=, self=shared_from_this()] {
        if(m_is_shutdown) return;

        m_server->start(std::make_shared<ServerConnectionListenerBuilder>(std::dynamic_pointer_cast<ServerChannelTcp>(shared_from_this())));
        m_is_started = true;
    });''', '''    m_server->start(std::make_shared<ServerConnectionListenerBuilder>(std::dynamic_pointer_cast<ServerChannelTcp>(shared_from_this())));
    m_executor->post([=, self=shared_from_this()] {
        m_is_started = true;
    });''')]),
 ('se_push', 'bad', 'C26', [(SE, '''    m_executor->post([=, self = shared_from_this()]() {
        m_scheduled_requests.push_back(scheduled_request);
    });''', '    m_scheduled_requests.push_back(scheduled_request);')]),
 ('se_push_both', 'bad', 'C26', [(SE, '''    scheduled_request->start();
''', '''    scheduled_request->start();
    if(m_scheduled_requests.size() > 100) m_logger->warn("many scheduled requests");
''')]),
 ('read_nowrap', 'bad', 'C26', [(C, '''m_executor->wrap(std::bind(&AsioClientTcpConnection::read_handler,
                                                            std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
                                                            m_connection_id, _1, _2))''', '''std::bind(&AsioClientTcpConnection::read_handler,
                                                            std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
                                                            m_connection_id, _1, _2)''')]),
 ('conn_nowrap', 'bad', 'C26', [(C, '''m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
                                                 std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
                                                 m_connection_id, _1))''', '''std::bind(&AsioClientTcpConnection::connect_handler,
                                                 std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
                                                 m_connection_id, _1)''')]),
 ('two_strands', 'bad', 'C26', [(M, 'std::make_shared<ClientChannelTcp>(executor,', 'std::make_shared<ClientChannelTcp>(std::make_shared<exe4cpp::StrandExecutor>(m_io_service),')]),
 ('two_strands_srv', 'bad', 'C26', [(M, 'std::make_shared<ServerChannelTcp>(connection_logger, executor,', 'std::make_shared<ServerChannelTcp>(connection_logger, std::make_shared<exe4cpp::StrandExecutor>(m_io_service),')]),
 ('mgr_nolock', 'bad', 'C26', [(M, '''        std::lock_guard<std::mutex> lock(m_mutex);
        m_client_channels.emplace_back(channel);''', '        m_client_channels.emplace_back(channel);')]),
 ('mgr_nolock_srv', 'bad', 'C26', [(M, '''        std::lock_guard<std::mutex> lock(m_mutex);
        m_server_channels.emplace_back(channel);''', '        m_server_channels.emplace_back(channel);')]),
 ('mgr_shut_nolock', 'bad', 'C26', [(M, '        std::lock_guard<std::mutex> lock(m_mutex);\n\n        for(auto channel : m_client_channels)', '        for(auto channel : m_client_channels)')]),
 ('mgr_helper', 'ok', 'C26 C28', [(M, '''        for(auto channel : m_client_channels)
        {
            channel->shutdown();
        }
        m_client_channels.clear();
''', '''        for(auto it = m_client_channels.begin(); it != m_client_channels.end(); ++it)
        {
            (*it)->shutdown();
        }
        std::vector<std::shared_ptr<IClientChannel>>{}.swap(m_client_channels);
''')]),
 ('cc_relock', 'bad', 'C26', [(CC, '            std::lock_guard<std::mutex> lock(m_sessions_mutex);\n            m_is_shutdown = true;', '            std::lock_guard<std::mutex> lock(m_sessions_mutex);\n            std::lock_guard<std::mutex> lock2(m_sessions_mutex);\n            m_is_shutdown = true;')]),
 ('cc_cancel_locked', 'bad', 'C26', [(CC, '    for(auto& req : m_pending_requests)\n', '    std::lock_guard<std::mutex> lock(m_sessions_mutex);\n    for(auto& req : m_pending_requests)\n')]),
 # C28
 ('m_noclient', 'bad', 'C28', [(M, '''        for(auto channel : m_client_channels)
        {
            channel->shutdown();
        }
''', '')]),
 ('m_noserver', 'bad', 'C28', [(M, '''        for(auto channel : m_server_channels)
        {
            channel->shutdown();
        }
''', '')]),
 ('m_notadded', 'bad', 'C28', [(M, '        m_server_channels.emplace_back(channel);', '        (void)0;')]),
 ('m_notadded2', 'bad', 'C28', [(M, '        m_client_channels.emplace_back(channel);', '        if(m_client_channels.empty()) m_client_channels.emplace_back(channel);')]),
 ('m_first', 'bad', 'C28', [(M, '''        for(auto channel : m_client_channels)
        {
            channel->shutdown();
        }
''', '        if(!m_client_channels.empty()) m_client_channels.front()->shutdown();\n')]),
 ('m_joinlocked', 'bad', 'C28', [(M, '        thread_pool = std::move(m_thread_pool);', '        thread_pool = std::move(m_thread_pool);\n        thread_pool.reset();')]),
 ('m_joinfirst', 'bad', 'C28', [(M, '    std::unique_ptr<exe4cpp::ThreadPool> thread_pool;\n', '    std::unique_ptr<exe4cpp::ThreadPool> thread_pool = std::move(m_thread_pool);\n    thread_pool.reset();\n')]),
 ('m_nojoin', 'bad', 'C28', [(M, '        thread_pool = std::move(m_thread_pool);', '        (void)0;')]),
 ('m_dtor', 'bad', 'C28', [(M, 'ModbusManagerImpl::~ModbusManagerImpl()\n{\n    shutdown();', 'ModbusManagerImpl::~ModbusManagerImpl()\n{')]),
 ('m_early', 'bad', 'C28', [(M, '        for(auto channel : m_client_channels)\n', '        if(m_client_channels.empty()) { thread_pool = std::move(m_thread_pool); return; }\n        for(auto channel : m_client_channels)\n')]),
 ('m_endpoint', 'bad', 'C28', [(M, '''                                                       endpoint,
                                                       max_num_connections);''', '''                                                       Ipv4Endpoint{"127.0.0.1", 502},
                                                       max_num_connections);''')]),
 ('m_maxconn', 'bad', 'C28', [(M, '                                                       max_num_connections);', '                                                       1u);')]),
 ('m_adapter', 'bad', 'C28', [(M, '                                                              adapter);', '                                                              "");')]),
 ('m_cache', 'bad', 'C28', [(M, '    auto channel = std::make_shared<ServerChannelTcp>(connection_logger, executor, server);\n', '''    if(!m_server_channels.empty()) return m_server_channels.front();
    auto channel = std::make_shared<ServerChannelTcp>(connection_logger, executor, server);
''')]),
 ('m_defer', 'ok', 'C28', [(M, '    // The destruction of the pool joins the threads. The mutex must not be held,\n    // because callbacks may still use the manager.\n    thread_pool.reset();', '')]),
 ('m_order', 'ok', 'C28', [(M, '''        for(auto channel : m_client_channels)
        {
            channel->shutdown();
        }
        m_client_channels.clear();
''', '        std::vector<std::shared_ptr<IClientChannel>> clients;\n        clients.swap(m_client_channels);\n        for(std::size_t i = 0; i < clients.size(); ++i) clients[i]->shutdown();\n')]),
 ('m_outside', 'ok', 'C28', [(M, '''    std::unique_ptr<exe4cpp::ThreadPool> thread_pool;

    {
        std::lock_guard<std::mutex> lock(m_mutex);

        for(auto channel : m_client_channels)
        {
            channel->shutdown();
        }
        m_client_channels.clear();

        for(auto channel : m_server_channels)
        {
            channel->shutdown();
        }
        m_server_channels.clear();
''', '''    std::unique_ptr<exe4cpp::ThreadPool> thread_pool;
    std::vector<std::shared_ptr<IClientChannel>> clients;
    std::vector<std::shared_ptr<IServerChannel>> servers;
    {
        std::lock_guard<std::mutex> lock(m_mutex);
        clients = std::move(m_client_channels);
        servers = std::move(m_server_channels);
        m_client_channels.clear();
        m_server_channels.clear();
        for(const auto& s : servers) s->shutdown();
        for(const auto& c : clients) c->shutdown();
''')]),
]
