F = 'lib/src/client/channel/ClientChannelTcp.cpp'
PR = 'lib/src/client/channel/PendingRequest.h'
TI = 'lib/src/TransactionIdentifier.cpp'
EDITS = [
 ('two-out', 'bad', 'C10', [(F, 'if(!m_current_request && !m_pending_requests.empty())', 'if(!m_pending_requests.empty())')]),
 ('lifo', 'bad', 'C10', [(F, '''m_current_request = std::move(m_pending_requests.front());
        m_pending_requests.pop_front();''', '''m_current_request = std::move(m_pending_requests.back());
        m_pending_requests.pop_back();''')]),
 ('no-incr', 'bad', 'C11', [(F, '++m_next_transaction_id;', '')]),
 ('incr-byte', 'bad', 'C11', [(TI, '''    ++m_value;
    return *this;''', '''    m_value = (m_value & 0xFF00) | ((m_value + 1) & 0xFF);
    return *this;''')]),
 ('incr-2', 'bad', 'C11', [(TI, '''    ++m_value;
    return *this;''', '''    m_value += 2;
    return *this;''')]),
 ('incr-post', 'ok', 'C10 C11 C12 C13 C14 C15', [(F, '++m_next_transaction_id;', 'm_next_transaction_id++;')]),
 ('no-unit', 'bad', 'C12', [(F, '''&&
           message.unit_id == m_current_request->unit_id''', '')]),
 ('no-tx', 'bad', 'C12', [(F, '''message.transaction_id == m_current_request->transaction_id &&''', '')]),
 ('or-tx', 'bad', 'C12', [(F, '''message.transaction_id == m_current_request->transaction_id &&''', '''message.transaction_id == m_current_request->transaction_id ||''')]),
 ('eq-low', 'bad', 'C12', [(TI, 'return m_value == other.m_value;', 'return (m_value & 0xFF) == (other.m_value & 0xFF);')]),
 ('no-next', 'bad', 'C13', [(F, '''m_current_request.reset(nullptr);

            check_pending_requests();''', '''m_current_request.reset(nullptr);''')]),
 ('err-current', 'bad', 'C13', [(F, '''        m_current_request->response_handler(Expected<ser4cpp::rseq_t>::from_exception(ConnectionException{message}));
        cancel_current_request();''', '''        cancel_current_request();''')]),
 ('err-type', 'bad', 'C13', [(F, 'm_current_request->response_handler(Expected<ser4cpp::rseq_t>::from_exception(ConnectionException{message}));', 'm_current_request->response_handler(Expected<ser4cpp::rseq_t>::from_exception(TimeoutException{}));')]),
 ('err-pending', 'bad', 'C13', [(F, '    cancel_all_pending_requests(message);\n', '')]),
 ('err-noclear', 'bad', 'C13', [(F, '''    m_pending_requests.clear();
}''', '}')]),
 ('invalid-drop', 'bad', 'C13', [(F, '            response_handler(exception);', '')]),
 ('timer-nocancel', 'bad', 'C14', [(F, '            m_current_timer.cancel();\n            m_current_request->response_handler', '            m_current_request->response_handler')]),
 ('timer-nocancel-err', 'bad', 'C14', [(F, '''        m_current_request.reset(nullptr);
        m_current_timer.cancel();

        check''', '''        m_current_request.reset(nullptr);

        check''')]),
 ('cancel-after', 'bad', 'C14', [(F, '''        m_current_request.reset(nullptr);
        m_current_timer.cancel();

        check_pending_requests();''', '''        m_current_request.reset(nullptr);
        check_pending_requests();
        m_current_timer.cancel();''')]),
 ('stale', 'bad', 'C14', [(F, ' && m_current_request->transaction_id == transaction_id', '')]),
 ('sd-timer', 'bad', 'C15', [(F, '''        m_current_request.reset(nullptr);
        m_current_timer.cancel();

        m_tcp''', '''        m_current_request.reset(nullptr);

        m_tcp''')]),
 ('sd-conn', 'bad', 'C15', [(F, '        m_tcp_connection->shutdown();\n', '')]),
 ('sd-session', 'bad', 'C15', [(F, '            session->shutdown();\n', '')]),
 ('sd-nopush', 'bad', 'C15', [(F, '        m_sessions.push_back(session);\n', '')]),
 ('sd-late', 'bad', 'C15', [(F, '''            if(m_is_shutdown) return;

            auto pending''', '''            auto pending'''), (F, '''void ClientChannelTcp::check_pending_requests()
{
    if(m_is_shutdown) return;
''', '''void ClientChannelTcp::check_pending_requests()
{
''')]),
 ('reset', 'bad', 'C18', [(F, '    m_parser.reset();\n', '')]),
 ('noclone', 'bad', 'C12', [(F, 'std::shared_ptr<IMessage> req{request.clone()};', 'const IMessage* req = &request;')]),
 ('listener', 'bad', 'C12', [(F, '        m_tcp_connection->set_listener(std::dynamic_pointer_cast<ClientChannelTcp>(shared_from_this()));\n', '')]),
 ('unit-lit', 'bad', 'C12', [(PR, ': unit_id{unit_id},', ': unit_id{UnitIdentifier{1}},')]),
 ('timeout-arg', 'bad', 'C14', [(F, 'm_executor->start(m_current_request->timeout,', 'm_executor->start(std::chrono::seconds(1),')]),
 ('timer-first', 'ok', 'C10 C11 C12 C13 C14 C15', [(F, '''        m_tcp_connection->set_listener(std::dynamic_pointer_cast<ClientChannelTcp>(shared_from_this()));
        m_tcp_connection->send(serialized_request);
''', ''), (F, '''                cancel_current_request();
            }
        });
''', '''                cancel_current_request();
            }
        });
        m_tcp_connection->set_listener(std::dynamic_pointer_cast<ClientChannelTcp>(shared_from_this()));
        m_tcp_connection->send(serialized_request);
''')]),
 ('early-return', 'ok', 'C10 C11 C12 C13 C14 C15', [(F, '''    if(!m_current_request && !m_pending_requests.empty())
    {
        m_current''', '''    if(m_current_request) return;
    if(m_pending_requests.empty()) return;
    {
        m_current''')]),
 ('move-out', 'ok', 'C10 C11 C12 C13 C14 C15', [(F, '''            m_current_timer.cancel();
            m_current_request->response_handler(Expected<ser4cpp::rseq_t>{message.data});
            m_current_request.reset(nullptr);
''', '''            auto finished = std::move(m_current_request);
            m_current_timer.cancel();
            finished->response_handler(Expected<ser4cpp::rseq_t>{message.data});
''')]),
 ('while-loop', 'ok', 'C10 C11 C12 C13 C14 C15', [(F, '''    for(auto& req : m_pending_requests)
    {
        req->response_handler(Expected<ser4cpp::rseq_t>::from_exception(ConnectionException{message}));
    }

    m_pending_requests.clear();''', '''    while(!m_pending_requests.empty())
    {
        auto req = std::move(m_pending_requests.front());
        m_pending_requests.pop_front();
        req->response_handler(Expected<ser4cpp::rseq_t>::from_exception(ConnectionException{message}));
    }''')]),
 ('swap-loop', 'ok', 'C10 C11 C12 C13 C14 C15', [(F, '''    for(auto& req : m_pending_requests)
    {
        req->response_handler(Expected<ser4cpp::rseq_t>::from_exception(ConnectionException{message}));
    }

    m_pending_requests.clear();''', '''    std::deque<std::unique_ptr<PendingRequest>> requests;
    requests.swap(m_pending_requests);
    for(std::size_t i = 0; i < requests.size(); ++i)
    {
        auto failure = Expected<ser4cpp::rseq_t>::from_exception(ConnectionException{message});
        requests[i]->response_handler(failure);
    }''')]),
 ('guard', 'ok', 'C10 C11 C12 C13 C14 C15', [(F, '''    if(m_current_request)
    {
        if(message.transaction_id == m''', '''    if(!m_current_request)
    {
        m_logger->warn("nothing");
    }
    else
    {
        const bool same_unit = !(message.unit_id != m_current_request->unit_id);
        if(same_unit && message.transaction_id == m'''), (F, ''' &&
           message.unit_id == m_current_request->unit_id''', ''), (F, '''    else
    {
        m_logger->warn("Received message while not waiting for any response. Ignoring it.");
    }
''', '')]),
]
