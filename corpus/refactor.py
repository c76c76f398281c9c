"""larger refactorings that keep the behaviour: several functions of a file
rewritten at once; none of the listed checks may alarm"""
import re

L = 'lib/src/'
CC = L + 'client/channel/ClientChannelTcp'
CT = L + 'client/channel/AsioClientTcpConnection'
SC = L + 'server/channel/ServerChannelTcp'
AS = L + 'server/channel/AsioServer'
ST = L + 'server/channel/AsioServerTcpConnection'
SL = L + 'server/channel/ServerConnectionListener'
SR = L + 'client/session/ScheduledRequest'
CS = L + 'client/session/ClientSessionImpl'
MP = L + 'messages/mbap/MbapParser'
MM = L + 'ModbusManagerImpl'
DB = L + 'server/db/SingleTypeDatabase.cpp'
IM = L + 'server/db/InMemoryDatabase'
CLIENT = 'C10 C11 C12 C13 C14 C15 C18 C25 C26'
CONN = 'C19 C25 C26 C27 C38'
SERVER = 'C20 C21 C24 C25 C26'
ASRV = 'C22 C23 C25 C26 C27 C38'
EDITS = []


def old(f, name):
    """the text of the definition of a function"""
    s = open('/repo/' + f).read()
    m = re.search(r'^[^\n #/}]*[^\n]*\b%s\((?:.|\n)*?\n\}' % re.escape(name), s, re.M)
    return m.group(0)


def old2(f, arg):
    s = open('/repo/' + f).read()
    return re.search(r'^[^\n]*::on_request\(const %s& (?:.|\n)*?\n\}' % arg, s, re.M).group(0)


def fn(f, name, new):
    return f, old(f, name), new.strip('\n')


def sub(f, name, *pairs):
    t = o = old(f, name)
    gap = r'[ \t]*(?://[^\n]*)?\n(?:\s*(?://[^\n]*)?\n)*\s*'
    for a, b in pairs:
        if a not in t:
            m = re.search(gap.join(re.escape(x.strip()) for x in a.split('\n') if x.strip()), t)
            assert m, (name, a)
            a, b = m.group(0), b.strip()
        t = t.replace(a, b)
    return f, o, t


def ok(name, props, *edits):
    EDITS.append((name, 'ok', props, list(edits)))


# ------------------------------------------------------------ client channel
ok('rf-cc-helpers', CLIENT,
   (CC + '.h', '    void check_pending_requests();', '''    bool is_answer(const MbapMessage& message) const;
    void transmit(const PendingRequest& request);
    void arm_timer();
    void on_timeout(TransactionIdentifier transaction_id);
    static Expected<ser4cpp::rseq_t> connection_failure(const std::string& message);
    void check_pending_requests();'''),
   fn(CC + '.cpp', 'ClientChannelTcp::on_mbap_message', '''
bool ClientChannelTcp::is_answer(const MbapMessage& message) const
{
    const auto& current = *m_current_request;
    return message.unit_id == current.unit_id && message.transaction_id == current.transaction_id;
}

Expected<ser4cpp::rseq_t> ClientChannelTcp::connection_failure(const std::string& message)
{
    return Expected<ser4cpp::rseq_t>::from_exception(ConnectionException{message});
}

void ClientChannelTcp::on_mbap_message(const MbapMessage& message)
{
    if(m_is_shutdown) return;

    if(!m_current_request)
    {
        m_logger->warn("Received message while not waiting for any response. Ignoring it.");
        return;
    }

    if(!is_answer(message))
    {
        m_logger->warn("Received unexpected response. UnitId: {}, TransactionId: {}.",
                       message.unit_id, message.transaction_id);
        return;
    }

    m_logger->info("Received response for pending request. UnitId: {}, TransactionId: {}.",
                   message.unit_id, message.transaction_id);
    m_current_timer.cancel();
    const auto finished = std::move(m_current_request);
    const Expected<ser4cpp::rseq_t> response{message.data};
    finished->response_handler(response);
    check_pending_requests();
}'''),
   fn(CC + '.cpp', 'ClientChannelTcp::check_pending_requests', '''
void ClientChannelTcp::transmit(const PendingRequest& request)
{
    ser4cpp::StaticBuffer<260> buffer;
    auto view = buffer.as_wseq();
    const auto frame = MbapMessage::build_message(request.unit_id, request.transaction_id, *request.request, view);

    m_tcp_connection->set_listener(std::dynamic_pointer_cast<ClientChannelTcp>(shared_from_this()));
    m_tcp_connection->send(frame);
}

void ClientChannelTcp::arm_timer()
{
    auto self = std::dynamic_pointer_cast<ClientChannelTcp>(shared_from_this());
    auto transaction_id = m_current_request->transaction_id;
    m_current_timer = m_executor->start(m_current_request->timeout, [self, transaction_id]() {
        self->on_timeout(transaction_id);
    });
}

void ClientChannelTcp::on_timeout(TransactionIdentifier transaction_id)
{
    if(m_is_shutdown || !m_current_request) return;
    if(m_current_request->transaction_id != transaction_id) return;

    m_logger->warn("Timeout reached.");
    m_current_request->response_handler(Expected<ser4cpp::rseq_t>::from_exception(TimeoutException{}));
    cancel_current_request();
}

void ClientChannelTcp::check_pending_requests()
{
    if(m_is_shutdown || m_current_request || m_pending_requests.empty()) return;

    m_current_request = std::move(m_pending_requests.front());
    m_pending_requests.pop_front();

    m_logger->info("Sending request. UnitId: {}", m_current_request->unit_id);

    transmit(*m_current_request);
    arm_timer();
}'''),
   fn(CC + '.cpp', 'ClientChannelTcp::cancel_all_pending_requests', '''
void ClientChannelTcp::cancel_all_pending_requests(const std::string& message)
{
    while(!m_pending_requests.empty())
    {
        auto request = std::move(m_pending_requests.front());
        m_pending_requests.pop_front();
        request->response_handler(connection_failure(message));
    }
}'''))
ok('rf-cc-swap', CLIENT,
   fn(CC + '.cpp', 'ClientChannelTcp::cancel_all_pending_requests', '''
void ClientChannelTcp::cancel_all_pending_requests(const std::string& message)
{
    decltype(m_pending_requests) requests;
    std::swap(requests, m_pending_requests);
    const auto failure = Expected<ser4cpp::rseq_t>::from_exception(ConnectionException{message});
    std::for_each(requests.cbegin(), requests.cend(), [&failure](const std::unique_ptr<PendingRequest>& req) {
        req->response_handler(failure);
    });
}'''),
   fn(CC + '.cpp', 'ClientChannelTcp::on_error', '''
void ClientChannelTcp::on_error(const std::string& message)
{
    if(m_is_shutdown)
    {
        return;
    }

    m_logger->error("Error from TCP connection, cancelling all pending requests.");

    cancel_all_pending_requests(message);
    m_parser.reset();

    if(!m_current_request)
    {
        return;
    }

    auto failure = Expected<ser4cpp::rseq_t>::from_exception(ConnectionException{message});
    m_current_request->response_handler(failure);
    cancel_current_request();
}'''),
   fn(CC + '.cpp', 'ClientChannelTcp::cancel_current_request', '''
void ClientChannelTcp::cancel_current_request()
{
    if(!m_current_request) return;

    m_current_timer.cancel();
    m_current_request = nullptr;
    check_pending_requests();
}'''),
   fn(CC + '.cpp', 'ClientChannelTcp::send_request', '''
void ClientChannelTcp::send_request(const UnitIdentifier& unit_identifier,
                                    const IMessage& request,
                                    const duration_t& timeout,
                                    ResponseHandler<ser4cpp::rseq_t> response_handler)
{
    if(m_is_shutdown) return;

    auto self = std::dynamic_pointer_cast<ClientChannelTcp>(shared_from_this());
    if(!request.is_valid())
    {
        m_executor->post([self, handler = std::move(response_handler)]() {
            MalformedModbusRequestException error{"Modbus request is not valid."};
            handler(Expected<ser4cpp::rseq_t>::from_exception(error));
        });
        return;
    }

    std::shared_ptr<const IMessage> copy = request.clone();
    m_executor->post([self, unit_identifier, copy, timeout, handler = std::move(response_handler)]() {
        if(self->m_is_shutdown) return;
        const auto id = self->m_next_transaction_id++;
        self->m_pending_requests.emplace_back(new PendingRequest{unit_identifier, id, *copy, timeout, handler});
        self->check_pending_requests();
    });
}'''),
   fn(CC + '.cpp', 'ClientChannelTcp::shutdown', '''
void ClientChannelTcp::shutdown()
{
    auto self = std::dynamic_pointer_cast<ClientChannelTcp>(shared_from_this());
    m_executor->post([self] {
        self->m_logger->info("Shutting down.");

        std::vector<std::shared_ptr<IClientSession>> sessions;
        {
            std::unique_lock<std::mutex> lock{self->m_sessions_mutex};
            self->m_is_shutdown = true;
            sessions = std::move(self->m_sessions);
            self->m_sessions.clear();
        }

        self->m_current_timer.cancel();
        self->m_current_request = nullptr;
        while(!self->m_pending_requests.empty()) self->m_pending_requests.pop_back();

        std::for_each(sessions.begin(), sessions.end(), [](const std::shared_ptr<IClientSession>& session) { session->shutdown(); });
        self->m_tcp_connection->shutdown();
    });
}'''),
   fn(CC + '.cpp', 'ClientChannelTcp::create_session', '''
std::shared_ptr<IClientSession> ClientChannelTcp::create_session(const UnitIdentifier& unit_identifier,
                                                                 const duration_t& default_timeout)
{
    std::unique_lock<std::mutex> guard{m_sessions_mutex};
    if(m_is_shutdown) return nullptr;

    auto channel = std::dynamic_pointer_cast<IClientChannelImpl>(shared_from_this());
    auto session = std::make_shared<ClientSessionImpl>(m_executor, m_logger->clone("session"), channel, unit_identifier, default_timeout);
    m_sessions.emplace_back(session);
    return session;
}'''))
ok('rf-cc-containers', CLIENT,
   (CC + '.h', '#include <deque>', '#include <list>\n#include <algorithm>'),
   (CC + '.h', 'std::deque<std::unique_ptr<PendingRequest>> m_pending_requests;', 'std::list<std::shared_ptr<PendingRequest>> m_pending_requests;'),
   (CC + '.h', 'std::unique_ptr<PendingRequest> m_current_request;', 'std::shared_ptr<PendingRequest> m_current_request;'),
   sub(CC + '.cpp', 'ClientChannelTcp::send_request', ('std::make_unique<PendingRequest>', 'std::make_shared<PendingRequest>'), ('push_back(std::move(pending_request))', 'push_back(pending_request)')),
   sub(CC + '.cpp', 'ClientChannelTcp::shutdown', ('m_current_request.reset(nullptr)', 'm_current_request.reset()')),
   sub(CC + '.cpp', 'ClientChannelTcp::on_mbap_message', ('m_current_request.reset(nullptr)', 'm_current_request.reset()')),
   sub(CC + '.cpp', 'ClientChannelTcp::cancel_current_request', ('m_current_request.reset(nullptr)', 'm_current_request.reset()')),
   sub(CC + '.cpp', 'ClientChannelTcp::check_pending_requests', ('std::move(m_pending_requests.front())', 'm_pending_requests.front()'), ('const auto transaction_id = m_current_request->transaction_id;', 'std::weak_ptr<PendingRequest> timed{m_current_request};'), ('m_current_request && m_current_request->transaction_id == transaction_id', 'm_current_request && timed.lock() == m_current_request')))
ok('rf-cc-state', CLIENT,
   (CC + '.h', '    std::mutex m_sessions_mutex;', '    bool m_is_waiting{false};\n    std::mutex m_sessions_mutex;'),
   sub(CC + '.cpp', 'ClientChannelTcp::check_pending_requests', ('!m_current_request && !m_pending_requests.empty()', '!m_is_waiting && m_pending_requests.size() > 0'), ('        m_pending_requests.pop_front();', '        m_pending_requests.pop_front();\n        m_is_waiting = true;')),
   sub(CC + '.cpp', 'ClientChannelTcp::cancel_current_request', ('if(m_current_request)', 'if(m_is_waiting)'), ('m_current_request.reset(nullptr);', 'm_current_request.reset(nullptr);\n        m_is_waiting = false;')),
   sub(CC + '.cpp', 'ClientChannelTcp::shutdown', ('m_current_request.reset(nullptr);', 'm_current_request.reset(nullptr);\n        m_is_waiting = false;')),
   fn(CC + '.cpp', 'ClientChannelTcp::on_mbap_message', '''
void ClientChannelTcp::on_mbap_message(const MbapMessage& message)
{
    if(m_is_shutdown) return;

    if(m_is_waiting && message.transaction_id == m_current_request->transaction_id && message.unit_id == m_current_request->unit_id)
    {
        m_logger->info("Received response for pending request. UnitId: {}, TransactionId: {}.",
                       message.unit_id, message.transaction_id);
        m_current_request->response_handler(Expected<ser4cpp::rseq_t>{message.data});
        cancel_current_request();
    }
    else
    {
        m_logger->warn("Ignoring message. UnitId: {}, TransactionId: {}.", message.unit_id, message.transaction_id);
    }
}'''))

# ------------------------------------------------------------ client connection
ok('rf-ct-helpers', CONN,
   (CT + '.h', '    void disconnect();', '''    bool is_stale(unsigned int connection_id) const;
    void fail(const char* what, const std::string& message);
    void connect();
    std::shared_ptr<AsioClientTcpConnection> self();
    template<typename F> void with_listener(F&& f);
    void disconnect();'''),
   fn(CT + '.cpp', 'AsioClientTcpConnection::send', '''
std::shared_ptr<AsioClientTcpConnection> AsioClientTcpConnection::self()
{
    return std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this());
}

bool AsioClientTcpConnection::is_stale(unsigned int connection_id) const
{
    return m_is_shutdown || connection_id != m_connection_id;
}

void AsioClientTcpConnection::fail(const char* what, const std::string& message)
{
    m_logger->error("{}: {}", what, message);
    disconnect();
    send_error(message);
}

template<typename F>
void AsioClientTcpConnection::with_listener(F&& f)
{
    if(auto listener = m_connection_listener.lock())
    {
        f(*listener);
    }
}

void AsioClientTcpConnection::connect()
{
    m_logger->info("Establishing connection to {}:{}", m_ip_endpoint.get_hostname(), m_ip_endpoint.get_port());

    asio::error_code ec{};
    const std::string adapter = m_adapter.empty() ? std::string{"0.0.0.0"} : m_adapter;
    const auto address = asio::ip::address::from_string(adapter, ec);
    if(!ec)
    {
        m_tcp_socket.open(asio::ip::tcp::v4(), ec);
    }
    if(!ec)
    {
        m_tcp_socket.bind(asio::ip::tcp::endpoint{address, 0}, ec);
    }
    if(ec)
    {
        m_logger->error("socket set-up error: {}", ec.message());
        fail_connection(ec.message());
        return;
    }

    m_current_connection_status = ConnectionStatus::Connecting;
    asio::ip::tcp::resolver::query query{m_ip_endpoint.get_hostname(), std::to_string(m_ip_endpoint.get_port())};
    const auto id = m_connection_id;
    m_resolver.async_resolve(query, m_executor->wrap([me = self(), id](const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints) {
        me->resolve_handler(id, ec, endpoints);
    }));
}

void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
{
    if(m_is_shutdown) return;

    m_write_buffer = std::make_unique<ser4cpp::Buffer>(data);

    switch(m_current_connection_status)
    {
    case ConnectionStatus::NotConnected:
        connect();
        break;
    case ConnectionStatus::Connected:
        send_buffer();
        break;
    default:
        break;
    }
}'''),
   fn(CT + '.cpp', 'AsioClientTcpConnection::resolve_handler', '''
void AsioClientTcpConnection::resolve_handler(unsigned int connection_id, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints)
{
    if(is_stale(connection_id)) return;
    if(ec) return fail("IP resolver error", ec.message());

    asio::async_connect(m_tcp_socket, endpoints, m_executor->wrap([me = self(), connection_id](const asio::error_code& ec, asio::ip::tcp::resolver::iterator) {
        me->connect_handler(connection_id, ec);
    }));
}'''),
   fn(CT + '.cpp', 'AsioClientTcpConnection::connect_handler', '''
void AsioClientTcpConnection::connect_handler(unsigned int connection_id, const asio::error_code& ec)
{
    if(is_stale(connection_id)) return;
    if(ec) return fail("Connection error", ec.message());

    m_logger->info("Connection established");
    m_current_connection_status = ConnectionStatus::Connected;

    begin_read();
    send_buffer();
}'''),
   fn(CT + '.cpp', 'AsioClientTcpConnection::read_handler', '''
void AsioClientTcpConnection::read_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred)
{
    if(is_stale(connection_id)) return;
    if(ec) return fail("Read error", ec.message());

    m_logger->debug("Received {} bytes", bytes_transferred);
    const ser4cpp::rseq_t received{m_read_buffer.data(), static_cast<unsigned int>(bytes_transferred)};
    with_listener([&](IConnectionListener& listener) { listener.on_receive(received); });

    begin_read();
}'''),
   fn(CT + '.cpp', 'AsioClientTcpConnection::write_handler', '''
void AsioClientTcpConnection::write_handler(unsigned int connection_id, const std::shared_ptr<ser4cpp::Buffer>& buffer, const std::error_code& ec, std::size_t bytes_transferred)
{
    if(is_stale(connection_id)) return;

    if(ec)
    {
        fail("Write error", ec.message());
        return;
    }

    m_is_writing = false;
    m_logger->debug("Sent {} of {} bytes", bytes_transferred, buffer->length());
    with_listener([](IConnectionListener& listener) { listener.on_write_done(); });
    send_buffer();
}'''),
   fn(CT + '.cpp', 'AsioClientTcpConnection::send_error', '''
void AsioClientTcpConnection::send_error(const std::string& message)
{
    if(!m_is_shutdown)
    {
        with_listener([&message](IConnectionListener& listener) { listener.on_error(message); });
    }
}'''))
ok('rf-ct-lambdas', CONN,
   fn(CT + '.cpp', 'AsioClientTcpConnection::begin_read', '''
void AsioClientTcpConnection::begin_read()
{
    if(m_is_shutdown) return;

    auto self = std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this());
    auto id = m_connection_id;
    auto handler = [self, id](const asio::error_code& ec, std::size_t bytes_transferred) {
        self->read_handler(id, ec, bytes_transferred);
    };
    m_tcp_socket.async_read_some(asio::buffer(m_read_buffer), m_executor->wrap(handler));
}'''),
   fn(CT + '.cpp', 'AsioClientTcpConnection::send_buffer', '''
void AsioClientTcpConnection::send_buffer()
{
    if(m_is_shutdown || m_is_writing || !m_write_buffer) return;

    m_is_writing = true;
    auto buffer = std::shared_ptr<ser4cpp::Buffer>{m_write_buffer.release()};
    auto self = std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this());
    const auto id = m_connection_id;
    const auto bytes = asio::buffer(buffer->as_rslice(), buffer->length());
    asio::async_write(m_tcp_socket, bytes, m_executor->wrap([self, id, buffer](const asio::error_code& ec, std::size_t bytes_transferred) {
        self->write_handler(id, buffer, ec, bytes_transferred);
    }));
}'''),
   fn(CT + '.cpp', 'AsioClientTcpConnection::disconnect', '''
void AsioClientTcpConnection::disconnect()
{
    m_current_connection_status = ConnectionStatus::NotConnected;
    m_is_writing = false;
    m_connection_id += 1;

    if(!m_tcp_socket.is_open())
    {
        return;
    }

    m_logger->info("Closing connection");
    asio::error_code ignored;
    m_tcp_socket.shutdown(asio::socket_base::shutdown_both, ignored);
    m_tcp_socket.close(ignored);
}'''),
   fn(CT + '.cpp', 'AsioClientTcpConnection::close', '''
void AsioClientTcpConnection::close()
{
    if(m_is_shutdown) return;

    auto self = std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this());
    m_executor->post([self]() {
        if(!self->m_is_shutdown)
        {
            self->disconnect();
        }
    });
}'''),
   fn(CT + '.cpp', 'AsioClientTcpConnection::shutdown', '''
void AsioClientTcpConnection::shutdown()
{
    auto self = std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this());
    m_executor->post([self]() {
        self->m_is_shutdown = true;
        asio::error_code ec;
        self->m_tcp_socket.cancel(ec);
    });
}'''),
   sub(CT + '.cpp', 'AsioClientTcpConnection::send', ('''    if(m_current_connection_status == ConnectionStatus::Connected)
    {
        send_buffer();
    }
''', '''    else if(m_current_connection_status == ConnectionStatus::Connected)
    {
        send_buffer();
    }
''')))

# ------------------------------------------------------------ server channel
ok('rf-sc-early', SERVER,
   fn(SC + '.cpp', 'ServerChannelTcp::on_mbap', '''
void ServerChannelTcp::on_mbap(const MbapMessage& message, ITcpConnection& connection)
{
    if(m_is_shutdown) return;

    const auto it = m_sessions.find(message.unit_id);
    if(it == m_sessions.cend())
    {
        m_logger->warn("Received message for unknown unit: {}", message.unit_id);
        return;
    }

    auto view = message.data;
    uint8_t function_code;
    if(!ser4cpp::UInt8::read_from(view, function_code))
    {
        m_logger->warn("Received invalid message.");
        return;
    }

    const auto session = it->second;
    if(function_code == 0x01)
        return process_message<ReadCoilsRequestImpl, ReadCoilsResponseImpl>(session, message, function_code, connection);
    if(function_code == 0x02)
        return process_message<ReadDiscreteInputsRequestImpl, ReadDiscreteInputsResponseImpl>(session, message, function_code, connection);
    if(function_code == 0x03)
        return process_message<ReadHoldingRegistersRequestImpl, ReadHoldingRegistersResponseImpl>(session, message, function_code, connection);
    if(function_code == 0x04)
        return process_message<ReadInputRegistersRequestImpl, ReadInputRegistersResponseImpl>(session, message, function_code, connection);
    if(function_code == 0x05)
        return process_message<WriteSingleCoilRequestImpl, WriteSingleCoilResponseImpl>(session, message, function_code, connection);
    if(function_code == 0x06)
        return process_message<WriteSingleRegisterRequestImpl, WriteSingleRegisterResponseImpl>(session, message, function_code, connection);
    if(function_code == 0x0F)
        return process_message<WriteMultipleCoilsRequestImpl, WriteMultipleCoilsResponseImpl>(session, message, function_code, connection);
    if(function_code == 0x10)
        return process_message<WriteMultipleRegistersRequestImpl, WriteMultipleRegistersResponseImpl>(session, message, function_code, connection);

    m_logger->warn("Received unsupported function code: {}", function_code);
    send_message(connection, message.unit_id, message.transaction_id, ExceptionResponse{function_code, ExceptionType::IllegalFunction});
}'''),
   (SC + '.h', '''    void send_message(ITcpConnection& connection,''', '''    template<typename T>
    void answer_failure(const Expected<T>& result,
                        const MbapMessage& message,
                        uint8_t function_code,
                        ITcpConnection& connection);
    void send_message(ITcpConnection& connection,'''),
   (SC + '.cpp', old(SC + '.cpp', 'ServerChannelTcp::process_message'), '''void ServerChannelTcp::process_message(std::shared_ptr<IServerSession> session,
                                       const MbapMessage& message,
                                       uint8_t function_code,
                                       ITcpConnection& connection)
{
    const auto request = TRequest::parse(message.data);
    if(!request.is_valid())
    {
        m_logger->warn("Received invalid message.");
        return answer_failure(request, message, function_code, connection);
    }

    const auto response = session->on_request(request.get());
    if(!response.is_valid())
    {
        return answer_failure(response, message, function_code, connection);
    }

    send_message(connection, message.unit_id, message.transaction_id, TResponse{response.get()});
}

template<typename T>
void ServerChannelTcp::answer_failure(const Expected<T>& result,
                                      const MbapMessage& message,
                                      uint8_t function_code,
                                      ITcpConnection& connection)
{
    if(!result.template has_exception<ModbusException>()) return;
    const auto type = result.template get_exception<ModbusException>().get_exception_type();
    send_message(connection, message.unit_id, message.transaction_id, ExceptionResponse{function_code, type});
}'''),
   fn(SC + '.cpp', 'ServerChannelTcp::send_message', '''
void ServerChannelTcp::send_message(ITcpConnection& connection,
                                    const UnitIdentifier& unit_id,
                                    const TransactionIdentifier& transaction_id,
                                    const IMessage& message)
{
    ser4cpp::StaticBuffer<260> buffer{};
    ser4cpp::wseq_t view{buffer.as_wseq()};
    connection.send(MbapMessage::build_message(unit_id, transaction_id, message, view));
}'''))
ok('rf-sc-map', SERVER,
   (SC + '.h', '#include <unordered_map>', '#include <map>'),
   (SC + '.h', 'std::unordered_map<UnitIdentifier, std::shared_ptr<IServerSession>> m_sessions;', 'std::map<uint8_t, std::shared_ptr<IServerSession>> m_sessions;'),
   sub(SC + '.cpp', 'ServerChannelTcp::on_mbap', ('m_sessions.find(message.unit_id)', 'm_sessions.find(message.unit_id.get_value())')),
   fn(SC + '.cpp', 'ServerChannelTcp::add_session', '''
void ServerChannelTcp::add_session(const UnitIdentifier& unit_identifier, std::shared_ptr<IServerSession> session)
{
    if(m_is_shutdown) return;

    auto self = std::dynamic_pointer_cast<ServerChannelTcp>(shared_from_this());
    m_executor->post([self, unit = unit_identifier.get_value(), session = std::move(session)]() {
        if(self->m_is_shutdown) return;
        auto result = self->m_sessions.emplace(unit, session);
        if(!result.second)
        {
            result.first->second = session;
        }
    });
}'''),
   fn(SC + '.cpp', 'ServerChannelTcp::shutdown', '''
void ServerChannelTcp::shutdown()
{
    auto self = std::dynamic_pointer_cast<ServerChannelTcp>(shared_from_this());
    m_executor->post([self] {
        self->m_logger->info("Shutting down.");
        self->m_is_shutdown = true;

        decltype(self->m_sessions) sessions;
        sessions.swap(self->m_sessions);
        for(const auto& entry : sessions)
        {
            entry.second->shutdown();
        }

        if(self->m_is_started)
        {
            self->m_is_started = false;
            self->m_server->shutdown();
        }
    });
}'''),
   fn(SC + '.cpp', 'ServerChannelTcp::start', '''
void ServerChannelTcp::start()
{
    if(m_is_shutdown) return;

    auto self = std::dynamic_pointer_cast<ServerChannelTcp>(shared_from_this());
    m_executor->post([self] {
        if(self->m_is_shutdown) return;
        auto builder = std::make_shared<ServerConnectionListenerBuilder>(self);
        self->m_is_started = true;
        self->m_server->start(builder);
    });
}'''))

# ------------------------------------------------------------ server
ok('rf-as', ASRV,
   (AS + '.h', '    void start_accept();', '    void start_accept();\n    void enforce_limit();\n    void serve(const std::shared_ptr<AsioServerTcpConnection>& connection);'),
   fn(AS + '.cpp', 'AsioServer::handle_accept', '''
void AsioServer::enforce_limit()
{
    if(m_num_connections <= m_max_connections) return;
    auto oldest = m_connections.front();
    remove_connection(oldest);
}

void AsioServer::serve(const std::shared_ptr<AsioServerTcpConnection>& connection)
{
    std::shared_ptr<IConnectionListener> listener = m_connection_listener_builder->build(connection);
    connection->set_listener(listener);
    connection->start();
}

void AsioServer::handle_accept(std::shared_ptr<AsioServerTcpConnection> connection, const asio::error_code& ec)
{
    if(m_is_shutdown) return;

    if(!ec)
    {
        m_num_connections++;
        enforce_limit();
        serve(connection);
    }
    else
    {
        m_connections.remove(connection);
    }

    start_accept();
}'''),
   fn(AS + '.cpp', 'AsioServer::shutdown', '''
void AsioServer::shutdown()
{
    auto self = std::dynamic_pointer_cast<AsioServer>(shared_from_this());
    m_executor->post([self] {
        self->m_is_shutdown = true;
        self->m_tcp_acceptor.close();
        for(const auto& connection : self->m_connections)
        {
            connection->close();
        }
        self->m_connections.clear();
    });
}'''),
   fn(AS + '.cpp', 'AsioServer::remove_connection', '''
void AsioServer::remove_connection(std::shared_ptr<AsioServerTcpConnection> connection)
{
    for(auto it = m_connections.begin(); it != m_connections.end(); ++it)
    {
        if(*it == connection)
        {
            connection->close();
            m_connections.erase(it);
            m_num_connections -= 1;
            return;
        }
    }
}'''),
   fn(AS + '.cpp', 'AsioServer::start_accept', '''
void AsioServer::start_accept()
{
    if(m_is_shutdown) return;

    auto self = std::dynamic_pointer_cast<AsioServer>(shared_from_this());
    m_executor->post([self] {
        if(self->m_is_shutdown) return;

        auto connection = std::make_shared<AsioServerTcpConnection>(self->m_logger, self->m_executor, self);
        self->m_connections.emplace_back(connection);
        self->m_tcp_acceptor.async_accept(connection->get_socket(), self->m_executor->wrap([self, connection](const asio::error_code& ec) {
            self->handle_accept(connection, ec);
        }));
    });
}'''))
ok('rf-as-vector', ASRV,
   (AS + '.h', '#include <list>', '#include <vector>\n#include <algorithm>'),
   (AS + '.h', 'std::list<std::shared_ptr<AsioServerTcpConnection>> m_connections;', 'std::vector<std::shared_ptr<AsioServerTcpConnection>> m_connections;'),
   sub(AS + '.cpp', 'AsioServer::handle_accept', ('m_connections.remove(connection);', 'm_connections.erase(std::remove(m_connections.begin(), m_connections.end(), connection), m_connections.end());')))
ok('rf-st', ASRV,
   (ST + '.h', '    void begin_read();', '    void fail(const char* what, const std::string& message);\n    void write_front();\n    void begin_read();'),
   fn(ST + '.cpp', 'AsioServerTcpConnection::read_handler', '''
void AsioServerTcpConnection::fail(const char* what, const std::string& message)
{
    m_logger->error("{} error: {}", what, message);
    close();
    send_error(message);
}

void AsioServerTcpConnection::read_handler(const asio::error_code& ec, std::size_t bytes_transferred)
{
    if(m_is_shutdown) return;
    if(ec) return fail("Read", ec.message());

    m_logger->debug("Received {} bytes", bytes_transferred);
    if(const auto listener = m_connection_listener)
    {
        const ser4cpp::rseq_t data{&m_read_buffer[0], static_cast<uint32_t>(bytes_transferred)};
        listener->on_receive(data);
    }

    begin_read();
}'''),
   fn(ST + '.cpp', 'AsioServerTcpConnection::write_handler', '''
void AsioServerTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred)
{
    if(m_is_shutdown) return;
    if(ec) return fail("Write", ec.message());

    m_logger->debug("Sent {} bytes", bytes_transferred);
    m_write_buffers.erase(m_write_buffers.begin());
    if(m_connection_listener)
    {
        m_connection_listener->on_write_done();
    }
    send_buffer();
}'''),
   fn(ST + '.cpp', 'AsioServerTcpConnection::send_buffer', '''
void AsioServerTcpConnection::send_buffer()
{
    if(m_is_shutdown || !m_is_connected || m_write_buffers.empty()) return;
    write_front();
}

void AsioServerTcpConnection::write_front()
{
    auto self = std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this());
    const auto& front = m_write_buffers.front();
    asio::async_write(m_tcp_socket, asio::buffer(front.as_rslice(), front.length()),
                      m_executor->wrap([self](const asio::error_code& ec, std::size_t bytes_transferred) {
                          self->write_handler(ec, bytes_transferred);
                      }));
}'''),
   fn(ST + '.cpp', 'AsioServerTcpConnection::send', '''
void AsioServerTcpConnection::send(const ser4cpp::rseq_t& data)
{
    if(m_is_shutdown) return;

    const bool idle = m_write_buffers.empty();
    m_write_buffers.push_back(ser4cpp::Buffer{data});
    if(idle)
    {
        send_buffer();
    }
}'''),
   fn(ST + '.cpp', 'AsioServerTcpConnection::close', '''
void AsioServerTcpConnection::close()
{
    if(m_is_shutdown) return;

    auto self = std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this());
    m_executor->post([self]() {
        if(self->m_is_shutdown) return;

        self->m_is_connected = false;
        if(!self->m_tcp_socket.is_open()) return;

        self->m_logger->info("Closing connection");
        asio::error_code ec;
        self->m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
        self->m_tcp_socket.close(ec);
        self->notify_close();
    });
}'''),
   fn(ST + '.cpp', 'AsioServerTcpConnection::notify_close', '''
void AsioServerTcpConnection::notify_close()
{
    if(const auto server = m_server.lock())
    {
        auto self = std::static_pointer_cast<AsioServerTcpConnection>(shared_from_this());
        server->remove_connection(std::move(self));
    }
}'''))
ok('rf-st-shared', ASRV,
   (ST + '.h', '#include <list>', '#include <deque>\n#include <list>'),
   (ST + '.h', 'std::list<ser4cpp::Buffer> m_write_buffers;', 'std::deque<std::shared_ptr<ser4cpp::Buffer>> m_write_buffers;'),
   sub(ST + '.cpp', 'AsioServerTcpConnection::send', ('m_write_buffers.emplace_back(data);', 'm_write_buffers.push_back(std::make_shared<ser4cpp::Buffer>(data));')),
   fn(ST + '.cpp', 'AsioServerTcpConnection::send_buffer', '''
void AsioServerTcpConnection::send_buffer()
{
    if(m_is_shutdown) return;

    if(!m_write_buffers.empty() && m_is_connected)
    {
        auto buffer = m_write_buffers.front();
        auto self = std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this());
        asio::async_write(m_tcp_socket,
                          asio::buffer(buffer->as_rslice(), buffer->length()),
                          m_executor->wrap([self, buffer](const asio::error_code& ec, std::size_t bytes_transferred) {
                              self->write_handler(ec, bytes_transferred);
                          }));
    }
}'''))
ok('rf-sl', ASRV,
   fn(SL + '.cpp', 'ServerConnectionListener::on_mbap_message', '''
void ServerConnectionListener::on_mbap_message(const MbapMessage& message)
{
    const auto connection = m_connection.lock();
    if(!connection) return;

    if(const auto channel = m_channel.lock())
    {
        channel->on_mbap(message, *connection);
    }
}'''))
# ------------------------------------------------------------ sessions
ok('rf-sr', 'C16 C17 C25 C26',
   (SR + '.h', '    void execute();', '    void execute();\n    void on_response(unsigned int generation, const Expected<TResponse>& response);\n    bool is_current(unsigned int generation) const;\n    void schedule_next(unsigned int generation);'),
   (SR + '.hpp', 'template<typename TRequest, typename TResponse>\nvoid ScheduledRequest<TRequest, TResponse>::execute()' + old(SR + '.hpp', 'ScheduledRequest<TRequest, TResponse>::execute').split('::execute()', 1)[1], '''template<typename TRequest, typename TResponse>
bool ScheduledRequest<TRequest, TResponse>::is_current(unsigned int generation) const
{
    return m_running && m_generation == generation;
}

template<typename TRequest, typename TResponse>
void ScheduledRequest<TRequest, TResponse>::schedule_next(unsigned int generation)
{
    auto self = std::static_pointer_cast<ScheduledRequest<TRequest, TResponse>>(shared_from_this());
    m_timer = m_executor->start(m_frequency, [self, generation]() {
        if(!self->is_current(generation)) return;
        self->execute();
    });
}

template<typename TRequest, typename TResponse>
void ScheduledRequest<TRequest, TResponse>::on_response(unsigned int generation, const Expected<TResponse>& response)
{
    m_handler(response);
    if(!is_current(generation)) return;
    schedule_next(generation);
}

template<typename TRequest, typename TResponse>
void ScheduledRequest<TRequest, TResponse>::execute()
{
    auto self = std::static_pointer_cast<ScheduledRequest<TRequest, TResponse>>(shared_from_this());
    auto generation = m_generation;
    m_session->send_request(m_request, m_timeout, [self, generation](const Expected<TResponse>& response) {
        self->on_response(generation, response);
    });
}'''),
   sub(SR + '.hpp', 'ScheduledRequest<TRequest, TResponse>::stop', ('''        if(m_running)
        {
            m_running = false;
            m_timer.cancel();
        }''', '''        if(!m_running) return;
        m_timer.cancel();
        m_running = false;''')),
   sub(SR + '.hpp', 'ScheduledRequest<TRequest, TResponse>::start', ('''        if(!m_running)
        {
            m_running = true;
            ++m_generation;
            execute();
        }''', '''        if(m_running) return;
        m_generation++;
        m_running = true;
        execute();''')))
# ------------------------------------------------------------ parser
ok('rf-mp', 'C06 C09 C18 C23 C12',
   (MP + '.h', '    void reset();', '    void reset();\n\nprivate:\n    void await(std::size_t count, bool body);\n\npublic:'),
   fn(MP + '.cpp', 'MbapParser::parse', '''
void MbapParser::await(std::size_t count, bool body)
{
    m_num_bytes_to_read = count;
    m_reading_body = body;
}

void MbapParser::parse(ser4cpp::rseq_t data)
{
    for(; data.is_not_empty();)
    {
        const auto chunk = data.take(m_num_bytes_to_read);
        m_buffer_view.copy_from(chunk);
        m_num_bytes_to_read -= chunk.length();
        data.advance(chunk.length());

        if(m_num_bytes_to_read != 0) continue;

        if(m_reading_body)
        {
            send_data();
        }
        else
        {
            find_body_size();
        }
    }
}'''),
   fn(MP + '.cpp', 'MbapParser::reset', '''
void MbapParser::reset()
{
    m_buffer_view = m_buffer.as_wseq();
    await(MaxMbapHeaderSize, false);
}'''),
   fn(MP + '.cpp', 'MbapParser::find_body_size', '''
void MbapParser::find_body_size()
{
    auto view = m_buffer.as_seq();
    view.advance(4);

    uint16_t length{0};
    ser4cpp::UInt16::read_from(view, length);

    if(length != 0)
    {
        await(length - 1, true);
    }
    else
    {
        reset();
    }
}'''),
   fn(MP + '.cpp', 'MbapParser::send_data', '''
void MbapParser::send_data()
{
    auto view = m_buffer.as_seq();

    uint16_t transaction_id, protocol_id, length;
    uint8_t unit_id;
    ser4cpp::UInt16::read_from(view, transaction_id);
    ser4cpp::UInt16::read_from(view, protocol_id);
    ser4cpp::UInt16::read_from(view, length);
    ser4cpp::UInt8::read_from(view, unit_id);

    reset();

    if(protocol_id != ModbusProtocolId || length == 0)
    {
        return;
    }

    m_sink->on_mbap_message(MbapMessage{UnitIdentifier{unit_id}, TransactionIdentifier{transaction_id}, view.take(length - 1)});
}'''))
# ------------------------------------------------------------ manager
ok('rf-mm', 'C28 C26 C38',
   fn(MM + '.cpp', 'ModbusManagerImpl::shutdown', '''
void ModbusManagerImpl::shutdown()
{
    decltype(m_client_channels) clients;
    decltype(m_server_channels) servers;
    decltype(m_thread_pool) thread_pool;

    {
        std::unique_lock<std::mutex> lock{m_mutex};
        clients.swap(m_client_channels);
        servers.swap(m_server_channels);
        thread_pool.swap(m_thread_pool);
    }

    for(const auto& channel : servers) channel->shutdown();
    for(const auto& channel : clients) channel->shutdown();

    thread_pool = nullptr;
}'''),
   fn(MM + '.cpp', 'ModbusManagerImpl::create_client_tcp_channel', '''
std::shared_ptr<IClientChannel> ModbusManagerImpl::create_client_tcp_channel(const std::string& name,
                                                                             const Ipv4Endpoint& endpoint,
                                                                             const std::string& adapter,
                                                                             const LoggingLevel level)
{
    const auto executor = std::make_shared<exe4cpp::StrandExecutor>(m_io_service);
    const auto connection = std::make_shared<AsioClientTcpConnection>(m_logger->clone(name + " - Connection", level), executor, endpoint, adapter);
    const auto channel = std::make_shared<ClientChannelTcp>(executor, m_logger->clone(name, level), connection);

    const std::lock_guard<std::mutex> lock{m_mutex};
    m_client_channels.push_back(channel);
    return channel;
}'''))
# ------------------------------------------------------------ database
ok('rf-db', 'C29 C30 C31 C26',
   (DB, '#include "modbus/server/db/SingleTypeDatabase.h"', '#include "modbus/server/db/SingleTypeDatabase.h"\n#include <algorithm>\n#include <iterator>'),
   sub(DB, 'SingleTypeDatabase<T>::is_valid', ('''    auto it = m_values.find(address);
    if(it != m_values.end())
    {
        return true;
    }

    return false;''', '''    return m_values.count(address) > 0;''')),
   sub(DB, 'SingleTypeDatabase<T>::add_value', ('return m_values.insert({address, value}).second;', '''if(m_values.find(address) != m_values.end()) return false;
    m_values[address] = value;
    return true;''')),
   sub(DB, 'SingleTypeDatabase<T>::set_value', ('''    if(it != m_values.end())
    {
        it->second = value;
        return true;
    }

    return false;''', '''    const bool found = it != m_values.end();
    if(found) it->second = value;
    return found;''')),
   sub(DB, 'SingleTypeDatabase<T>::set_values', ('''    for(size_t i = 0; i < values.size(); ++i)
    {
        it->second = values[i];
        ++it;
    }''', '''    for(const auto value : values)
    {
        (it++)->second = value;
    }''')),
   sub(DB, 'SingleTypeDatabase<T>::get_values', ('''    for(size_t i = 0; i < output.size(); ++i)
    {
        output[i] = it->second;
        ++it;
    }''', '''    size_t i = 0;
    while(i < output.size())
    {
        output[i++] = it->second;
        std::advance(it, 1);
    }''')))
ok('rf-db2', 'C29 C30 C31',
   (DB, old(DB, 'SingleTypeDatabase<T>::is_valid_range'), '''bool SingleTypeDatabase<T>::is_valid_range(Address starting_address, size_t count) const
{
    if(count == 0) return false;

    const uint32_t end = static_cast<uint32_t>(starting_address) + static_cast<uint32_t>(count);
    if(count > 65536 || end > 65536) return false;

    for(uint32_t address = starting_address; address < end; ++address)
    {
        if(!is_valid(static_cast<Address>(address))) return false;
    }
    return true;
}'''))

# ------------------------------------------------------------ messages
M = L + 'messages/'
CODEC = 'C01 C02 C03 C04 C05 C06 C08 C32'
WC = M + 'WriteMultipleCoilsRequestImpl'
WR = M + 'WriteMultipleRegistersRequestImpl'
ok('rf-bits-rsp', CODEC,
   sub(M + 'ReadBitsResponseImpl.cpp', 'ReadBitsResponseImpl<function_code, request_t, response_t>::get_message_length',
       ('''    auto num_bytes = m_response.values.size() / 8;
    if(m_response.values.size() % 8 != 0)
    {
        ++num_bytes;
    }
    return 2 + num_bytes;''', '    return 2 + (m_response.values.size() + 7) / 8;')),
   sub(M + 'ReadBitsResponseImpl.cpp', 'ReadBitsResponseImpl<function_code, request_t, response_t>::build_message',
       ('''    uint8_t current_byte = 0x00;
    uint8_t current_offset = 0;
    for(auto& value : m_response.values)
    {
        if(value.value)
        {
            current_byte |= static_cast<uint8_t>(1) << current_offset;
        }

        ++current_offset;

        if(current_offset == 8)
        {
            ser4cpp::UInt8::write_to(buffer, current_byte);
            current_byte = 0x00;
            current_offset = 0;
        }
    }

    // Write final byte (if necessary)
    if(current_offset != 0)
    {
        ser4cpp::UInt8::write_to(buffer, current_byte);
    }''', '''    const auto count = m_response.values.size();
    for(size_t i = 0; i < count; i += 8)
    {
        uint8_t packed = 0;
        for(size_t j = 0; j < 8 && i + j < count; ++j)
        {
            const uint8_t bit = m_response.values[i + j].value ? 1 : 0;
            packed = static_cast<uint8_t>(packed | (bit << j));
        }
        ser4cpp::UInt8::write_to(buffer, packed);
    }''')),
   sub(M + 'ReadBitsResponseImpl.cpp', 'ReadBitsResponseImpl<function_code, request_t, response_t>::parse',
       ('''    auto current_address = req.get_request().starting_address;
    uint8_t current_value;
    while(ser4cpp::UInt8::read_from(view, current_value))
    {
        auto num_bits_to_extract = req.get_request().qty_of_bits - response.values.size();
        if(num_bits_to_extract > 8)
        {
            num_bits_to_extract = 8;
        }

        for(unsigned int i = 0; i < num_bits_to_extract; ++i)
        {
            auto bit_value = static_cast<bool>((current_value >> i) & 0x01);
            response.values.emplace_back(SingleBitValue{current_address, bit_value});
            ++current_address;
        }
    }''', '''    const auto count = req.get_request().qty_of_bits;
    const auto start = req.get_request().starting_address;
    for(uint16_t i = 0; i < count; ++i)
    {
        const bool value = (view[i / 8] & (1 << (i % 8))) != 0;
        response.values.push_back(SingleBitValue{static_cast<uint16_t>(start + i), value});
    }''')))
ok('rf-bits-idx', CODEC,
   sub(M + 'ReadBitsResponseImpl.cpp', 'ReadBitsResponseImpl<function_code, request_t, response_t>::build_message',
       ('''    uint8_t current_byte = 0x00;
    uint8_t current_offset = 0;
    for(auto& value : m_response.values)
    {
        if(value.value)
        {
            current_byte |= static_cast<uint8_t>(1) << current_offset;
        }

        ++current_offset;

        if(current_offset == 8)
        {
            ser4cpp::UInt8::write_to(buffer, current_byte);
            current_byte = 0x00;
            current_offset = 0;
        }
    }

    // Write final byte (if necessary)
    if(current_offset != 0)
    {
        ser4cpp::UInt8::write_to(buffer, current_byte);
    }''', '''    std::vector<uint8_t> bytes(get_message_length() - 2, 0x00);
    for(size_t i = 0; i < m_response.values.size(); ++i)
    {
        if(m_response.values[i].value)
        {
            bytes[i / 8] |= static_cast<uint8_t>(1u << (i % 8));
        }
    }
    for(const auto byte : bytes)
    {
        ser4cpp::UInt8::write_to(buffer, byte);
    }''')))
ok('rf-coils-req', CODEC,
   sub(WC + '.cpp', 'WriteMultipleCoilsRequestImpl::build_message',
       ('''    unsigned int current_bit = 0;
    for(unsigned int i = 0; i < num_bytes; ++i)
    {
        uint8_t value = 0x00;
        for(unsigned int j = 0; j < 8; ++j)
        {
            if(current_bit >= m_request.values.size())
            {
                break;
            }

            value |= static_cast<uint8_t>(m_request.values[current_bit]) << j;
            ++current_bit;
        }

        ser4cpp::UInt8::write_to(buffer, value);
    }''', '''    uint8_t current = 0;
    size_t position = 0;
    for(const bool coil : m_request.values)
    {
        if(coil) current |= static_cast<uint8_t>(1 << (position % 8));
        if(++position % 8 == 0)
        {
            ser4cpp::UInt8::write_to(buffer, current);
            current = 0;
        }
    }
    if(position % 8 != 0) ser4cpp::UInt8::write_to(buffer, current);''')),
   sub(WC + '.cpp', 'WriteMultipleCoilsRequestImpl::get_byte_count_from_qty_of_outputs',
       ('''    auto num_bytes = qty_of_outputs / 8;
    if (qty_of_outputs % 8 != 0)
    {
        ++num_bytes;
    }

    return num_bytes;''', '    return qty_of_outputs / 8 + (qty_of_outputs % 8 == 0 ? 0 : 1);')),
   sub(WC + '.cpp', 'WriteMultipleCoilsRequestImpl::parse',
       ('''    uint8_t current_value;
    while(ser4cpp::UInt8::read_from(view, current_value))
    {
        auto num_bits_to_extract = qty_of_outputs - request.values.size();
        if(num_bits_to_extract > 8)
        {
            num_bits_to_extract = 8;
        }

        for(unsigned int i = 0; i < num_bits_to_extract; ++i)
        {
            auto bit_value = static_cast<bool>((current_value >> i) & 0x01);
            request.values.emplace_back(bit_value);
        }
    }''', '''    unsigned int remaining = qty_of_outputs;
    while(remaining > 0)
    {
        uint8_t current_value = 0;
        ser4cpp::UInt8::read_from(view, current_value);
        const unsigned int bits = std::min(remaining, 8u);
        for(unsigned int i = 0; i < bits; ++i)
        {
            request.values.push_back((current_value & 1) == 1);
            current_value >>= 1;
        }
        remaining -= bits;
    }''')),
   (WC + '.cpp', '#include "messages/WriteMultipleCoilsRequestImpl.h"', '#include "messages/WriteMultipleCoilsRequestImpl.h"\n#include <algorithm>'))
ok('rf-regs', CODEC,
   sub(WR + '.cpp', 'WriteMultipleRegistersRequestImpl::build_message',
       ('''    for(auto value : m_request.values)
    {
        ser4cpp::UInt16::write_to(buffer, value);
    }''', '''    std::for_each(m_request.values.begin(), m_request.values.end(), [&buffer](uint16_t value) {
        ser4cpp::UInt16::write_to(buffer, value);
    });''')),
   sub(WR + '.cpp', 'WriteMultipleRegistersRequestImpl::parse',
       ('''    uint16_t current_value;
    while(ser4cpp::UInt16::read_from(view, current_value))
    {
        request.values.emplace_back(current_value);
    }''', '''    request.values.reserve(qty_of_registers);
    for(unsigned int i = 0; i < qty_of_registers; ++i)
    {
        uint16_t current_value;
        ser4cpp::UInt16::read_from(view, current_value);
        request.values.push_back(current_value);
    }'''),
       ('''    if(2 * qty_of_registers != byte_count)''', '''    const unsigned int expected_bytes = qty_of_registers * 2u;
    if(byte_count != expected_bytes)''')),
   sub(WR + '.cpp', 'WriteMultipleRegistersRequestImpl::is_valid', ('return ', 'return !m_request.values.empty() && ')),
   (WR + '.cpp', '#include "messages/WriteMultipleRegistersRequestImpl.h"', '#include "messages/WriteMultipleRegistersRequestImpl.h"\n#include <algorithm>'),
   sub(M + 'ReadRegistersResponseImpl.cpp', 'ReadRegistersResponseImpl<function_code, request_t, response_t>::parse',
       ('''    auto current_address = req.get_request().starting_address;
    uint16_t current_value;
    while(ser4cpp::UInt16::read_from(view, current_value))
    {
        response.values.emplace_back(RegisterValue{current_address, current_value});
        ++current_address;
    }''', '''    for(uint16_t i = 0; i < req.get_request().qty_of_registers; ++i)
    {
        RegisterValue value;
        value.address = static_cast<uint16_t>(req.get_request().starting_address + i);
        ser4cpp::UInt16::read_from(view, value.value);
        response.values.push_back(value);
    }''')),
   sub(M + 'ReadRegistersResponseImpl.cpp', 'ReadRegistersResponseImpl<function_code, request_t, response_t>::build_message',
       ('get_message_length() - 2', '2 * m_response.values.size()'),
       ('''    for(auto& value : m_response.values)
    {
        ser4cpp::UInt16::write_to(buffer, value.value);
    }''', '''    for(auto it = m_response.values.cbegin(); it != m_response.values.cend(); ++it)
    {
        ser4cpp::UInt8::write_to(buffer, static_cast<uint8_t>(it->value >> 8));
        ser4cpp::UInt8::write_to(buffer, static_cast<uint8_t>(it->value & 0xFF));
    }''')))
ok('rf-fc', 'C05 C06 C07 C21',
   fn(M + 'IMessage.cpp', 'IMessage::parse_function_code', '''
namespace
{

Expected<bool> malformed(const char* text)
{
    return Expected<bool>::from_exception(MalformedModbusResponseException{text});
}

}

Expected<bool> IMessage::parse_function_code(uint8_t function_code, ser4cpp::rseq_t& data)
{
    constexpr uint8_t error_flag = 0x80;

    uint8_t code;
    if(!ser4cpp::UInt8::read_from(data, code))
    {
        return malformed("Response is empty.");
    }

    if(code == function_code)
    {
        return Expected<bool>{true};
    }

    if(code != (function_code | error_flag))
    {
        return malformed("Wrong function code.");
    }

    if(data.length() != 1)
    {
        return malformed("Modbus exception should have a single byte of data.");
    }

    return Expected<bool>::from_exception(ModbusException{parse_exception_type(data[0])});
}'''))
ok('rf-exc-table', 'C05 C07 C34',
   fn(M + 'ExceptionType.cpp', 'parse_exception_type', '''
ExceptionType parse_exception_type(uint8_t data)
{
    static const ExceptionType known[] = {
        ExceptionType::IllegalFunction,
        ExceptionType::IllegalDataAddress,
        ExceptionType::IllegalDataValue,
        ExceptionType::ServerDeviceFailure,
        ExceptionType::Acknowledge,
        ExceptionType::ServerDeviceBusy,
        ExceptionType::MemoryParityError,
        ExceptionType::GatewayPathUnavailable,
        ExceptionType::GatewayTargetDeviceFailedToRespond
    };

    for(const auto type : known)
    {
        if(static_cast<uint8_t>(type) == data) return type;
    }
    return ExceptionType::Unknown;
}'''))
ok('rf-exc-if', 'C05 C07',
   fn(M + 'ExceptionType.cpp', 'parse_exception_type', '''
ExceptionType parse_exception_type(uint8_t data)
{
    if(data == 0 || data == 0x07 || data == 0x09 || data > 0x0B)
    {
        return ExceptionType::Unknown;
    }
    return static_cast<ExceptionType>(data);
}'''))
ok('rf-mbap', 'C03 C12 C20',
   fn(M + 'mbap/MbapMessage.cpp', 'MbapMessage::build_message', '''
ser4cpp::rseq_t MbapMessage::build_message(UnitIdentifier unit_id,
                                           TransactionIdentifier transaction_id,
                                           const IMessage& message,
                                           ser4cpp::wseq_t& buffer)
{
    const auto start = buffer.readonly();
    const auto length = std::min<size_t>(message.get_message_length(), 253);

    ser4cpp::UInt16::write_to(buffer, transaction_id.get_value());
    ser4cpp::UInt16::write_to(buffer, 0);
    ser4cpp::UInt16::write_to(buffer, static_cast<uint16_t>(1 + length));
    ser4cpp::UInt8::write_to(buffer, unit_id.get_value());
    message.build_message(buffer);

    return start.take(static_cast<uint32_t>(7 + length));
}'''),
   (M + 'mbap/MbapMessage.cpp', '#include "messages/mbap/MbapMessage.h"', '#include "messages/mbap/MbapMessage.h"\n#include <algorithm>'))
ok('rf-sc-coil', CODEC,
   sub(M + 'WriteSingleCoilRequestImpl.cpp', 'WriteSingleCoilRequestImpl::build_message',
       ('''    auto value = WriteSingleCoilRequestImpl::OFF;
    if(m_request.value.value == true)
    {
        value = WriteSingleCoilRequestImpl::ON;
    }
    ser4cpp::UInt16::write_to(buffer, value); // Value''', '''    const uint16_t value = m_request.value.value ? 0xFF00 : 0x0000;
    ser4cpp::UInt16::write_to(buffer, value);''')),
   sub(M + 'WriteSingleCoilRequestImpl.cpp', 'WriteSingleCoilRequestImpl::parse',
       ('''    bool bool_value;
    switch(value)
    {
        case WriteSingleCoilRequestImpl::ON:
            bool_value = true;
            break;
        case WriteSingleCoilRequestImpl::OFF:
            bool_value = false;
            break;
        default:
            return Expected<WriteSingleCoilRequest>::from_exception(ModbusException{ExceptionType::IllegalDataValue});
    }''', '''    const bool bool_value = value == WriteSingleCoilRequestImpl::ON;
    if(!bool_value && value != WriteSingleCoilRequestImpl::OFF)
    {
        return Expected<WriteSingleCoilRequest>::from_exception(ModbusException{ExceptionType::IllegalDataValue});
    }''')))
# ------------------------------------------------------------ sessions
ok('rf-cs', 'C16 C17 C13 C25 C26 C36',
   fn(CS + '.cpp', 'ClientSessionImpl::meta_send_request', '''void ClientSessionImpl::meta_send_request(const TRequest& request,
                                          const duration_t& timeout,
                                          ResponseHandler<TResponse> handler)
{
    auto self = std::static_pointer_cast<ClientSessionImpl>(shared_from_this());
    const TRequestImpl message{request};
    auto on_response = [self, message, handler](const Expected<ser4cpp::rseq_t>& response) {
        const auto result = response.is_valid() ? TResponseImpl::parse(message, response.get())
                                                : Expected<TResponse>::from_exception(response.get_exception());
        handler(result);
    };
    m_channel->send_request(m_unit_identifier, message, timeout, on_response);
}'''),
   fn(CS + '.cpp', 'ClientSessionImpl::meta_schedule_request', '''std::shared_ptr<IScheduledRequest> ClientSessionImpl::meta_schedule_request(const TRequest& request,
                                                                            const duration_t& timeout,
                                                                            const duration_t& frequency,
                                                                            ResponseHandler<TResponse> handler)
{
    using request_t = ScheduledRequest<TRequest, TResponse>;
    auto self = std::static_pointer_cast<ClientSessionImpl>(shared_from_this());
    std::shared_ptr<IScheduledRequest> polling = std::make_shared<request_t>(self, handler, m_executor, request, timeout, frequency);

    m_executor->post([self, polling]() {
        self->m_scheduled_requests.emplace_back(polling);
    });
    polling->start();

    return polling;
}'''),
   fn(CS + '.cpp', 'ClientSessionImpl::shutdown', '''
void ClientSessionImpl::shutdown()
{
    auto self = std::static_pointer_cast<ClientSessionImpl>(shared_from_this());
    m_executor->post([self] {
        std::vector<std::shared_ptr<IScheduledRequest>> requests;
        requests.swap(self->m_scheduled_requests);
        for(const auto& request : requests)
        {
            request->stop();
        }
    });
}'''),
   fn(CS + '.cpp', 'ClientSessionImpl::start', '''
std::unique_ptr<ITimer> ClientSessionImpl::start(const duration_t& duration, const action_t& action)
{
    auto timer = m_executor->start(duration, action);
    return std::unique_ptr<ITimer>{new TimerWrapper{timer}};
}'''))
# ------------------------------------------------------------ database requests
ok('rf-im', 'C29 C30 C31 C26',
   (IM + '.cpp', 'namespace modbus\n{\n', '''namespace modbus
{

namespace
{

template<typename TResponse, typename TValue, typename T, typename TDatabase>
Expected<TResponse> read_range(const TDatabase& db, uint16_t start, size_t count)
{
    std::vector<T> values(count);
    if(!db.get_values(start, values))
    {
        return Expected<TResponse>::from_exception(ModbusException{ExceptionType::IllegalDataAddress});
    }

    TResponse response{};
    uint16_t address = start;
    for(const auto value : values)
    {
        response.values.emplace_back(TValue{address++, value});
    }
    return Expected<TResponse>{response};
}

}
'''),
   *[(IM + '.cpp', o, o[:o.index('{')] + """{
    std::lock_guard<std::mutex> lock{m_mutex};
    return read_range<%s, %s, %s>(m_%s_db, request.starting_address, request.%s);
}""" % w) for o, w in [
       (old2(IM + '.cpp', 'ReadCoilsRequest'), ('ReadCoilsResponse', 'SingleBitValue', 'bool', 'coil', 'qty_of_bits')),
       (old2(IM + '.cpp', 'ReadDiscreteInputsRequest'), ('ReadDiscreteInputsResponse', 'SingleBitValue', 'bool', 'discrete_input', 'qty_of_bits')),
       (old2(IM + '.cpp', 'ReadHoldingRegistersRequest'), ('ReadHoldingRegistersResponse', 'RegisterValue', 'uint16_t', 'holding_register', 'qty_of_registers')),
       (old2(IM + '.cpp', 'ReadInputRegistersRequest'), ('ReadInputRegistersResponse', 'RegisterValue', 'uint16_t', 'input_register', 'qty_of_registers'))]])
