INP = ['inputs']
AI = 'abstract interpretation (transfer functions in linear normal form, inductive loop summaries)'
TRUST = 'Assumes the models of the standard library and of ser4cpp/exe4cpp/asio/spdlog in sa/lib.py and stubs/ (the real dependencies are not installed); the toolchain front end is trusted. '
TS = 'typestate analysis: fixpoint of abstract states under the most general environment'
TSN = TRUST + 'Fixpoint for a bounded number of requests per channel (quick 3, thorough 4; with sessions 2 and 3).'
ASIO = TRUST + 'Asynchronous operations are modelled as in the asio documentation: they complete once, after the call that started them, and are aborted by cancel and close. '
PROPS = [
 dict(id='C01', title='Requests are encoded exactly as the Modbus specification lays them out',
  statement='For every request within the protocol limits, the bytes built for it are exactly the Modbus PDU: function code, big-endian 16-bit fields, 0xFF00/0x0000 for a single coil, byte count, and coils packed LSB-first with zero padding. This holds for all field values and all list sizes.',
  over=INP, q='every request class, all field values, all list sizes up to the protocol limit',
  why='Tests compare a handful of literal messages; packing and byte order depend on every size modulo 8 and on all values.',
  files=['lib/src/messages/'], mech=[('build_message of the request classes', 'lib/src/messages/*RequestImpl.*')],
  tech=AI, note=TRUST + 'A path class that cannot be compared symbolically is listed as undecided; a mismatch is only reported with concrete field values.'),
 dict(id='C02', title='Responses and exception responses are encoded as the specification says',
  statement='For every response the protocol can carry, the bytes built for it are exactly the Modbus PDU (function code, byte count, packed bits or big-endian registers, or the echoed write fields). An exception response is the function code with the high bit set followed by the exception code.',
  over=INP, q='every response class and exception response, all field values and list sizes up to the protocol limit',
  why='Tests compare a few literal messages.',
  files=['lib/src/messages/'], mech=[('build_message of the response classes', 'lib/src/messages/*ResponseImpl.*'), ('ExceptionResponse', 'lib/src/messages/ExceptionResponse.cpp')],
  tech=AI, note=TRUST + 'Mismatches are only reported with concrete field values.'),
 dict(id='C03', title='Announced message length equals the bytes written and the frame header is right',
  statement='For every message the announced length equals the number of bytes its encoder writes. The framed message on the wire is: transaction id, protocol id 0, length = PDU length + 1, unit id, then exactly the PDU, and the buffer handed to the connection holds exactly that.',
  over=INP, q='every message class within the protocol limits, every transaction and unit id',
  why='Tests check specific sizes; an off-by-one shows only for particular sizes.',
  files=['lib/src/messages/', 'lib/src/messages/mbap/MbapMessage.cpp'], mech=[('get_message_length', 'lib/src/messages/'), ('MbapMessage::build_message', 'lib/src/messages/mbap/MbapMessage.cpp')],
  tech=AI, note=TRUST),
 dict(id='C04', title='Request parsing accepts exactly well-formed requests with the right values',
  statement='A received request PDU is accepted exactly when its length, function code, byte count, quantity and coil value are legal, and then yields the transmitted fields and values. A PDU of wrong length or function code is rejected as malformed; a well-formed PDU with an illegal quantity, byte count or coil value is rejected as illegal data value.',
  over=INP, q='every byte string of up to 253 bytes, every request class',
  why='Tests feed a few byte strings per class.',
  files=['lib/src/messages/'], mech=[('parse of the request classes', 'lib/src/messages/*RequestImpl.*')],
  tech=AI, note=TRUST + 'A mismatch is only reported with a concrete byte string.'),
 dict(id='C05', title='Response parsing accepts exactly the responses that answer the request',
  statement='A received response PDU is accepted exactly when function code, length and byte count fit the request, and then yields values whose addresses count up from the requested start. An exception PDU is reported as a Modbus exception with its code; everything else is rejected as malformed.',
  over=INP, q='every request within the limits and every response byte string, every response class',
  why='Tests feed a few byte strings per class.',
  files=['lib/src/messages/'], mech=[('parse of the response classes', 'lib/src/messages/*ResponseImpl.*')],
  tech=AI, note=TRUST + 'A mismatch is only reported with a concrete request and byte string.'),
 dict(id='C06', title='Decoders never use a byte that was not received',
  statement='Whatever bytes arrive, no decoder bases a decision or an output on a byte beyond the received message or on a value that was never read from it.',
  over=INP, q='every byte string, every message decoder',
  why='Out-of-range reads are silent on most inputs; tests only feed a few.',
  files=['lib/src/messages/'], mech=[('parse functions', 'lib/src/messages/')],
  tech='taint/definite-initialisation dataflow on abstract interpretation', note=TRUST),
 dict(id='C07', title='Exception code tables agree with the protocol and with each other',
  statement='Each named Modbus exception is sent with its protocol code, and each received exception code is reported as the exception the protocol assigns to it; all other codes are reported as unknown. Sending then receiving a named exception yields the same exception.',
  over=INP, q='all 256 exception codes and all named exceptions',
  why='Tests only check the printed names.',
  files=['lib/include/modbus/messages/ExceptionType.h', 'lib/src/messages/ExceptionType.cpp'], mech=[('ExceptionType', 'lib/include/modbus/messages/ExceptionType.h'), ('parse_exception_type', 'lib/src/messages/ExceptionType.cpp')],
  tech='exhaustive table analysis on abstract interpretation', note=TRUST),
 dict(id='C08', title='A request is considered valid exactly within the protocol quantity limits',
  statement='A request reports itself valid exactly when its quantity or list size is within the protocol limits (reads: 1..2000 bits or 1..125 registers; writes: 1..1968 coils or 1..123 registers; single writes always).',
  over=INP, q='every request class and every quantity/list size',
  why='Tests check a boundary or two.',
  files=['lib/src/messages/', 'lib/include/modbus/messages/'], mech=[('is_valid', 'lib/src/messages/*RequestImpl.*')],
  tech=AI, note=TRUST),
 dict(id='C09', title='Frames are recovered from the byte stream however it is split',
  statement='Whatever the chunk boundaries, the parser delivers exactly the frames contained in the received byte stream: each once, in order, with its transaction id, unit id and exactly its PDU bytes. Frames of another protocol id are skipped whole, a header announcing length 0 is skipped, and an incomplete frame is completed by later chunks. After a reset nothing received before it influences what is delivered. (Streams whose length fields are 0 or 2..254.)',
  over=['inputs', 'histories'], q='every byte stream with legal length fields, every split into chunks, resets anywhere',
  why='Chunk boundaries are decided by the network; tests split a few streams at a few places.',
  files=['lib/src/messages/mbap/MbapParser.cpp', 'lib/src/messages/mbap/MbapParser.h'], mech=[('MbapParser::parse', 'lib/src/messages/mbap/MbapParser.cpp')],
  tech='abstract interpretation over symbolic streams and chunk lengths, constant propagation for witness streams', note=TRUST + 'Symbolic analysis covers one, two and three chunks with a bounded number of frames; witness streams are propagated through every two-chunk split.'),
 dict(id='C10', title='One outstanding request per channel, in submission order',
  statement='A client channel gives a request to the connection only while no other request is outstanding, gives requests in the order they were submitted, and gives each of them at most once, whatever the order of submissions, received messages, timeouts and connection errors.',
  over=['schedules', 'histories'], q='every order of submissions, executor tasks, received data, timer expiries, errors and shutdown',
  why='The order of events is decided by the network and the executor; tests run a few orders.',
  files=['lib/src/client/channel/ClientChannelTcp.cpp'], mech=[('ClientChannelTcp', 'lib/src/client/channel/ClientChannelTcp.cpp')],
  tech=TS, note=TSN),
 dict(id='C11', title='Transaction identifiers distinguish requests',
  statement='Successive requests of a channel carry different transaction identifiers, and the identifiers run through all 65536 values before one is used again, wrapping around at the top.',
  over=['histories'], q='every starting identifier and every sequence of requests',
  why='A repeated identifier shows only after tens of thousands of requests.',
  files=['lib/src/client/channel/ClientChannelTcp.cpp', 'lib/src/TransactionIdentifier.cpp'], mech=[('TransactionIdentifier increment', 'lib/src/TransactionIdentifier.cpp')],
  tech=TS, note=TSN),
 dict(id='C12', title='A request is completed only by the message that answers it, with its bytes',
  statement='A response handler is given data only when a message with the transaction id and unit id of the outstanding request arrives, and then gets exactly the bytes of that message; such a message always completes the request, and other messages are ignored. What is sent is the framed encoding of the request under its own unit id, and all received bytes go to the frame parser.',
  over=['inputs', 'schedules', 'histories'], q='every message, every order of events',
  why='Wrong pairings need unusual identifiers at unusual moments.',
  files=['lib/src/client/channel/ClientChannelTcp.cpp'], mech=[('ClientChannelTcp::on_mbap_message', 'lib/src/client/channel/ClientChannelTcp.cpp')],
  tech=TS, note=TSN),
 dict(id='C13', title='Every request is completed exactly once with the right outcome',
  statement='The handler of a request is never called twice. An invalid request is never sent and is reported as malformed; a timeout is reported as a timeout; a connection failure is reported as a connection exception to every accepted request; and when a request completes the next waiting one is sent.',
  over=['schedules', 'histories'], q='every order of submissions, executor tasks, messages, timer expiries, errors and shutdown',
  why='Lost and duplicated completions depend on the order of events.',
  files=['lib/src/client/channel/ClientChannelTcp.cpp'], mech=[('ClientChannelTcp', 'lib/src/client/channel/ClientChannelTcp.cpp')],
  tech=TS, note=TSN),
 dict(id='C14', title='A request is timed with its own timeout and late expiries are harmless',
  statement='For each request sent a timer with the timeout given with that request is started; its expiry ends exactly that request; completing the request cancels it; and the expiry of an earlier request\'s timer that was already queued when it was cancelled does not affect later requests.',
  over=['schedules', 'histories'], q='every order of events, including expiries queued before the cancellation',
  why='The race between a response and its timeout needs a particular interleaving.',
  files=['lib/src/client/channel/ClientChannelTcp.cpp'], mech=[('ClientChannelTcp::check_pending_requests', 'lib/src/client/channel/ClientChannelTcp.cpp')],
  tech=TS, note=TSN),
 dict(id='C15', title='Nothing happens on a channel after shutdown',
  statement='After shutdown of a client channel nothing is sent, no timer is started or left running and no response handler of a valid request is called; the connection and every session created by the channel are shut down with it. Until then each create_session gives a session of its own.',
  over=['schedules', 'histories'], q='every order of events around shutdown',
  why='Needs events that arrive after or while shutting down.',
  files=['lib/src/client/channel/ClientChannelTcp.cpp'], mech=[('ClientChannelTcp::shutdown', 'lib/src/client/channel/ClientChannelTcp.cpp')],
  tech=TS, note=TSN),
 dict(id='C18', title='A failed connection leaves no stale input behind',
  statement='When the connection of a client channel fails, the partial frame received on it is discarded, so that the first bytes after a reconnect are read as the start of a frame.',
  over=['histories'], q='every reachable state of the channel in which an error arrives',
  why='Needs a connection lost in the middle of a frame, then a reconnect.',
  files=['lib/src/client/channel/ClientChannelTcp.cpp'], mech=[('ClientChannelTcp::on_error', 'lib/src/client/channel/ClientChannelTcp.cpp')],
  tech=TS, note=TSN),
 dict(id='C16', title='Typed requests of a session reach the channel and come back typed, exactly once',
  statement='Each typed send_request and schedule_request of a session hands exactly one request to the channel: the request given, with the unit id and default timeout the session was created with, or the explicit timeout where one is given. Its handler is called exactly once per answer: with the received bytes parsed against that request as the matching response type, or with the failure that was reported.',
  over=['inputs', 'histories'], q='every request type and overload, every answer and failure',
  why='Tests use mock sessions; 24 overloads forward arguments of the same types to each other.',
  files=['lib/src/client/session/ClientSessionImpl.cpp', 'lib/src/client/session/ScheduledRequest.hpp', 'lib/src/client/channel/ClientChannelTcp.cpp'], mech=[('meta_send_request', 'lib/src/client/session/ClientSessionImpl.cpp'), ('create_session', 'lib/src/client/channel/ClientChannelTcp.cpp')],
  tech='abstract interpretation with value tracking of every forwarded argument and callback', note=TRUST),
 dict(id='C17', title='A scheduled request polls once at a time, exactly while started',
  statement='Starting a stopped scheduled request sends the request at once; after each answer (response, error or timeout), given to the handler once, it waits the current frequency and sends it again; at no time do two polls run in parallel, also after a stop and restart while an answer is outstanding. After stop or shutdown of the session nothing is sent and no timer is started; set_frequency takes effect at the next wait; is_running and get_frequency tell the current state.',
  over=['schedules', 'histories'], q='every order of start, stop, set_frequency, session shutdown, answers and timer expiries',
  why='A duplicated or dead poll needs a restart at a particular moment.',
  files=['lib/src/client/session/ScheduledRequest.hpp', 'lib/src/client/session/ClientSessionImpl.cpp'], mech=[('ScheduledRequest::execute', 'lib/src/client/session/ScheduledRequest.hpp')],
  tech=TS, note=TRUST + 'Fixpoint for a bounded number of start/stop operations (quick 1, thorough 2).'),
 dict(id='C29', title='The in-memory database is used under one lock',
  statement='Every access to the values of the in-memory database, by requests, add_* and transactions alike, happens while one and the same mutex of the database is held; the whole transaction runs under it; no entry locks it again while holding it; and it is released when the entry is left, also by an exception thrown by the transaction.',
  over=['schedules'], q='every public entry, every accessor called from a transaction, every path',
  why='A data race or a deadlock needs two threads at the right moment.',
  files=['lib/src/server/db/InMemoryDatabase.cpp'], mech=[('m_mutex', 'lib/include/modbus/server/db/InMemoryDatabase.h')],
  tech='lockset analysis over all interprocedural paths', note=TRUST),
 dict(id='C30', title='Requests read and write exactly the addressed cells of their own table',
  statement='A read request answers the values stored in its own table (coils, discrete inputs, holding or input registers), each with its address, counted from the starting address. A write request stores the given values at exactly the addressed cells of its table and echoes the request (single: address and value; multiple: start and quantity). A request for a range with any missing address, also past 65535, is answered IllegalDataAddress and changes nothing. The four tables are independent, for requests, add_* and transaction accessors alike.',
  over=['inputs', 'histories'], q='address layouts around a symbolic base and at both ends of the address space with symbolic values, up to 300 cells',
  why='The values of all cells and the whole table content after each request are covered, not samples.',
  files=['lib/src/server/db/InMemoryDatabase.cpp', 'lib/src/server/db/SingleTypeDatabase.cpp'], mech=[('InMemoryDatabase::on_request', 'lib/src/server/db/InMemoryDatabase.cpp')],
  tech='abstract interpretation with symbolic contents against a table model', note=TRUST + 'Bounded number of layouts; quantity 0 is not covered.'),
 dict(id='C31', title='A table behaves as a map from addresses to values',
  statement='add_value creates exactly the missing address and never changes an existing one; set_value and get_value succeed exactly for existing addresses; is_valid_range, set_values and get_values of one or more values succeed exactly when every address of the range exists (a range does not wrap around at 65535), work on consecutive addresses, and when they fail change nothing. The order in which addresses were added does not matter.',
  over=['inputs', 'histories'], q='every layout of up to four addresses in a window of five around a symbolic base, and at both ends of the address space; symbolic values; long ranges of about 300 addresses',
  why='Holes, the ends of the address space and long ranges are all covered.',
  files=['lib/src/server/db/SingleTypeDatabase.cpp'], mech=[('SingleTypeDatabase::is_valid_range', 'lib/src/server/db/SingleTypeDatabase.cpp')],
  tech='abstract interpretation with symbolic contents against a map model', note=TRUST + 'Bounded number of layouts.'),
 dict(id='C20', title='The server hands each request to the right session and sends its answer back',
  statement='A received message for a registered unit whose function code is one of the eight supported ones is decoded as that request and, when well formed, handed exactly once to the session registered for that unit, to the handler for that request with the decoded values. What the session returns is sent exactly once, as the response of that function, on the connection the request came from, framed with the transaction and unit identifiers of the request. A message for an unknown unit, or without a function code, is neither dispatched nor answered; a rejected request is never dispatched; nothing is sent unprompted.',
  over=['inputs', 'histories'], q='every message, every session answer, every order of add_session, start, shutdown, messages and posted handlers (bounded number of sessions)',
  why='Tests send one well-formed request per function code.',
  files=['lib/src/server/channel/ServerChannelTcp.cpp', 'lib/src/server/channel/ServerChannelTcp.h'], mech=[('ServerChannelTcp::on_mbap, process_message, send_message', 'lib/src/server/channel/ServerChannelTcp.cpp')],
  tech=TS, note=TRUST + 'Decoders and encoders are opaque here (C02-C05 cover them). Up to two sessions (thorough three) for symbolic units.'),
 dict(id='C21', title='Requests the server cannot serve get the right exception response',
  statement='An unsupported function code is answered with the exception IllegalFunction; a request rejected while decoding with a Modbus exception, and a request for which the session returns a Modbus exception, are answered with an exception response carrying the function code of the request and that exception code. A request that is malformed, or for which the session fails otherwise, never gets a normal response.',
  over=['inputs', 'histories'], q='every function code, every exception code, every message',
  why='Tests check one exception of one function code.',
  files=['lib/src/server/channel/ServerChannelTcp.cpp'], mech=[('ServerChannelTcp::on_mbap, process_message', 'lib/src/server/channel/ServerChannelTcp.cpp')],
  tech=TS, note=TRUST + 'Decoders are opaque and may succeed or fail in every way.'),
 dict(id='C24', title='Server sessions: the latest registration counts, and shutdown ends everything',
  statement='The session last added for a unit is the one its requests go to (it replaces an earlier one). start starts the server. Once a shutdown took effect no message is dispatched or answered and the server is not started again. A shutdown shuts the server down if it was started, and shuts down every session registered at that time exactly once; sessions in use are not shut down before.',
  over=['histories', 'schedules'], q='every order of add_session, start, shutdown, messages and posted handlers (bounded number of sessions, symbolic units)',
  why='Tests run one fixed order.',
  files=['lib/src/server/channel/ServerChannelTcp.cpp'], mech=[('ServerChannelTcp::add_session, start, shutdown', 'lib/src/server/channel/ServerChannelTcp.cpp')],
  tech=TS, note=TRUST + 'Up to two sessions (thorough three).'),
 dict(id='C19', title='A client connection writes what it is given, delivers what it receives and reports every failure',
  statement='Whatever the order of sends, closes, completions and failures: the bytes given to a send are written whole, at most once and not while another write is outstanding; a send that was not written yet is only replaced by a later one. A send while not connected opens the connection (once), and the bytes are written when it is established. While connected exactly one read is outstanding, and received bytes are handed to the listener once and complete. Every failure to resolve, open, bind, connect, read or write, and the end of the stream, is reported to the listener and ends the connection, so that the next send reconnects; nothing else is reported, and late completions of an earlier connection neither report, deliver nor close anything. After shutdown the listener is not called, nothing is started and outstanding operations are cancelled.',
  over=['histories', 'schedules'], q='every order of sends, close, shutdown, posted handlers and completions (success, failure, abort, end of stream) of the asynchronous operations; two sends (thorough three)',
  why='Unit tests replace the connection by a mock; completions that arrive late, fail or overlap are never exercised.',
  files=['lib/src/client/channel/AsioClientTcpConnection.cpp', 'lib/src/client/channel/AsioClientTcpConnection.h'], mech=[('AsioClientTcpConnection', 'lib/src/client/channel/AsioClientTcpConnection.cpp')],
  tech=TS, note=ASIO),
 dict(id='C22', title='The server accepts connections until shutdown and never serves more than the maximum',
  statement='After start, exactly one accept is outstanding until the shutdown, also after an accept failed or the maximum is reached. When a new connection exceeds the maximum the oldest one is closed, and no connection is closed for that reason otherwise; a connection whose accept failed is not served. The number of connections reported is the number that are open. After the shutdown took effect nothing is accepted and every connection the server has is closed.',
  over=['histories', 'schedules'], q='every order of accepts (succeeding, failing, aborted), reads failing, posted handlers and shutdown, for maxima 1 and 2 and one more connection than that (thorough two more)',
  why='Unit tests never open a real server; eviction and failed accepts need several connections in a particular order.',
  files=['lib/src/server/channel/AsioServer.cpp', 'lib/src/server/channel/AsioServer.h'], mech=[('AsioServer', 'lib/src/server/channel/AsioServer.cpp')],
  tech=TS, note=ASIO + 'A maximum of 0 is not covered.'),
 dict(id='C23', title='A server connection writes answers in order and hands received bytes to its own frame parser',
  statement='Each accepted connection gets one listener of its own and is read from, with exactly one read outstanding while it is established. Received bytes are handed to that listener once and complete; it passes them to its own frame parser, gives every frame found, together with its own connection, once to the channel while both exist, and empties the parser when the connection fails. Bytes given to send are written whole, once, in the order of the sends, on that connection and one write at a time. A failed read or write is reported to the listener and the connection is closed, as it is on close. After the shutdown of a connection its listener is not called.',
  over=['histories', 'schedules'], q='every order of sends, close, shutdown, posted handlers and completions of the asynchronous operations; two sends (thorough three), up to two connections',
  why='Unit tests have no server connection; ordering and failure cases depend on the completions.',
  files=['lib/src/server/channel/AsioServerTcpConnection.cpp', 'lib/src/server/channel/ServerConnectionListener.cpp', 'lib/src/server/channel/AsioServer.cpp'], mech=[('AsioServerTcpConnection', 'lib/src/server/channel/AsioServerTcpConnection.cpp'), ('ServerConnectionListener', 'lib/src/server/channel/ServerConnectionListener.cpp')],
  tech=TS, note=ASIO),
 dict(id='C27', title='Buffers of asynchronous operations stay alive and unchanged until they end',
  statement='The memory an asynchronous read or write of a connection uses is kept alive by something its completion handler owns until it completes, and the bytes being written are not changed, removed or freed before that, whatever is sent, closed or completed meanwhile.',
  over=['histories', 'schedules'], q='every order of sends, close, shutdown, posted handlers and completions, client and server connections; two sends (thorough three)',
  why='A freed or overwritten buffer shows only under a particular timing of completions and further sends.',
  files=['lib/src/client/channel/AsioClientTcpConnection.cpp', 'lib/src/server/channel/AsioServerTcpConnection.cpp'], mech=[('send_buffer, begin_read', 'lib/src/client/channel/AsioClientTcpConnection.cpp'), ('send, send_buffer, begin_read', 'lib/src/server/channel/AsioServerTcpConnection.cpp')],
  tech='ownership and typestate analysis over the handlers of asynchronous operations', note=ASIO),
 dict(id='C25', title='Nothing deferred outlives what it uses',
  statement='Every function handed to the executor, to a timer or to an asynchronous operation, and every response callback handed to the channel, keeps alive the component (client channel, session, scheduled request, connection, server, server channel) it uses when it runs: the component is owned by what the function captures, directly or through members, or was checked to be still there. No such function captures a local variable or parameter by reference or a view of memory that is gone when it runs.',
  over=['histories', 'schedules'], q='every deferred function created on any path of the public operations, their handlers and completions',
  why='A dangling capture is only visible when the last other owner disappears in the right moment.',
  files=['lib/src/client/channel/ClientChannelTcp.cpp', 'lib/src/client/channel/AsioClientTcpConnection.cpp', 'lib/src/client/session/ClientSessionImpl.cpp', 'lib/src/client/session/ScheduledRequest.hpp', 'lib/src/server/channel/AsioServer.cpp', 'lib/src/server/channel/AsioServerTcpConnection.cpp', 'lib/src/server/channel/ServerChannelTcp.cpp'],
  mech=[('lambdas and std::bind given to post, start, wrap and send_request', 'lib/src/client/channel/ClientChannelTcp.cpp')],
  tech='ownership analysis: each deferred function is analysed with its component released by all other owners', note=ASIO),
 dict(id='C26', title='Components are free of data races and deadlocks',
  statement='Every public operation of channels, sessions, scheduled requests, server channels and the manager may be called from any thread while the handlers of the channel run: a member that one thread writes and another uses is protected by a common lock, atomic, or only used on the strand of its channel. All handlers of a channel and of its connections run on one strand: asynchronous completions go through the executor. No lock is taken twice, in contradictory orders, or held while a handler of the user is called.',
  over=['schedules'], q='every public operation from any thread against every handler, on every path',
  why='Races need two threads in the right moment; the unit tests run one thread.',
  files=['lib/src/client/channel/ClientChannelTcp.cpp', 'lib/src/client/channel/ClientChannelTcp.h', 'lib/src/client/session/ScheduledRequest.hpp', 'lib/src/server/channel/ServerChannelTcp.cpp', 'lib/src/ModbusManagerImpl.cpp'],
  mech=[('m_sessions_mutex, m_is_shutdown, m_executor->post', 'lib/src/client/channel/ClientChannelTcp.cpp'), ('m_executor->wrap', 'lib/src/client/channel/AsioClientTcpConnection.cpp'), ('m_mutex', 'lib/src/ModbusManagerImpl.cpp')],
  tech='lockset and thread-confinement analysis over the interprocedural paths of all components', note=ASIO + 'The response callbacks and server sessions of the user are taken to be free of races themselves.'),
 dict(id='C28', title='The manager shuts down every channel and ends its threads',
  statement='Each create call gives a new channel built with the arguments given (endpoint, adapter, maximum number of connections). The first shutdown of the manager, or its destruction without one, shuts down every channel it made exactly once and then ends the threads, without holding a lock their handlers may need; repeating it or destroying the manager afterwards is safe.',
  over=['histories'], q='every sequence of up to three (thorough five) of the calls create client channel, create server channel, shutdown and destruction',
  why='Unit tests never build a manager.',
  files=['lib/src/ModbusManagerImpl.cpp', 'lib/src/ModbusManagerImpl.h'], mech=[('ModbusManagerImpl::shutdown', 'lib/src/ModbusManagerImpl.cpp')],
  tech=TS, note=ASIO + 'The log level argument is checked by C35.'),
 dict(id='C33', title='An Expected tells exactly what it was made from',
  statement='An Expected made from a value is valid, holds that value and no exception; one made from an exception (or exception pointer) is not valid, holds that exception, has_exception holds for exactly its type (and its bases), and get throws it. Copies and moves say the same as the original; a copy leaves the original unchanged. get_exception of a valid Expected, or for a type that does not match, throws std::invalid_argument, as does making one from a sliced exception. Whatever member was made is the one destroyed, exactly once.',
  over=['inputs', 'histories'], q='every way of making an Expected (value, exception, exception pointer, copy, move) with every observer, for an arbitrary value',
  why='Every response and every request result travels in it; tests look at integers, and a member destroyed wrongly shows up only in memory.',
  files=['lib/include/modbus/Expected.h'], mech=[('Expected', 'lib/include/modbus/Expected.h')],
  tech='interprocedural symbolic value analysis of the instantiated class template', note=TRUST + 'Analysed for the instance Expected<ReadCoilsResponse>.'),
 dict(id='C34', title='Identifiers, endpoints and exceptions report what they were made from and compare by all of it',
  statement='Unit identifiers, transaction identifiers and endpoints give back the values they were made from; two are equal exactly when all these values are equal, and != is the negation of ==; equal unit identifiers have equal hashes; incrementing a transaction identifier adds one and wraps from 65535 to 0; the default unit identifier is 0xFF. Every exception class is an IException with the message it was given (or a text of its own), and a ModbusException reports the type it was made with and a text that differs between types.',
  over=['inputs'], q='all values of identifiers, ports, host names, messages and exception types',
  why='Tests compare a few values.',
  files=['lib/include/modbus/UnitIdentifier.h', 'lib/src/UnitIdentifier.cpp', 'lib/src/TransactionIdentifier.cpp', 'lib/src/Ipv4Endpoint.cpp', 'lib/include/modbus/exceptions/ModbusException.h', 'lib/include/modbus/exceptions/IException.h'],
  mech=[('operator==, operator!=, operator++, std::hash', 'lib/src/TransactionIdentifier.cpp')],
  tech='interprocedural symbolic value analysis', note=TRUST + 'How identifiers are printed is not checked.'),
 dict(id='C32', title='A cloned message is the same message',
  statement='Every message object gives back the request or response it was made from; clone gives a new object of the same class with the same content and leaves the original unchanged.',
  over=['inputs'], q='every message class, arbitrary content',
  why='A queued request is sent from its clone; tests do not compare clones.',
  files=['lib/src/messages/IMessage.h', 'lib/src/messages/ReadBitsRequestImpl.cpp', 'lib/src/messages/WriteMultipleCoilsRequestImpl.cpp', 'lib/src/messages/ExceptionResponse.cpp'], mech=[('IMessage::clone', 'lib/src/messages/IMessage.h')],
  tech='interprocedural symbolic value analysis', note=TRUST),
 dict(id='C36', title='Timers of a session run the action given at the time given',
  statement='IClientSession::start starts exactly one timer, for the duration or the instant given and with the action given; the ITimer it returns cancels that timer and reports its expiry.',
  over=['inputs'], q='arbitrary durations, instants and actions',
  why='No test uses the timers of a session.',
  files=['lib/src/client/session/ClientSessionImpl.cpp', 'lib/src/TimerWrapper.cpp'], mech=[('ClientSessionImpl::start', 'lib/src/client/session/ClientSessionImpl.cpp'), ('TimerWrapper', 'lib/src/TimerWrapper.cpp')],
  tech='interprocedural symbolic value analysis with effects', note=TRUST + 'Timers of exe4cpp are trusted.'),
 dict(id='C37', title='A server session refuses what it does not implement',
  statement='Every request a server session does not override is answered with the Modbus exception IllegalFunction.',
  over=['inputs'], q='all eight request types, arbitrary requests',
  why='Tests use one or two of the eight defaults.',
  files=['lib/include/modbus/server/IServerSession.h'], mech=[('IServerSession::on_request', 'lib/include/modbus/server/IServerSession.h')],
  tech='interprocedural symbolic value analysis', note=TRUST),
 dict(id='C38', title='Endpoints, adapter and thread count reach the network and the thread pool as given',
  statement='A client channel resolves the host name and port of the endpoint it was made for, connects to what they were resolved to, and uses the adapter address it was given as local address (any address when none was given), with a local port the system chooses. A server channel listens at the address and port of its endpoint. A manager runs the number of threads it was given, and at least one.',
  over=['inputs'], q='arbitrary endpoints, adapters and thread counts, every path of connecting',
  why='Unit tests open no sockets and build no manager; the examples use the loopback address.',
  files=['lib/src/client/channel/AsioClientTcpConnection.cpp', 'lib/src/server/channel/AsioServer.cpp', 'lib/src/IModbusManager.cpp', 'lib/src/ModbusManagerImpl.cpp'],
  mech=[('send, resolve_handler', 'lib/src/client/channel/AsioClientTcpConnection.cpp'), ('AsioServer::AsioServer', 'lib/src/server/channel/AsioServer.cpp'), ('IModbusManager::create', 'lib/src/IModbusManager.cpp')],
  tech='interprocedural symbolic value-flow analysis from configuration to library calls', note=ASIO + 'Ports above 65535 are not covered.'),
 dict(id='C35', title='Log messages keep their level and content, loggers their configuration',
  statement='Each logging method of a Logger passes its format and arguments on, once, at the level of its name. A LoggingLevel stands for the spdlog level of the same name; console and custom loggers and clones made with a level get that level; a clone has the name given and all sinks of the original; a custom logger writes to the spdlog logger given, a console logger to the console (thread-safe), a null logger nowhere. The loggers of a channel have its name and its level.',
  over=['inputs'], q='all levels, names, messages and arguments, every instantiation of the logging methods',
  why='No test looks at what is logged.',
  files=['lib/src/logging/Logger.h', 'lib/src/logging/LoggerFactory.cpp', 'lib/src/logging/LoggingLevelConversion.h', 'lib/src/ModbusManagerImpl.cpp'],
  mech=[('Logger', 'lib/src/logging/Logger.h'), ('to_spdlog_level', 'lib/src/logging/LoggingLevelConversion.h'), ('LoggerFactory', 'lib/src/logging/LoggerFactory.cpp')],
  tech='interprocedural symbolic value analysis with effects', note=TRUST + 'spdlog is trusted.'),
]
NA = []
