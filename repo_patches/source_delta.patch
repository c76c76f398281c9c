From 945fa00977eded52f3b9185f3ded39129ec0ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:32 +0000
Subject: [PATCH 01/13] fix: send memory parity error with its protocol code
 0x08

The enumerator had value 0x07, so the server encoded the exception with a
code that parse_exception_type() (and the protocol) do not know.
---
 lib/include/modbus/messages/ExceptionType.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/modbus/messages/ExceptionType.h b/lib/include/modbus/messages/ExceptionType.h
index 4823050..b480209 100644
--- a/lib/include/modbus/messages/ExceptionType.h
+++ b/lib/include/modbus/messages/ExceptionType.h
@@ -82,13 +82,13 @@ enum class ExceptionType
     ServerDeviceBusy = 0x06,
 
     /**
-     * @cpp 0x07 @ce Memory parity error
+     * @cpp 0x08 @ce Memory parity error
      *
      * The extended file area failed to pass a consistency check.
      *
      * Used with function codes @cpp 0x20 @ce and @cpp 0x21 @ce (not supported by this library)
      */
-    MemoryParityError = 0x07,
+    MemoryParityError = 0x08,
 
     /**
      * @cpp 0x0A @ce Gateway path unavailable
-- 
2.43.0


From aeab6175c7af9f13840f97e8c34eabbd0768a923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:32 +0000
Subject: [PATCH 02/13] fix: reject register responses whose byte count differs
 from the payload

ReadRegistersResponseImpl::parse() read the byte count but never compared it
with the bytes that follow, so a response announcing e.g. 0 bytes followed by
the expected number of registers was accepted.
---
 lib/src/messages/ReadRegistersResponseImpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/messages/ReadRegistersResponseImpl.cpp b/lib/src/messages/ReadRegistersResponseImpl.cpp
index 7a45f07..aa156fe 100644
--- a/lib/src/messages/ReadRegistersResponseImpl.cpp
+++ b/lib/src/messages/ReadRegistersResponseImpl.cpp
@@ -85,6 +85,12 @@ ReadRegistersResponseImpl<function_code, request_t, response_t>::parse(const Rea
         return Expected<response_t>::from_exception(MalformedModbusResponseException{"Response should contain an even number of register bytes."});
     }
 
+    // Check that the number of bytes fits
+    if(view.length() != length)
+    {
+        return Expected<response_t>::from_exception(MalformedModbusResponseException{"Response length does not fit with the value in the header."});
+    }
+
     // Check that each number of registers match
     if(view.length() != 2 * req.get_request().qty_of_registers)
     {
-- 
2.43.0


From efbf311f126f687569859ef741af668fe4822f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 03/13] fix: ignore the expiry of an earlier request's timer

---
 lib/src/client/channel/ClientChannelTcp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 6cb27e8..8ae6858 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -192,10 +192,12 @@ void ClientChannelTcp::check_pending_requests()
         m_tcp_connection->set_listener(std::dynamic_pointer_cast<ClientChannelTcp>(shared_from_this()));
         m_tcp_connection->send(serialized_request);
 
+        const auto transaction_id = m_current_request->transaction_id;
         m_current_timer = m_executor->start(m_current_request->timeout, [=, self = shared_from_this()]() {
             if(m_is_shutdown) return;
 
-            if (m_current_request)
+            // The expiry may already be queued when the timer gets cancelled
+            if (m_current_request && m_current_request->transaction_id == transaction_id)
             {
                 m_logger->warn("Timeout reached. UnitId: {}, TransactionId: {}.",
                     m_current_request->unit_id, m_current_request->transaction_id);
-- 
2.43.0


From afebd9f2c0c4e0b6b0a0a897c95e2411f60f7e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 04/13] fix: answers and timers of a stopped polling must not
 continue a restarted one

---
 lib/src/client/session/ScheduledRequest.h   |  1 +
 lib/src/client/session/ScheduledRequest.hpp | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/src/client/session/ScheduledRequest.h b/lib/src/client/session/ScheduledRequest.h
index 2af9ea3..be22e37 100644
--- a/lib/src/client/session/ScheduledRequest.h
+++ b/lib/src/client/session/ScheduledRequest.h
@@ -59,6 +59,7 @@ private:
     duration_t m_frequency;
 
     bool m_running;
+    unsigned int m_generation;
     exe4cpp::Timer m_timer;
 };
 
diff --git a/lib/src/client/session/ScheduledRequest.hpp b/lib/src/client/session/ScheduledRequest.hpp
index 419ead5..2409f27 100644
--- a/lib/src/client/session/ScheduledRequest.hpp
+++ b/lib/src/client/session/ScheduledRequest.hpp
@@ -38,6 +38,7 @@ ScheduledRequest<TRequest, TResponse>::ScheduledRequest(std::shared_ptr<IClientS
       m_timeout{timeout},
       m_frequency{frequency},
       m_running{false},
+      m_generation{0},
       m_timer{nullptr}
 {
 
@@ -50,6 +51,7 @@ void ScheduledRequest<TRequest, TResponse>::start()
         if(!m_running)
         {
             m_running = true;
+            ++m_generation;
             execute();
         }
     });
@@ -90,17 +92,23 @@ bool ScheduledRequest<TRequest, TResponse>::is_running() const
 template<typename TRequest, typename TResponse>
 void ScheduledRequest<TRequest, TResponse>::execute()
 {
+    // Responses and timers of a polling that was stopped since must not continue it
+    const auto generation = m_generation;
+
     // Send the request
     m_session->send_request(m_request, m_timeout, [=, self = shared_from_this()](const Expected<TResponse>& response) {
 
         // Call the response handler
         m_handler(response);
 
-        if(is_running())
+        if(is_running() && generation == m_generation)
         {
             // Start the timer for the next execution
             m_timer = m_executor->start(m_frequency, [=, self2 = self]() {
-                execute();
+                if(is_running() && generation == m_generation)
+                {
+                    execute();
+                }
             });
         }
     });
-- 
2.43.0


From 1f9844da2d247287a21866c05002c35ba9936292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:03 +0000
Subject: [PATCH 05/13] fix: adding a session for a unit replaces the one it
 had

---
 lib/src/server/channel/ServerChannelTcp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/server/channel/ServerChannelTcp.cpp b/lib/src/server/channel/ServerChannelTcp.cpp
index ee2dc43..19b336e 100644
--- a/lib/src/server/channel/ServerChannelTcp.cpp
+++ b/lib/src/server/channel/ServerChannelTcp.cpp
@@ -92,7 +92,7 @@ void ServerChannelTcp::add_session(const UnitIdentifier& unit_identifier, std::s
     m_executor->post([=, self=shared_from_this()]() {
         if(m_is_shutdown) return;
 
-        m_sessions.insert({unit_identifier, session});
+        m_sessions[unit_identifier] = session;
     });
 }
 
-- 
2.43.0


From 8b46813ba4899acaa6fd7133f37c5258ee3667e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 06/13] fix: client connection keeps written bytes alive, whole
 and in order

The buffer of an outstanding write was destroyed by the next send, two writes
could overlap, and async_send may write only a part of it.
---
 .../channel/AsioClientTcpConnection.cpp       | 27 ++++++++++++-------
 .../client/channel/AsioClientTcpConnection.h  |  3 ++-
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index f9bbc6e..20be4c1 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -34,7 +34,8 @@ AsioClientTcpConnection::AsioClientTcpConnection(std::shared_ptr<Logger> logger,
           m_resolver{*executor->get_context()},
           m_tcp_socket{*executor->get_context()},
           m_is_shutdown{false},
-          m_current_connection_status{ConnectionStatus::NotConnected}
+          m_current_connection_status{ConnectionStatus::NotConnected},
+          m_is_writing{false}
 {
 
 }
@@ -182,8 +183,10 @@ void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size
     begin_read();
 }
 
-void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred)
+void AsioClientTcpConnection::write_handler(const std::shared_ptr<ser4cpp::Buffer>& buffer, const std::error_code& ec, std::size_t bytes_transferred)
 {
+    m_is_writing = false;
+
     if(m_is_shutdown) return;
 
     if(ec)
@@ -196,13 +199,14 @@ void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size
 
     m_logger->debug("Sent {} bytes", bytes_transferred);
 
-    m_write_buffer = nullptr;
-
     auto connection_listener = m_connection_listener.lock();
     if(connection_listener)
     {
         connection_listener->on_write_done();
     }
+
+    // Bytes that were given to send() in the meantime
+    send_buffer();
 }
 
 void AsioClientTcpConnection::begin_read()
@@ -219,12 +223,17 @@ void AsioClientTcpConnection::send_buffer()
 {
     if(m_is_shutdown) return;
 
-    if(m_write_buffer)
+    // The buffer must stay alive and unchanged until the write completes, and
+    // two writes must never overlap.
+    if(m_write_buffer && !m_is_writing)
     {
-        m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
-                                m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
-                                                        std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                        _1, _2)));
+        m_is_writing = true;
+        std::shared_ptr<ser4cpp::Buffer> buffer{std::move(m_write_buffer)};
+        asio::async_write(m_tcp_socket,
+                          asio::buffer(buffer->as_rslice(), buffer->length()),
+                          m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
+                                                     std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
+                                                     buffer, _1, _2)));
     }
 }
 
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 2c2494e..c4822aa 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -53,7 +53,7 @@ private:
     void resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
     void connect_handler(const asio::error_code& ec);
     void read_handler(const asio::error_code& ec, std::size_t bytes_transferred);
-    void write_handler(const asio::error_code& ec, std::size_t bytes_transferred);
+    void write_handler(const std::shared_ptr<ser4cpp::Buffer>& buffer, const asio::error_code& ec, std::size_t bytes_transferred);
 
     void begin_read();
     void send_buffer();
@@ -70,6 +70,7 @@ private:
     ConnectionStatus m_current_connection_status;
     std::array<uint8_t, 4096> m_read_buffer;
     std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
+    bool m_is_writing;
 
     std::weak_ptr<IConnectionListener> m_connection_listener;
 };
-- 
2.43.0


From dd99baa72ed30eec003fab14dc7e77b53e2269a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 07/13] fix: client connection ignores completions of an
 earlier connection

After a failure the socket was closed by a posted handler, and handlers of the
closed connection's operations that ran after a reconnection closed the new
connection and reported an error for it.
---
 .../channel/AsioClientTcpConnection.cpp       | 66 +++++++++++--------
 .../client/channel/AsioClientTcpConnection.h  | 10 +--
 2 files changed, 44 insertions(+), 32 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 20be4c1..9cf3eab 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -35,6 +35,7 @@ AsioClientTcpConnection::AsioClientTcpConnection(std::shared_ptr<Logger> logger,
           m_tcp_socket{*executor->get_context()},
           m_is_shutdown{false},
           m_current_connection_status{ConnectionStatus::NotConnected},
+          m_connection_id{0},
           m_is_writing{false}
 {
 
@@ -75,7 +76,7 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
         m_resolver.async_resolve(query,
                                  m_executor->wrap(std::bind(&AsioClientTcpConnection::resolve_handler,
                                                             std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                            _1, _2)));
+                                                            m_connection_id, _1, _2)));
     }
 
     if(m_current_connection_status == ConnectionStatus::Connected)
@@ -91,16 +92,7 @@ void AsioClientTcpConnection::close()
     m_executor->post([=, self = shared_from_this()] () {
         if(m_is_shutdown) return;
 
-        m_current_connection_status = ConnectionStatus::NotConnected;
-
-        if(m_tcp_socket.is_open())
-        {
-            m_logger->info("Closing connection");
-
-            std::error_code ec;
-            m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
-            m_tcp_socket.close(ec);
-        }
+        disconnect();
     });
 }
 
@@ -114,14 +106,14 @@ void AsioClientTcpConnection::shutdown()
     });
 }
 
-void AsioClientTcpConnection::resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints)
+void AsioClientTcpConnection::resolve_handler(unsigned int connection_id, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || connection_id != m_connection_id) return;
 
     if(ec)
     {
         m_logger->error("IP resolver error: {}", ec.message());
-        m_current_connection_status = ConnectionStatus::NotConnected;
+        disconnect();
         send_error(ec.message());
         return;
     }
@@ -130,17 +122,17 @@ void AsioClientTcpConnection::resolve_handler(const asio::error_code& ec, asio::
                         endpoints,
                         m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
                                                 std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                _1)));
+                                                m_connection_id, _1)));
 }
 
-void AsioClientTcpConnection::connect_handler(const asio::error_code& ec)
+void AsioClientTcpConnection::connect_handler(unsigned int connection_id, const asio::error_code& ec)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || connection_id != m_connection_id) return;
 
     if(ec)
     {
         m_logger->error("Connection error: {}", ec.message());
-        close();
+        disconnect();
         send_error(ec.message());
         return;
     }
@@ -152,21 +144,21 @@ void AsioClientTcpConnection::connect_handler(const asio::error_code& ec)
     begin_read();
 }
 
-void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size_t bytes_transferred)
+void AsioClientTcpConnection::read_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || connection_id != m_connection_id) return;
 
     if(ec)
     {
         if(ec == asio::error::misc_errors::eof)
         {
             m_logger->info("Connection gracefully closed by peer.");
-            close();
+            disconnect();
         }
         else
         {
             m_logger->error("Read error: {}", ec.message());
-            close();
+            disconnect();
             send_error(ec.message());
         }
         return;
@@ -183,16 +175,16 @@ void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size
     begin_read();
 }
 
-void AsioClientTcpConnection::write_handler(const std::shared_ptr<ser4cpp::Buffer>& buffer, const std::error_code& ec, std::size_t bytes_transferred)
+void AsioClientTcpConnection::write_handler(unsigned int connection_id, const std::shared_ptr<ser4cpp::Buffer>& buffer, const std::error_code& ec, std::size_t bytes_transferred)
 {
-    m_is_writing = false;
+    if(m_is_shutdown || connection_id != m_connection_id) return;
 
-    if(m_is_shutdown) return;
+    m_is_writing = false;
 
     if(ec)
     {
         m_logger->error("Write error: {}", ec.message());
-        close();
+        disconnect();
         send_error(ec.message());
         return;
     }
@@ -209,6 +201,24 @@ void AsioClientTcpConnection::write_handler(const std::shared_ptr<ser4cpp::Buffe
     send_buffer();
 }
 
+void AsioClientTcpConnection::disconnect()
+{
+    // Completions of the operations started so far belong to the connection
+    // that ends here; they must not be taken for the next one's.
+    ++m_connection_id;
+    m_is_writing = false;
+    m_current_connection_status = ConnectionStatus::NotConnected;
+
+    if(m_tcp_socket.is_open())
+    {
+        m_logger->info("Closing connection");
+
+        std::error_code ec;
+        m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
+        m_tcp_socket.close(ec);
+    }
+}
+
 void AsioClientTcpConnection::begin_read()
 {
     if(m_is_shutdown) return;
@@ -216,7 +226,7 @@ void AsioClientTcpConnection::begin_read()
     m_tcp_socket.async_read_some(asio::buffer(m_read_buffer, m_read_buffer.size()),
                                  m_executor->wrap(std::bind(&AsioClientTcpConnection::read_handler,
                                                          std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                         _1, _2)));
+                                                         m_connection_id, _1, _2)));
 }
 
 void AsioClientTcpConnection::send_buffer()
@@ -233,7 +243,7 @@ void AsioClientTcpConnection::send_buffer()
                           asio::buffer(buffer->as_rslice(), buffer->length()),
                           m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
                                                      std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                     buffer, _1, _2)));
+                                                     m_connection_id, buffer, _1, _2)));
     }
 }
 
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index c4822aa..208ba8d 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -50,11 +50,12 @@ private:
         Connected
     };
 
-    void resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
-    void connect_handler(const asio::error_code& ec);
-    void read_handler(const asio::error_code& ec, std::size_t bytes_transferred);
-    void write_handler(const std::shared_ptr<ser4cpp::Buffer>& buffer, const asio::error_code& ec, std::size_t bytes_transferred);
+    void resolve_handler(unsigned int connection_id, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
+    void connect_handler(unsigned int connection_id, const asio::error_code& ec);
+    void read_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred);
+    void write_handler(unsigned int connection_id, const std::shared_ptr<ser4cpp::Buffer>& buffer, const asio::error_code& ec, std::size_t bytes_transferred);
 
+    void disconnect();
     void begin_read();
     void send_buffer();
     void send_error(const std::string& message);
@@ -70,6 +71,7 @@ private:
     ConnectionStatus m_current_connection_status;
     std::array<uint8_t, 4096> m_read_buffer;
     std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
+    unsigned int m_connection_id;
     bool m_is_writing;
 
     std::weak_ptr<IConnectionListener> m_connection_listener;
-- 
2.43.0


From bd10a66930c09f28278f39fbc6b3752e4ab2fcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 08/13] fix: client connection reports the end of the stream

When the peer closed the connection, the listener was not told: the request
in progress waited for its timeout and a partially received frame was glued to
the first bytes of the next connection.
---
 lib/src/client/channel/AsioClientTcpConnection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 9cf3eab..85434ef 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -154,6 +154,7 @@ void AsioClientTcpConnection::read_handler(unsigned int connection_id, const asi
         {
             m_logger->info("Connection gracefully closed by peer.");
             disconnect();
+            send_error(ec.message());
         }
         else
         {
-- 
2.43.0


From 0b4bb0efe694c4887ce928f888b903d5ca3b1406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 09/13] fix: client connection reports failures to set up its
 socket

An invalid adapter or a failing open or bind was only logged and left the
socket open: every later send failed too, silently.
---
 .../client/channel/AsioClientTcpConnection.cpp | 18 +++++++++++++++---
 .../client/channel/AsioClientTcpConnection.h   |  1 +
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 85434ef..6da34af 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -59,16 +59,16 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
         // Connect to the proper adapter
         asio::error_code ec{};
         const auto address = asio::ip::address::from_string(m_adapter.empty() ? "0.0.0.0" : m_adapter, ec);
-        if(ec) { m_logger->error("from_address error: {}", ec.message()); return; }
+        if(ec) { m_logger->error("from_address error: {}", ec.message()); fail_connection(ec.message()); return; }
 
         asio::ip::tcp::endpoint endpoint{};
         endpoint.address(address);
         endpoint.port(0);
         m_tcp_socket.open(asio::ip::tcp::v4(), ec);
-        if(ec) { m_logger->error("socket open error: {}", ec.message()); return; }
+        if(ec) { m_logger->error("socket open error: {}", ec.message()); fail_connection(ec.message()); return; }
 
         m_tcp_socket.bind(endpoint, ec);
-        if(ec) { m_logger->error("socket bind error: {}", ec.message()); return; }
+        if(ec) { m_logger->error("socket bind error: {}", ec.message()); fail_connection(ec.message()); return; }
 
         // Start connecting
         m_current_connection_status = ConnectionStatus::Connecting;
@@ -220,6 +220,18 @@ void AsioClientTcpConnection::disconnect()
     }
 }
 
+void AsioClientTcpConnection::fail_connection(const std::string& message)
+{
+    // Called by send(): the listener must not be called back from there
+    m_current_connection_status = ConnectionStatus::Connecting;
+    m_executor->post([this, self = shared_from_this(), connection_id = m_connection_id, message] () {
+        if(m_is_shutdown || connection_id != m_connection_id) return;
+
+        disconnect();
+        send_error(message);
+    });
+}
+
 void AsioClientTcpConnection::begin_read()
 {
     if(m_is_shutdown) return;
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 208ba8d..3822f04 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -56,6 +56,7 @@ private:
     void write_handler(unsigned int connection_id, const std::shared_ptr<ser4cpp::Buffer>& buffer, const asio::error_code& ec, std::size_t bytes_transferred);
 
     void disconnect();
+    void fail_connection(const std::string& message);
     void begin_read();
     void send_buffer();
     void send_error(const std::string& message);
-- 
2.43.0


From e78c39ade9a0485575dcc9ab60226169e1111193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 10/13] fix: server connection sends every response, whole and
 in order

A response to a pipelined request replaced the buffer of the one still being
written, two writes could overlap, and async_send may write only a part.
---
 .../channel/AsioServerTcpConnection.cpp       | 22 ++++++++++++-------
 .../server/channel/AsioServerTcpConnection.h  |  3 ++-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/lib/src/server/channel/AsioServerTcpConnection.cpp b/lib/src/server/channel/AsioServerTcpConnection.cpp
index ff301bf..935afb2 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.cpp
+++ b/lib/src/server/channel/AsioServerTcpConnection.cpp
@@ -46,8 +46,11 @@ void AsioServerTcpConnection::send(const ser4cpp::rseq_t& data)
 {
     if(m_is_shutdown) return;
 
-    m_write_buffer = std::make_unique<ser4cpp::Buffer>(data);
-    send_buffer();
+    m_write_buffers.emplace_back(data);
+    if(m_write_buffers.size() == 1)
+    {
+        send_buffer();
+    }
 }
 
 void AsioServerTcpConnection::close()
@@ -135,7 +138,8 @@ void AsioServerTcpConnection::write_handler(const std::error_code& ec, std::size
 
     m_logger->debug("Sent {} bytes", bytes_transferred);
 
-    m_write_buffer = nullptr;
+    m_write_buffers.pop_front();
+    send_buffer();
 
     if(m_connection_listener)
     {
@@ -160,12 +164,14 @@ void AsioServerTcpConnection::send_buffer()
 {
     if(m_is_shutdown) return;
 
-    if(m_write_buffer && m_is_connected)
+    // The buffer stays at the front, alive and unchanged, until its write completes
+    if(!m_write_buffers.empty() && m_is_connected)
     {
-        m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
-                                m_executor->wrap(std::bind(&AsioServerTcpConnection::write_handler,
-                                                        std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
-                                                        _1, _2)));
+        asio::async_write(m_tcp_socket,
+                          asio::buffer(m_write_buffers.front().as_rslice(), m_write_buffers.front().length()),
+                          m_executor->wrap(std::bind(&AsioServerTcpConnection::write_handler,
+                                                     std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
+                                                     _1, _2)));
     }
 }
 
diff --git a/lib/src/server/channel/AsioServerTcpConnection.h b/lib/src/server/channel/AsioServerTcpConnection.h
index f5570ed..0590b73 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.h
+++ b/lib/src/server/channel/AsioServerTcpConnection.h
@@ -17,6 +17,7 @@
 #define MODBUS_ASIOSERVERTCPCONNECTION_H
 
 #include <array>
+#include <list>
 #include "exe4cpp/asio/StrandExecutor.h"
 #include "ser4cpp/container/Buffer.h"
 
@@ -62,7 +63,7 @@ private:
     bool m_is_shutdown;
     bool m_is_connected;
     std::array<uint8_t, 4096> m_read_buffer;
-    std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
+    std::list<ser4cpp::Buffer> m_write_buffers;
 
     std::shared_ptr<IConnectionListener> m_connection_listener;
 };
-- 
2.43.0


From 578a22c79596eb786e0ee913f2bbe1fb3818f8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 11/13] fix: server keeps accepting after a failed accept

A failed accept decremented the number of connections it had never counted
(to 4294967295 when there were none, which evicted every later connection)
and no further accept was started.
---
 lib/src/server/channel/AsioServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/server/channel/AsioServer.cpp b/lib/src/server/channel/AsioServer.cpp
index 32e1cd0..135ae6a 100644
--- a/lib/src/server/channel/AsioServer.cpp
+++ b/lib/src/server/channel/AsioServer.cpp
@@ -84,7 +84,9 @@ void AsioServer::handle_accept(std::shared_ptr<AsioServerTcpConnection> connecti
 
     if(ec)
     {
-        remove_connection(connection);
+        // Not counted yet, and other clients must still be able to connect
+        m_connections.remove(connection);
+        start_accept();
         return;
     }
 
-- 
2.43.0


From 3d52f1904cc84dabf10ea047fb2f3eb4a23fa7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 12/13] fix: shutting the manager down joins its threads

IModbusManager::shutdown() is documented to join all the background threads,
but only its destructor did: callbacks could still run after it returned.
---
 lib/src/ModbusManagerImpl.cpp | 30 ++++++++++++++++++++----------
 lib/src/ModbusManagerImpl.h   |  2 +-
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/lib/src/ModbusManagerImpl.cpp b/lib/src/ModbusManagerImpl.cpp
index 6c101a9..371c7ed 100644
--- a/lib/src/ModbusManagerImpl.cpp
+++ b/lib/src/ModbusManagerImpl.cpp
@@ -29,7 +29,7 @@ namespace modbus
 ModbusManagerImpl::ModbusManagerImpl(std::shared_ptr<Logger> logger, unsigned int number_of_threads)
     : m_io_service{std::make_shared<asio::io_service>()},
       m_logger{std::move(logger)},
-      m_thread_pool{m_io_service, number_of_threads}
+      m_thread_pool{std::make_unique<exe4cpp::ThreadPool>(m_io_service, number_of_threads)}
 {
 
 }
@@ -87,19 +87,29 @@ std::shared_ptr<IServerChannel> ModbusManagerImpl::create_server_tcp_channel(con
 
 void ModbusManagerImpl::shutdown()
 {
-    std::lock_guard<std::mutex> lock(m_mutex);
+    std::unique_ptr<exe4cpp::ThreadPool> thread_pool;
 
-    for(auto channel : m_client_channels)
     {
-        channel->shutdown();
-    }
-    m_client_channels.clear();
+        std::lock_guard<std::mutex> lock(m_mutex);
 
-    for(auto channel : m_server_channels)
-    {
-        channel->shutdown();
+        for(auto channel : m_client_channels)
+        {
+            channel->shutdown();
+        }
+        m_client_channels.clear();
+
+        for(auto channel : m_server_channels)
+        {
+            channel->shutdown();
+        }
+        m_server_channels.clear();
+
+        thread_pool = std::move(m_thread_pool);
     }
-    m_server_channels.clear();
+
+    // The destruction of the pool joins the threads. The mutex must not be held,
+    // because callbacks may still use the manager.
+    thread_pool.reset();
 }
 
 } // namespace modbus
diff --git a/lib/src/ModbusManagerImpl.h b/lib/src/ModbusManagerImpl.h
index 3b62422..4cb54cc 100644
--- a/lib/src/ModbusManagerImpl.h
+++ b/lib/src/ModbusManagerImpl.h
@@ -42,7 +42,7 @@ public:
 private:
     std::shared_ptr<asio::io_service> m_io_service;
     std::shared_ptr<Logger> m_logger;
-    exe4cpp::ThreadPool m_thread_pool;
+    std::unique_ptr<exe4cpp::ThreadPool> m_thread_pool;
 
     std::mutex m_mutex;
     std::vector<std::shared_ptr<IClientChannel>> m_client_channels;
-- 
2.43.0


From d6664dc4a8c241f08139dff97c88a424937d5831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:46 +0000
Subject: [PATCH 13/13] fix: flags and sessions used by several threads are
 synchronised

create_session(), send_request(), add_session(), is_running() and
get_frequency() are called from user threads while the background threads
write what they read.
---
 lib/src/client/channel/ClientChannelTcp.cpp | 11 ++++++++---
 lib/src/client/channel/ClientChannelTcp.h   |  5 ++++-
 lib/src/client/session/ScheduledRequest.h   |  5 +++--
 lib/src/server/channel/ServerChannelTcp.h   |  3 ++-
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 8ae6858..d0b9fe5 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -44,6 +44,7 @@ std::shared_ptr<IClientSession> ClientChannelTcp::create_session(const UnitIdent
 {
     std::shared_ptr<IClientSession> session;
 
+    std::lock_guard<std::mutex> lock(m_sessions_mutex);
     if(!m_is_shutdown)
     {
         session = std::make_shared<ClientSessionImpl>(m_executor,
@@ -95,13 +96,17 @@ void ClientChannelTcp::shutdown()
 {
     m_executor->post([=, self = shared_from_this()] {
         m_logger->info("Shutting down.");
-        m_is_shutdown = true;
+        std::vector<std::shared_ptr<IClientSession>> sessions;
+        {
+            std::lock_guard<std::mutex> lock(m_sessions_mutex);
+            m_is_shutdown = true;
+            sessions.swap(m_sessions);
+        }
 
-        for(auto& session : m_sessions)
+        for(auto& session : sessions)
         {
             session->shutdown();
         }
-        m_sessions.clear();
 
         m_pending_requests.clear();
         m_current_request.reset(nullptr);
diff --git a/lib/src/client/channel/ClientChannelTcp.h b/lib/src/client/channel/ClientChannelTcp.h
index e65e8b0..4beba53 100644
--- a/lib/src/client/channel/ClientChannelTcp.h
+++ b/lib/src/client/channel/ClientChannelTcp.h
@@ -16,8 +16,10 @@
 #ifndef MODBUS_CLIENTCHANNELTCP_H
 #define MODBUS_CLIENTCHANNELTCP_H
 
+#include <atomic>
 #include <deque>
 #include <memory>
+#include <mutex>
 #include "ser4cpp/container/Buffer.h"
 #include "exe4cpp/IExecutor.h"
 
@@ -68,7 +70,8 @@ private:
     std::shared_ptr<Logger> m_logger;
     std::shared_ptr<ITcpConnection> m_tcp_connection;
 
-    bool m_is_shutdown;
+    std::atomic<bool> m_is_shutdown;
+    std::mutex m_sessions_mutex;
     std::vector<std::shared_ptr<IClientSession>> m_sessions;
     MbapParser m_parser;
     std::deque<std::unique_ptr<PendingRequest>> m_pending_requests;
diff --git a/lib/src/client/session/ScheduledRequest.h b/lib/src/client/session/ScheduledRequest.h
index be22e37..ee49d9b 100644
--- a/lib/src/client/session/ScheduledRequest.h
+++ b/lib/src/client/session/ScheduledRequest.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_SCHEDULEDREQUEST_H
 #define MODBUS_SCHEDULEDREQUEST_H
 
+#include <atomic>
 #include <memory>
 #include "exe4cpp/IExecutor.h"
 #include "exe4cpp/Timer.h"
@@ -56,9 +57,9 @@ private:
     std::shared_ptr<exe4cpp::IExecutor> m_executor;
     TRequest m_request;
     duration_t m_timeout;
-    duration_t m_frequency;
+    std::atomic<duration_t> m_frequency;
 
-    bool m_running;
+    std::atomic<bool> m_running;
     unsigned int m_generation;
     exe4cpp::Timer m_timer;
 };
diff --git a/lib/src/server/channel/ServerChannelTcp.h b/lib/src/server/channel/ServerChannelTcp.h
index 18896d7..a3d2dd0 100644
--- a/lib/src/server/channel/ServerChannelTcp.h
+++ b/lib/src/server/channel/ServerChannelTcp.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_SERVERCHANNELTCP_H
 #define MODBUS_SERVERCHANNELTCP_H
 
+#include <atomic>
 #include <memory>
 #include <unordered_map>
 
@@ -55,7 +56,7 @@ private:
     std::shared_ptr<exe4cpp::IExecutor> m_executor;
     std::shared_ptr<IServer> m_server;
 
-    bool m_is_shutdown;
+    std::atomic<bool> m_is_shutdown;
     bool m_is_started;
     std::unordered_map<UnitIdentifier, std::shared_ptr<IServerSession>> m_sessions;
 };
-- 
2.43.0

