C = 'lib/src/client/channel/AsioClientTcpConnection.cpp'
S = 'lib/src/server/channel/AsioServer.cpp'
IM = 'lib/src/IModbusManager.cpp'
M = 'lib/src/ModbusManagerImpl.cpp'
EDITS = [
 ('port_const', 'bad', 'C38', [(C, 'std::to_string(m_ip_endpoint.get_port())', 'std::to_string(502)')]),
 ('port_trunc', 'bad', 'C38', [(C, 'std::to_string(m_ip_endpoint.get_port())', 'std::to_string(static_cast<uint8_t>(m_ip_endpoint.get_port()))')]),
 ('host_adapter', 'bad', 'C38', [(C, 'query query{m_ip_endpoint.get_hostname(),', 'query query{m_adapter,')]),
 ('adapter_flip', 'bad', 'C38', [(C, 'm_adapter.empty() ? "0.0.0.0" : m_adapter', 'm_adapter.empty() ? m_adapter : "0.0.0.0"')]),
 ('adapter_ignored', 'bad', 'C38', [(C, 'm_adapter.empty() ? "0.0.0.0" : m_adapter', '"0.0.0.0"')]),
 ('adapter_always', 'bad', 'C38', [(C, 'm_adapter.empty() ? "0.0.0.0" : m_adapter', 'm_adapter')]),
 ('adapter_loop', 'bad', 'C38', [(C, 'm_adapter.empty() ? "0.0.0.0" : m_adapter', 'm_adapter.empty() ? "127.0.0.1" : m_adapter')]),
 ('adapter_noaddr', 'bad', 'C38', [(C, '        endpoint.address(address);\n', '')]),
 ('local_port', 'bad', 'C38', [(C, 'endpoint.port(0);', 'endpoint.port(static_cast<unsigned short>(m_ip_endpoint.get_port()));')]),
 ('adapter_ok', 'ok', 'C38', [(C, '''        asio::ip::tcp::endpoint endpoint{};
        endpoint.address(address);
        endpoint.port(0);''', '''        const asio::ip::tcp::endpoint endpoint{address, 0};''')]),
 ('adapter_ok2', 'ok', 'C38', [(C, 'const auto address = asio::ip::address::from_string(m_adapter.empty() ? "0.0.0.0" : m_adapter, ec);', '''std::string local{"0.0.0.0"};
        if(!m_adapter.empty()) { local = m_adapter; }
        const auto address = asio::ip::address::from_string(local, ec);''')]),
 ('query_ok', 'ok', 'C38', [(C, 'asio::ip::tcp::resolver::query query{m_ip_endpoint.get_hostname(), std::to_string(m_ip_endpoint.get_port())};', '''const auto& host = m_ip_endpoint.get_hostname();
        const auto port = std::to_string(m_ip_endpoint.get_port());
        const asio::ip::tcp::resolver::query query{host, port};''')]),
 ('srv_port', 'bad', 'C38', [(S, 'static_cast<unsigned short>(endpoint.get_port())', 'static_cast<unsigned char>(endpoint.get_port())')]),
 ('srv_port_or', 'bad', 'C38', [(S, 'static_cast<unsigned short>(endpoint.get_port())', 'static_cast<unsigned short>(endpoint.get_port() & 0x7FFF)')]),
 ('srv_any', 'bad', 'C38', [(S, 'asio::ip::address::from_string(endpoint.get_hostname())', 'asio::ip::address::from_string("0.0.0.0")')]),
 ('thr_min', 'bad', 'C38', [(IM, 'std::max(1u, number_of_threads)', 'std::min(1u, number_of_threads)')]),
 ('thr_none', 'bad', 'C38', [(IM, '    number_of_threads = std::max(1u, number_of_threads);\n', '')]),
 ('thr_one', 'bad', 'C38', [(IM, 'std::make_unique<ModbusManagerImpl>(logger, number_of_threads)', 'std::make_unique<ModbusManagerImpl>(logger, 1u)')]),
 ('thr_two', 'bad', 'C38', [(IM, 'std::max(1u, number_of_threads)', 'std::max(2u, number_of_threads)')]),
 ('thr_ok', 'ok', 'C38', [(IM, 'number_of_threads = std::max(1u, number_of_threads);', 'if(number_of_threads == 0) { number_of_threads = 1; }')]),
 ('thr_impl', 'bad', 'C38', [(M, 'm_io_service, number_of_threads)}', 'm_io_service, number_of_threads - 1)}')]),
]
L = 'lib/src/logging/Logger.h'
LF = 'lib/src/logging/LoggerFactory.cpp'
LC = 'lib/src/logging/LoggingLevelConversion.h'
EDITS += [
 ('lg_map', 'bad', 'C35', [(LC, 'case LoggingLevel::Warn: return spdlog::level::warn;', 'case LoggingLevel::Warn: return spdlog::level::err;')]),
 ('lg_fall', 'bad', 'C35', [(LC, '        case LoggingLevel::Critical: return spdlog::level::critical;\n', '')]),
 ('lg_map_ok', 'ok', 'C35', [(LC, 'case LoggingLevel::Critical: return spdlog::level::critical;', 'case LoggingLevel::Critical: { const auto level = spdlog::level::critical; return level; }')]),
 ('lg_meth', 'bad', 'C35', [(L, 'm_logger_impl->error(fmt, arg1, args...);', 'm_logger_impl->warn(fmt, arg1, args...);')]),
 ('lg_meth1', 'bad', 'C35', [(L, '{ m_logger_impl->critical(msg); }', '{ m_logger_impl->error(msg); }')]),
 ('lg_args', 'bad', 'C35', [(L, 'm_logger_impl->info(fmt, arg1, args...);', 'm_logger_impl->info(fmt, args..., arg1);')]),
 ('lg_twice', 'bad', 'C35', [(L, '{ m_logger_impl->debug(msg); }', '{ m_logger_impl->debug(msg); m_logger_impl->debug(msg); }')]),
 ('lg_log_ok', 'ok', 'C35', [(L, '{ m_logger_impl->debug(msg); }', '{ m_logger_impl->log(spdlog::level::debug, msg); }')]),
 ('lg_clone_level', 'bad', 'C35', [(L, '        spd_logger->set_level(to_spdlog_level(level));\n', '')]),
 ('lg_clone_own', 'bad', 'C35', [(L, 'spd_logger->set_level(to_spdlog_level(level));', 'm_logger_impl->set_level(to_spdlog_level(level));')]),
 ('lg_clone_sinks', 'bad', 'C35', [(L, '(name, m_logger_impl->sinks().begin(), m_logger_impl->sinks().end());\n        spd_logger', '(name);\n        spd_logger')]),
 ('lg_clone_ok', 'ok', 'C35', [(L, '(name, m_logger_impl->sinks().begin(), m_logger_impl->sinks().end());\n        spd_logger', '(name, std::begin(m_logger_impl->sinks()), std::end(m_logger_impl->sinks()));\n        spd_logger')]),
 ('lf_level', 'bad', 'C35', [(LF, '    auto spd_logger = spdlog::stdout_color_mt(name);\n    spd_logger->set_level(to_spdlog_level(level));', '    auto spd_logger = spdlog::stdout_color_mt(name);')]),
 ('lf_null', 'bad', 'C35', [(LF, 'auto null_sink = std::make_shared<spdlog::sinks::null_sink_st>();\n    auto spd_logger = std::make_shared<spdlog::logger>(name, null_sink);', 'auto spd_logger = spdlog::stdout_color_mt(name);')]),
 ('lf_custom', 'bad', 'C35', [(LF, '    custom_logger->set_level(to_spdlog_level(level));\n', '')]),
 ('mg_level', 'bad', 'C35', [(M, 'm_logger->clone(name, level)', 'm_logger->clone(name, LoggingLevel::Info)')]),
 ('mg_nolevel', 'bad', 'C35', [(M, 'm_logger->clone(name, level)', 'm_logger->clone(name)')]),
]
