H = 'lib/src/client/session/ScheduledRequest.hpp'
S = 'lib/src/client/session/ClientSessionImpl.cpp'
C = 'lib/src/client/channel/ClientChannelTcp.cpp'
EDITS = [
 ('nostop', 'bad', 'C17', [(H, '            m_running = false;\n', '')]),
 ('nocancel', 'bad', 'C17', [(H, '            m_timer.cancel();\n', '')]),
 ('latefire', 'bad', 'C17', [(H, 'if(is_running() && generation == m_generation)\n                {\n                    execute();\n                }', 'execute();')]),
 ('norun', 'bad', 'C17', [(H, '        if(!m_running)\n        {\n            m_running = true;', '        {\n            m_running = true;')]),
 ('stopflagonly', 'bad', 'C17', [(H, '        if(is_running() && generation == m_generation)\n        {\n            // Start', '        {\n            // Start')]),
 ('onlyvalid', 'bad', 'C17', [(H, 'if(is_running() && generation == m_generation)\n        {\n            // Start', 'if(is_running() && generation == m_generation && response.is_valid())\n        {\n            // Start')]),
 ('timeoutasperiod', 'bad', 'C17', [(H, 'm_executor->start(m_frequency,', 'm_executor->start(m_timeout,')]),
 ('capturedfreq', 'bad', 'C17', [(H, 'const auto generation = m_generation;', 'const auto generation = m_generation; const auto fr = m_frequency.load();'), (H, 'm_executor->start(m_frequency,', 'm_executor->start(fr,')]),
 ('handlerlate', 'bad', 'C17', [(H, '        m_handler(response);\n', '        if(is_running()) m_handler(response);\n')]),
 ('setfreqref', 'bad', 'C17', [(H, '    m_executor->post([=, self = shared_from_this()]() {\n        m_frequency = frequency;', '    m_executor->post([this, &frequency, self = shared_from_this()]() {\n        m_frequency = frequency;')]),
 ('sesnoshut', 'bad', 'C17', [(S, '            req->stop();', '            (void)req;')]),
 ('sesnoadd', 'bad', 'C17', [(S, '        m_scheduled_requests.push_back(scheduled_request);', '        (void)scheduled_request;')]),
 ('shutfirst', 'bad', 'C17', [(S, '        for(auto& req : m_scheduled_requests)', '        m_scheduled_requests.clear();\n        for(auto& req : m_scheduled_requests)')]),
 ('swap', 'bad', 'C16 C17', [(S, '                                                                                     timeout,\n                                                                                     frequency);', '                                                                                     frequency,\n                                                                                     timeout);')]),
 ('dflt1', 'bad', 'C16', [(S, 'meta_send_request<ReadInputRegistersRequestImpl, ReadInputRegistersResponseImpl>(request, timeout, handler)', 'meta_send_request<ReadInputRegistersRequestImpl, ReadInputRegistersResponseImpl>(request, m_default_timeout, handler)')]),
 ('swapdefault', 'bad', 'C16', [(S, '                                                                       const duration_t& frequency,\n                                                                       ResponseHandler<ReadInputRegistersResponse> handler)\n{\n    return schedule_request(request, m_default_timeout, frequency, handler);', '                                                                       const duration_t& frequency,\n                                                                       ResponseHandler<ReadInputRegistersResponse> handler)\n{\n    return schedule_request(request, frequency, m_default_timeout, handler);')]),
 ('refcapture', 'bad', 'C16', [(S, 'timeout, [=, self = shared_from_this()](const Expected<ser4cpp::rseq_t>', 'timeout, [=, &request_impl, self = shared_from_this()](const Expected<ser4cpp::rseq_t>')]),
 ('swallow', 'bad', 'C16', [(S, '            handler(Expected<TResponse>::from_exception(response.get_exception()));', '            if(!response.has_exception<TimeoutException>()) handler(Expected<TResponse>::from_exception(response.get_exception()));')]),
 ('wrongexc', 'bad', 'C16', [(S, 'from_exception(response.get_exception())', 'from_exception(TimeoutException{})')]),
 ('twicecall', 'bad', 'C16', [(S, '            handler(TResponseImpl::parse(request_impl, response.get()));', '            handler(TResponseImpl::parse(request_impl, response.get()));\n            if(!TResponseImpl::parse(request_impl, response.get()).is_valid()) handler(TResponseImpl::parse(request_impl, response.get()));')]),
 ('skipbyte', 'bad', 'C16', [(S, 'response.get()));', 'response.get().skip(response.get().length() > 250 ? 1 : 0)));')]),
 ('ok_helper', 'ok', 'C16 C17', [(S, '        if(!response.is_valid())\n        {\n            handler(Expected<TResponse>::from_exception(response.get_exception()));\n        }\n        else\n        {\n            handler(TResponseImpl::parse(request_impl, response.get()));\n        }', '        handler(response.is_valid() ? TResponseImpl::parse(request_impl, response.get()) : Expected<TResponse>::from_exception(response.get_exception()));')]),
 ('ok_early', 'ok', 'C17', [(H, '        if(m_running)\n        {\n            m_running = false;\n            m_timer.cancel();\n        }', '        if(!m_running) return;\n        m_timer.cancel();\n        m_running = false;')]),
 ('ok_lambda', 'ok', 'C17', [(H, '        if(is_running() && generation == m_generation)\n        {', '        const bool current = generation == m_generation;\n        if(!m_running || !current) return;\n        {')]),
 ('ok_thiscapture', 'ok', 'C17', [(H, '[=, self2 = self]() {', '[this, self2 = self, generation]() {')]),
 ('ok_stopdirect', 'ok', 'C17', [(S, '        for(auto& req : m_scheduled_requests)\n        {\n            req->stop();\n        }', '        std::for_each(m_scheduled_requests.begin(), m_scheduled_requests.end(), [](const std::shared_ptr<IScheduledRequest>& r) { r->stop(); });'), (S, '#include "client/session/ClientSessionImpl.h"', '#include "client/session/ClientSessionImpl.h"\n#include <algorithm>')]),
 ('ok_swapclear', 'ok', 'C17', [(S, '        for(auto& req : m_scheduled_requests)\n        {\n            req->stop();\n        }\n\n        m_scheduled_requests.clear();', '        auto all = std::move(m_scheduled_requests);\n        m_scheduled_requests.clear();\n        for(std::size_t i = 0; i < all.size(); ++i) all[i]->stop();')]),
]
