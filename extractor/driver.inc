// instantiates the members of the library's templates that no source file uses,
// so that the resolved program contains them
#include "modbus/Expected.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/messages/ReadCoilsResponse.h"
#include "logging/Logger.h"
namespace modbus_sa_driver
{
using Payload = modbus::ReadCoilsResponse;
inline void use()
{
    Payload p;
    modbus::Expected<Payload> a{p};
    modbus::Expected<Payload> b{Payload{}};
    modbus::Expected<Payload> c{a};
    modbus::Expected<Payload> d{static_cast<modbus::Expected<Payload>&&>(c)};
    auto e = modbus::Expected<Payload>::from_exception(modbus::ModbusException{modbus::ExceptionType::IllegalFunction});
    auto f = modbus::Expected<Payload>::from_exception(e.get_exception());
    auto g2 = modbus::Expected<Payload>::from_exception(static_cast<const modbus::IException&>(modbus::TimeoutException{}));
    a.is_valid();
    a.get();
    const auto& g = a;
    g.get();
    a.has_exception<modbus::ModbusException>();
    a.get_exception<modbus::ModbusException>();
    a.has_exception<modbus::TimeoutException>();
    a.get_exception<modbus::TimeoutException>();
}
inline void use(modbus::Logger& l, const char* fmt, const std::string& a, int b)
{
    l.trace(fmt, a, b);
    l.debug(fmt, a, b);
    l.info(fmt, a, b);
    l.warn(fmt, a, b);
    l.error(fmt, a, b);
    l.critical(fmt, a, b);
    l.trace(a);
    l.debug(a);
    l.info(a);
    l.warn(a);
    l.error(a);
    l.critical(a);
    l.clone(a);
    l.clone(a, modbus::LoggingLevel::Info);
}
}
