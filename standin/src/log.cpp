#include <sup/log/default_loggers.h>
#include <iostream>
namespace sup
{
namespace log
{
std::string DefaultStdoutLogMessage(int severity, const std::string& source,
                                    const std::string& message)
{
  return "[" + std::to_string(severity) + "] " + source + ": " + message;
}
DefaultLogger CreateDefaultStdoutLogger(const std::string& source)
{
  return DefaultLogger([](int s, const std::string& src, const std::string& m)
                       { std::cout << DefaultStdoutLogMessage(s, src, m) << std::endl; },
                       source, SUP_LOG_WARNING);
}
DefaultLogger CreateDefaultSysLogger(const std::string& source)
{
  if (!SysLogSink())
  {
    return CreateDefaultStdoutLogger(source);
  }
  return DefaultLogger([](int s, const std::string& src, const std::string& m) { SysLogSink()(s, src, m); }, source,
                       SUP_LOG_WARNING);
}
BasicLogger::LogFunction& SysLogSink()
{
  static BasicLogger::LogFunction sink;
  return sink;
}
}  // namespace log
}  // namespace sup
