#ifndef STANDIN_SUP_LOG_BASIC_LOGGER_H_
#define STANDIN_SUP_LOG_BASIC_LOGGER_H_
#include <functional>
#include <string>
namespace sup
{
namespace log
{
class BasicLogger
{
public:
  using LogFunction = std::function<void(int, const std::string&, const std::string&)>;
  BasicLogger(LogFunction log_function, const std::string& source, int max_severity)
    : m_log_function{std::move(log_function)}, m_source{source}, m_max_severity{max_severity} {}
  int SetMaxSeverity(int s) { int old = m_max_severity; m_max_severity = s; return old; }
  int GetMaxSeverity() const { return m_max_severity; }
  void LogMessage(int severity, const std::string& message) const
  {
    if (severity <= m_max_severity) m_log_function(severity, m_source, message);
  }

private:
  LogFunction m_log_function;
  std::string m_source;
  int m_max_severity;
};
}  // namespace log
}  // namespace sup
#endif
