#ifndef STANDIN_SUP_LOG_DEFAULT_LOGGERS_H_
#define STANDIN_SUP_LOG_DEFAULT_LOGGERS_H_
#include <sup/log/basic_logger.h>
namespace sup
{
namespace log
{
const int SUP_LOG_EMERG = 0;
const int SUP_LOG_ALERT = 1;
const int SUP_LOG_CRIT = 2;
const int SUP_LOG_ERR = 3;
const int SUP_LOG_WARNING = 4;
const int SUP_LOG_NOTICE = 5;
const int SUP_LOG_INFO = 6;
const int SUP_LOG_DEBUG = 7;
const int SUP_LOG_TRACE = 8;

class DefaultLogger
{
public:
  DefaultLogger(BasicLogger::LogFunction f, const std::string& source, int max_severity)
    : m_logger{std::move(f), source, max_severity} {}
  void Emergency(const std::string& m) const { m_logger.LogMessage(0, m); }
  void Alert(const std::string& m) const { m_logger.LogMessage(1, m); }
  void Critical(const std::string& m) const { m_logger.LogMessage(2, m); }
  void Error(const std::string& m) const { m_logger.LogMessage(3, m); }
  void Warning(const std::string& m) const { m_logger.LogMessage(4, m); }
  void Notice(const std::string& m) const { m_logger.LogMessage(5, m); }
  void Info(const std::string& m) const { m_logger.LogMessage(6, m); }
  void Debug(const std::string& m) const { m_logger.LogMessage(7, m); }
  void Trace(const std::string& m) const { m_logger.LogMessage(8, m); }
  int SetMaxSeverity(int s) { return m_logger.SetMaxSeverity(s); }

private:
  BasicLogger m_logger;
};
std::string DefaultStdoutLogMessage(int severity, const std::string& source,
                                    const std::string& message);
DefaultLogger CreateDefaultStdoutLogger(const std::string& source);
DefaultLogger CreateDefaultSysLogger(const std::string& source);
// For the checks: where messages for the system log go (standard output if not set).
BasicLogger::LogFunction& SysLogSink();
}  // namespace log
}  // namespace sup
#endif
