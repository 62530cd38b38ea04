#ifndef STANDIN_SUP_XML_EXCEPTIONS_H_
#define STANDIN_SUP_XML_EXCEPTIONS_H_
#include <stdexcept>
namespace sup
{
namespace xml
{
class ParseException : public std::runtime_error
{
public:
  using std::runtime_error::runtime_error;
};
class SerializeException : public std::runtime_error
{
public:
  using std::runtime_error::runtime_error;
};
class InvalidOperationException : public std::runtime_error
{
public:
  using std::runtime_error::runtime_error;
};
class KeyNotAllowedException : public std::runtime_error
{
public:
  using std::runtime_error::runtime_error;
};
}  // namespace xml
}  // namespace sup
#endif
