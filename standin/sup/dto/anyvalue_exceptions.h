#ifndef STANDIN_SUP_DTO_EXCEPTIONS_H_
#define STANDIN_SUP_DTO_EXCEPTIONS_H_
#include <stdexcept>
#include <string>
namespace sup
{
namespace dto
{
class MessageException : public std::runtime_error
{
public:
  using std::runtime_error::runtime_error;
};
#define STANDIN_EXC(N)                              \
  class N : public MessageException                 \
  {                                                 \
  public:                                           \
    using MessageException::MessageException;       \
  };
STANDIN_EXC(InvalidOperationException)
STANDIN_EXC(InvalidConversionException)
STANDIN_EXC(SerializeException)
STANDIN_EXC(ParseException)
#undef STANDIN_EXC
}  // namespace dto
}  // namespace sup
#endif
