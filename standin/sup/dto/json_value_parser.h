#ifndef STANDIN_SUP_DTO_JSON_VALUE_PARSER_H_
#define STANDIN_SUP_DTO_JSON_VALUE_PARSER_H_
#include <sup/dto/anytype_registry.h>
#include <sup/dto/anyvalue.h>
namespace sup
{
namespace dto
{
class JSONAnyValueParser
{
public:
  JSONAnyValueParser();
  bool ParseString(const std::string& str, const AnyTypeRegistry* registry = nullptr);
  bool ParseFile(const std::string& filename, const AnyTypeRegistry* registry = nullptr);
  bool TypedParseString(const AnyType& type, const std::string& str);
  bool TypedParseFile(const AnyType& type, const std::string& filename);
  std::string GetLastError() const { return m_error; }
  AnyValue MoveAnyValue();

private:
  AnyValue m_value;
  std::string m_error;
};
}  // namespace dto
}  // namespace sup
#endif
