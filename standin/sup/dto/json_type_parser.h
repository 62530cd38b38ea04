#ifndef STANDIN_SUP_DTO_JSON_TYPE_PARSER_H_
#define STANDIN_SUP_DTO_JSON_TYPE_PARSER_H_
#include <sup/dto/anytype_registry.h>
namespace sup
{
namespace dto
{
class JSONAnyTypeParser
{
public:
  JSONAnyTypeParser();
  bool ParseString(const std::string& str, const AnyTypeRegistry* registry = nullptr);
  bool ParseFile(const std::string& filename, const AnyTypeRegistry* registry = nullptr);
  std::string GetLastError() const { return m_error; }
  AnyType MoveAnyType() { AnyType r = std::move(m_type); m_type = AnyType{}; return r; }

private:
  AnyType m_type;
  std::string m_error;
};
}  // namespace dto
}  // namespace sup
#endif
