#ifndef STANDIN_SUP_DTO_ANYTYPE_HELPER_H_
#define STANDIN_SUP_DTO_ANYTYPE_HELPER_H_
#include <sup/dto/anytype.h>
namespace sup
{
namespace dto
{
std::string AnyTypeToJSONString(const AnyType& type, bool pretty = false);
AnyType AnyTypeFromJSONString(const std::string& json);
}  // namespace dto
}  // namespace sup
#endif
