#ifndef STANDIN_SUP_DTO_ANYVALUE_HELPER_H_
#define STANDIN_SUP_DTO_ANYVALUE_HELPER_H_
#include <sup/dto/anyvalue.h>
namespace sup
{
namespace dto
{
std::string PrintAnyValue(const AnyValue& value);
std::string AnyValueToJSONString(const AnyValue& value, bool pretty = false);
std::string ValuesToJSONString(const AnyValue& value, bool pretty = false);
void AnyValueToJSONFile(const AnyValue& value, const std::string& filename, bool pretty = false);
AnyValue AnyValueFromJSONString(const std::string& json);
AnyValue AnyValueFromJSONFile(const std::string& filename);
}  // namespace dto
}  // namespace sup
#endif
