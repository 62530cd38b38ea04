#ifndef STANDIN_SUP_DTO_ANYVALUE_OPERATIONS_H_
#define STANDIN_SUP_DTO_ANYVALUE_OPERATIONS_H_
#include <sup/dto/anyvalue.h>
namespace sup
{
namespace dto
{
enum class CompareResult { Less, Equivalent, Greater, Unordered };
CompareResult Compare(const AnyValue& lhs, const AnyValue& rhs);
bool Increment(AnyValue& v);
bool Decrement(AnyValue& v);
}  // namespace dto
}  // namespace sup
#endif
