#ifndef STANDIN_SUP_DTO_ANYTYPE_H_
#define STANDIN_SUP_DTO_ANYTYPE_H_
#include <sup/dto/anyvalue_exceptions.h>
#include <sup/dto/basic_scalar_types.h>

#include <initializer_list>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace sup
{
namespace dto
{
enum class TypeCode
{
  Empty = 0, Bool, Char8, Int8, UInt8, Int16, UInt16, Int32, UInt32, Int64, UInt64,
  Float32, Float64, String, Struct, Array
};

class AnyType
{
public:
  AnyType();
  explicit AnyType(TypeCode code);
  AnyType(std::initializer_list<std::pair<std::string, AnyType>> members,
          const std::string& name = "");
  AnyType(std::size_t size, const AnyType& elem_type, const std::string& name = "");
  ~AnyType();
  AnyType(const AnyType& other);
  AnyType(AnyType&& other) noexcept;
  AnyType& operator=(const AnyType& other);
  AnyType& operator=(AnyType&& other) noexcept;

  TypeCode GetTypeCode() const;
  std::string GetTypeName() const;
  AnyType& AddMember(const std::string& name, const AnyType& type);
  std::vector<std::string> MemberNames() const;
  std::size_t NumberOfMembers() const;
  AnyType ElementType() const;
  std::size_t NumberOfElements() const;
  bool HasField(const std::string& path) const;
  const AnyType& operator[](const std::string& path) const;
  bool operator==(const AnyType& other) const;
  bool operator!=(const AnyType& other) const;

  // stand-in internals
  TypeCode m_code;
  std::string m_name;
  std::vector<std::pair<std::string, AnyType>> m_members;
  std::size_t m_size;
  std::shared_ptr<AnyType> m_elem;
};

extern const AnyType EmptyType;
extern const AnyType BooleanType;
extern const AnyType Character8Type;
extern const AnyType SignedInteger8Type;
extern const AnyType UnsignedInteger8Type;
extern const AnyType SignedInteger16Type;
extern const AnyType UnsignedInteger16Type;
extern const AnyType SignedInteger32Type;
extern const AnyType UnsignedInteger32Type;
extern const AnyType SignedInteger64Type;
extern const AnyType UnsignedInteger64Type;
extern const AnyType Float32Type;
extern const AnyType Float64Type;
extern const AnyType StringType;

AnyType EmptyStructType(const std::string& name = "");
}  // namespace dto
}  // namespace sup
#endif
