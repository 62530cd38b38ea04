#ifndef STANDIN_SUP_DTO_ANYVALUE_H_
#define STANDIN_SUP_DTO_ANYVALUE_H_
#include <sup/dto/anytype.h>

#include <initializer_list>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace sup
{
namespace dto
{
// Accesses to an AnyValue object are reported here (the controlled scheduler's race detector
// overrides this weak hook).
extern "C" void standin_access(const void* object, int is_write) __attribute__((weak));

class AnyValue
{
public:
  AnyValue();
  AnyValue(boolean v);
  AnyValue(char8 v);
  AnyValue(int8 v);
  AnyValue(uint8 v);
  AnyValue(int16 v);
  AnyValue(uint16 v);
  AnyValue(int32 v);
  AnyValue(uint32 v);
  AnyValue(int64 v);
  AnyValue(uint64 v);
  AnyValue(float32 v);
  AnyValue(float64 v);
  AnyValue(const std::string& v);
  AnyValue(const char* v);
  AnyValue(std::initializer_list<std::pair<std::string, AnyValue>> members,
           const std::string& name = "");
  AnyValue(std::size_t size, const AnyType& elem_type, const std::string& name = "");
  explicit AnyValue(const AnyType& type);
  AnyValue(const AnyType& type, const AnyValue& value);
  ~AnyValue();
  AnyValue(const AnyValue& other);
  AnyValue(AnyValue&& other) noexcept;
  AnyValue& operator=(const AnyValue& other);
  AnyValue& operator=(AnyValue&& other);

  AnyType GetType() const;
  TypeCode GetTypeCode() const;
  std::string GetTypeName() const;

  AnyValue& AddMember(const std::string& name, const AnyValue& value);
  std::vector<std::string> MemberNames() const;
  std::size_t NumberOfMembers() const;
  AnyValue& AddElement(const AnyValue& value);
  std::size_t NumberOfElements() const;

  bool HasField(const std::string& path) const;
  AnyValue& operator[](const std::string& path);
  const AnyValue& operator[](const std::string& path) const;
  AnyValue& operator[](std::size_t idx);
  const AnyValue& operator[](std::size_t idx) const;

  template <typename T>
  T As() const
  {
    return AsHelper(static_cast<T*>(nullptr));
  }
  template <typename T>
  bool As(T& value) const
  {
    try
    {
      value = As<T>();
    }
    catch (const MessageException&)
    {
      return false;
    }
    return true;
  }
  AnyValue& ConvertFrom(const AnyValue& other);

  bool operator==(const AnyValue& other) const;
  bool operator!=(const AnyValue& other) const;

  struct Data;
  struct Access;

private:
  friend struct Access;
  boolean AsHelper(boolean*) const;
  char8 AsHelper(char8*) const;
  int8 AsHelper(int8*) const;
  uint8 AsHelper(uint8*) const;
  int16 AsHelper(int16*) const;
  uint16 AsHelper(uint16*) const;
  int32 AsHelper(int32*) const;
  uint32 AsHelper(uint32*) const;
  int64 AsHelper(int64*) const;
  uint64 AsHelper(uint64*) const;
  float32 AsHelper(float32*) const;
  float64 AsHelper(float64*) const;
  std::string AsHelper(std::string*) const;
  AnyValue AsHelper(AnyValue*) const;
  std::unique_ptr<Data> m_data;  // nullptr: empty value
  bool m_fixed;                  // type cannot be changed (array elements and their descendants)
};

bool IsEmptyValue(const AnyValue& v);
bool IsStructValue(const AnyValue& v);
bool IsArrayValue(const AnyValue& v);
bool IsScalarValue(const AnyValue& v);
bool TryConvert(AnyValue& dest, const AnyValue& src);
bool TryAssign(AnyValue& dest, const AnyValue& src);
bool TryAssignIfEmptyOrConvert(AnyValue& dest, const AnyValue& src);
AnyValue EmptyStruct(const std::string& name = "");
AnyValue ArrayValue(std::initializer_list<AnyValue> elements, const std::string& name = "");
}  // namespace dto
}  // namespace sup
#endif
