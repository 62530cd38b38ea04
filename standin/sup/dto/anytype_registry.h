#ifndef STANDIN_SUP_DTO_ANYTYPE_REGISTRY_H_
#define STANDIN_SUP_DTO_ANYTYPE_REGISTRY_H_
#include <sup/dto/anytype.h>

#include <map>
namespace sup
{
namespace dto
{
class AnyTypeRegistry
{
public:
  AnyTypeRegistry();
  ~AnyTypeRegistry();
  void RegisterType(const AnyType& type);
  void RegisterType(const std::string& name, const AnyType& type);
  bool HasType(const std::string& name) const;
  AnyType GetType(const std::string& name) const;

private:
  std::map<std::string, AnyType> m_types;
};
}  // namespace dto
}  // namespace sup
#endif
