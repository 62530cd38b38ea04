// Stand-in implementation of the part of sup-dto used by oac-tree.
#include <sup/dto/anytype_helper.h>
#include <sup/dto/anytype_registry.h>
#include <sup/dto/anyvalue.h>
#include <sup/dto/anyvalue_helper.h>
#include <sup/dto/anyvalue_operations.h>
#include <sup/dto/json_type_parser.h>
#include <sup/dto/json_value_parser.h>

#include <cerrno>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>

namespace sup
{
namespace dto
{
namespace
{
struct ScalarInfo
{
  TypeCode code;
  const char* name;
};
const ScalarInfo kScalars[] = {
  {TypeCode::Bool, "bool"},       {TypeCode::Char8, "char8"},     {TypeCode::Int8, "int8"},
  {TypeCode::UInt8, "uint8"},     {TypeCode::Int16, "int16"},     {TypeCode::UInt16, "uint16"},
  {TypeCode::Int32, "int32"},     {TypeCode::UInt32, "uint32"},   {TypeCode::Int64, "int64"},
  {TypeCode::UInt64, "uint64"},   {TypeCode::Float32, "float32"}, {TypeCode::Float64, "float64"},
  {TypeCode::String, "string"}};

std::string ScalarName(TypeCode code)
{
  for (const auto& s : kScalars)
  {
    if (s.code == code)
    {
      return s.name;
    }
  }
  return "";
}

bool IsArithmetic(TypeCode c)
{
  return c >= TypeCode::Bool && c <= TypeCode::Float64;
}
bool IsSigned(TypeCode c)
{
  return c == TypeCode::Char8 || c == TypeCode::Int8 || c == TypeCode::Int16
         || c == TypeCode::Int32 || c == TypeCode::Int64;
}
bool IsFloat(TypeCode c)
{
  return c == TypeCode::Float32 || c == TypeCode::Float64;
}

// Splits the first component off a field path: "a.b[2]" -> "a" + "b[2]", "[1].x" -> "[1]" + "x".
bool SplitPath(const std::string& path, std::string& first, std::string& rest)
{
  if (path.empty())
  {
    return false;
  }
  if (path[0] == '[')
  {
    auto end = path.find(']');
    if (end == std::string::npos)
    {
      return false;
    }
    first = path.substr(0, end + 1);
    rest = path.substr(end + 1);
    if (!rest.empty() && rest[0] == '.')
    {
      rest = rest.substr(1);
      if (rest.empty())
      {
        return false;
      }
    }
    return true;
  }
  auto pos = path.find_first_of(".[");
  first = path.substr(0, pos);
  rest = pos == std::string::npos ? "" : path.substr(pos);
  if (!rest.empty() && rest[0] == '.')
  {
    rest = rest.substr(1);
    if (rest.empty())
    {
      return false;
    }
  }
  return !first.empty();
}

bool ParseIndex(const std::string& comp, std::size_t& idx)
{
  if (comp.size() < 3 || comp.front() != '[' || comp.back() != ']')
  {
    return false;
  }
  idx = 0;
  for (std::size_t i = 1; i + 1 < comp.size(); ++i)
  {
    if (comp[i] < '0' || comp[i] > '9')
    {
      return false;
    }
    idx = idx * 10 + static_cast<std::size_t>(comp[i] - '0');
  }
  return true;
}

bool ValidMemberName(const std::string& name)
{
  return !name.empty() && name.find_first_of(" \t\n.[]\"\\") == std::string::npos;
}
}  // unnamed namespace

// ---------------------------------------------------------------- AnyType

AnyType::AnyType() : m_code{TypeCode::Empty}, m_size{0} {}
AnyType::AnyType(TypeCode code) : m_code{code}, m_name{ScalarName(code)}, m_size{0} {}
AnyType::AnyType(std::initializer_list<std::pair<std::string, AnyType>> members,
                 const std::string& name)
  : m_code{TypeCode::Struct}, m_name{name}, m_size{0}
{
  for (const auto& m : members)
  {
    AddMember(m.first, m.second);
  }
}
AnyType::AnyType(std::size_t size, const AnyType& elem_type, const std::string& name)
  : m_code{TypeCode::Array}, m_name{name}, m_size{size}
  , m_elem{std::make_shared<AnyType>(elem_type)}
{
  if (elem_type.m_code == TypeCode::Empty)
  {
    throw InvalidOperationException("Empty type is not allowed as element type");
  }
}
AnyType::~AnyType() = default;
AnyType::AnyType(const AnyType& other) = default;
AnyType::AnyType(AnyType&& other) noexcept = default;
AnyType& AnyType::operator=(const AnyType& other) = default;
AnyType& AnyType::operator=(AnyType&& other) noexcept = default;
TypeCode AnyType::GetTypeCode() const { return m_code; }
std::string AnyType::GetTypeName() const { return m_name; }
AnyType& AnyType::AddMember(const std::string& name, const AnyType& type)
{
  if (m_code != TypeCode::Struct || !ValidMemberName(name) || type.m_code == TypeCode::Empty)
  {
    throw InvalidOperationException("AddMember: not possible");
  }
  for (const auto& m : m_members)
  {
    if (m.first == name)
    {
      throw InvalidOperationException("AddMember: duplicate member");
    }
  }
  m_members.emplace_back(name, type);
  return *this;
}
std::vector<std::string> AnyType::MemberNames() const
{
  std::vector<std::string> result;
  for (const auto& m : m_members)
  {
    result.push_back(m.first);
  }
  return result;
}
std::size_t AnyType::NumberOfMembers() const { return m_members.size(); }
AnyType AnyType::ElementType() const { return m_elem ? *m_elem : AnyType{}; }
std::size_t AnyType::NumberOfElements() const { return m_size; }

static const AnyType* TypeAt(const AnyType& type, const std::string& path)
{
  const AnyType* cur = &type;
  std::string rest = path;
  while (!rest.empty())
  {
    std::string first, next;
    if (!SplitPath(rest, first, next))
    {
      return nullptr;
    }
    if (first[0] == '[')
    {
      if (cur->m_code != TypeCode::Array || first != "[]")
      {
        return nullptr;
      }
      cur = cur->m_elem.get();
    }
    else
    {
      const AnyType* found = nullptr;
      for (const auto& m : cur->m_members)
      {
        if (m.first == first)
        {
          found = &m.second;
        }
      }
      cur = found;
    }
    if (cur == nullptr)
    {
      return nullptr;
    }
    rest = next;
  }
  return cur;
}
bool AnyType::HasField(const std::string& path) const
{
  return !path.empty() && TypeAt(*this, path) != nullptr;
}
const AnyType& AnyType::operator[](const std::string& path) const
{
  const AnyType* t = path.empty() ? nullptr : TypeAt(*this, path);
  if (t == nullptr)
  {
    throw InvalidOperationException("AnyType: no such field [" + path + "]");
  }
  return *t;
}
bool AnyType::operator==(const AnyType& other) const
{
  if (m_code != other.m_code || m_name != other.m_name || m_size != other.m_size
      || m_members.size() != other.m_members.size() || !m_elem != !other.m_elem)
  {
    return false;
  }
  if (m_elem && *m_elem != *other.m_elem)
  {
    return false;
  }
  for (std::size_t i = 0; i < m_members.size(); ++i)
  {
    if (m_members[i].first != other.m_members[i].first
        || m_members[i].second != other.m_members[i].second)
    {
      return false;
    }
  }
  return true;
}
bool AnyType::operator!=(const AnyType& other) const { return !(*this == other); }

// Initialized before ordinary static initialization: oac-tree has namespace scope constants that
// use them.
#define EARLY __attribute__((init_priority(200)))
EARLY const AnyType EmptyType{TypeCode::Empty};
EARLY const AnyType BooleanType{TypeCode::Bool};
EARLY const AnyType Character8Type{TypeCode::Char8};
EARLY const AnyType SignedInteger8Type{TypeCode::Int8};
EARLY const AnyType UnsignedInteger8Type{TypeCode::UInt8};
EARLY const AnyType SignedInteger16Type{TypeCode::Int16};
EARLY const AnyType UnsignedInteger16Type{TypeCode::UInt16};
EARLY const AnyType SignedInteger32Type{TypeCode::Int32};
EARLY const AnyType UnsignedInteger32Type{TypeCode::UInt32};
EARLY const AnyType SignedInteger64Type{TypeCode::Int64};
EARLY const AnyType UnsignedInteger64Type{TypeCode::UInt64};
EARLY const AnyType Float32Type{TypeCode::Float32};
EARLY const AnyType Float64Type{TypeCode::Float64};
EARLY const AnyType StringType{TypeCode::String};

AnyType EmptyStructType(const std::string& name)
{
  AnyType result;
  result.m_code = TypeCode::Struct;
  result.m_name = name;
  return result;
}

// ---------------------------------------------------------------- AnyValue

struct AnyValue::Data
{
  TypeCode code = TypeCode::Empty;
  std::string name;
  int64 i = 0;
  uint64 u = 0;
  float64 d = 0;
  std::string s;
  std::vector<std::pair<std::string, std::unique_ptr<AnyValue>>> members;
  std::vector<std::unique_ptr<AnyValue>> elements;
  AnyType elem_type;
};

struct AnyValue::Access
{
  static Data* data(AnyValue& v) { return v.m_data.get(); }
  static const Data* data(const AnyValue& v) { return v.m_data.get(); }
  static bool fixed(const AnyValue& v) { return v.m_fixed; }

  static void r(const void* p)
  {
    if (standin_access)
    {
      standin_access(p, 0);
    }
  }
  static void w(const void* p)
  {
    if (standin_access)
    {
      standin_access(p, 1);
    }
  }

  static void Fix(AnyValue& v)
  {
    v.m_fixed = true;
    if (v.m_data)
    {
      for (auto& m : v.m_data->members)
      {
        Fix(*m.second);
      }
      for (auto& e : v.m_data->elements)
      {
        Fix(*e);
      }
    }
  }

  static std::unique_ptr<Data> Copy(const Data* src)
  {
    if (src == nullptr)
    {
      return {};
    }
    auto dst = std::make_unique<Data>();
    dst->code = src->code;
    dst->name = src->name;
    dst->i = src->i;
    dst->u = src->u;
    dst->d = src->d;
    dst->s = src->s;
    dst->elem_type = src->elem_type;
    for (const auto& m : src->members)
    {
      auto c = std::make_unique<AnyValue>();
      c->m_data = Copy(m.second->m_data.get());
      dst->members.emplace_back(m.first, std::move(c));
    }
    for (const auto& e : src->elements)
    {
      auto c = std::make_unique<AnyValue>();
      c->m_data = Copy(e->m_data.get());
      Fix(*c);
      dst->elements.push_back(std::move(c));
    }
    return dst;
  }

  static const AnyValue* At(const AnyValue& v, const std::string& path)
  {
    const AnyValue* cur = &v;
    std::string rest = path;
    if (rest.empty())
    {
      return nullptr;
    }
    while (!rest.empty())
    {
      std::string first, next;
      if (!SplitPath(rest, first, next) || !cur->m_data)
      {
        return nullptr;
      }
      const Data& d = *cur->m_data;
      const AnyValue* found = nullptr;
      if (first[0] == '[')
      {
        std::size_t idx = 0;
        if (d.code == TypeCode::Array && ParseIndex(first, idx) && idx < d.elements.size())
        {
          found = d.elements[idx].get();
        }
      }
      else if (d.code == TypeCode::Struct)
      {
        for (const auto& m : d.members)
        {
          if (m.first == first)
          {
            found = m.second.get();
          }
        }
      }
      if (found == nullptr)
      {
        return nullptr;
      }
      cur = found;
      rest = next;
    }
    return cur;
  }

  template <typename T>
  static T To(const AnyValue& v)
  {
    const Data* d = v.m_data.get();
    if (d == nullptr || !IsArithmetic(d->code))
    {
      throw InvalidConversionException("As<T>: conversion not possible");
    }
    if (std::is_same<T, bool>::value)
    {
      return static_cast<T>(IsFloat(d->code)    ? d->d != 0
                            : IsSigned(d->code) ? d->i != 0
                                                : d->u != 0);
    }
    if (std::is_floating_point<T>::value)
    {
      return IsFloat(d->code)    ? static_cast<T>(d->d)
             : IsSigned(d->code) ? static_cast<T>(d->i)
                                 : static_cast<T>(d->u);
    }
    bool ok = true;
    if (IsFloat(d->code))
    {
      ok = d->d >= static_cast<double>(std::numeric_limits<T>::lowest())
           && d->d <= static_cast<double>(std::numeric_limits<T>::max());
      if (ok)
      {
        return static_cast<T>(d->d);
      }
    }
    else if (IsSigned(d->code))
    {
      if (d->i < 0)
      {
        ok = std::is_signed<T>::value
             && d->i >= static_cast<int64>(std::numeric_limits<T>::lowest());
      }
      else
      {
        ok = static_cast<uint64>(d->i) <= static_cast<uint64>(std::numeric_limits<T>::max());
      }
      if (ok)
      {
        return static_cast<T>(d->i);
      }
    }
    else
    {
      ok = d->u <= static_cast<uint64>(std::numeric_limits<T>::max());
      if (ok)
      {
        return static_cast<T>(d->u);
      }
    }
    throw InvalidConversionException("As<T>: value out of range");
  }

  // Value of the same type as 'like', holding the converted 'src'.
  static std::unique_ptr<Data> Convert(const Data* like, const AnyValue& src)
  {
    const Data* s = src.m_data.get();
    if (like == nullptr)
    {
      if (s != nullptr)
      {
        throw InvalidConversionException("cannot convert to empty value");
      }
      return {};
    }
    auto result = std::make_unique<Data>();
    result->code = like->code;
    result->name = like->name;
    switch (like->code)
    {
    case TypeCode::Bool: result->u = To<boolean>(src); break;
    case TypeCode::Char8: result->i = To<char8>(src); break;
    case TypeCode::Int8: result->i = To<int8>(src); break;
    case TypeCode::UInt8: result->u = To<uint8>(src); break;
    case TypeCode::Int16: result->i = To<int16>(src); break;
    case TypeCode::UInt16: result->u = To<uint16>(src); break;
    case TypeCode::Int32: result->i = To<int32>(src); break;
    case TypeCode::UInt32: result->u = To<uint32>(src); break;
    case TypeCode::Int64: result->i = To<int64>(src); break;
    case TypeCode::UInt64: result->u = To<uint64>(src); break;
    case TypeCode::Float32: result->d = To<float32>(src); break;
    case TypeCode::Float64: result->d = To<float64>(src); break;
    case TypeCode::String:
      if (s == nullptr || s->code != TypeCode::String)
      {
        throw InvalidConversionException("cannot convert to string");
      }
      result->s = s->s;
      break;
    case TypeCode::Struct:
      if (s == nullptr || s->code != TypeCode::Struct
          || s->members.size() != like->members.size())
      {
        throw InvalidConversionException("cannot convert to structure");
      }
      for (std::size_t i = 0; i < like->members.size(); ++i)
      {
        if (like->members[i].first != s->members[i].first)
        {
          throw InvalidConversionException("cannot convert to structure: member names");
        }
        auto c = std::make_unique<AnyValue>();
        c->m_data = Convert(like->members[i].second->m_data.get(), *s->members[i].second);
        result->members.emplace_back(like->members[i].first, std::move(c));
      }
      break;
    case TypeCode::Array:
      if (s == nullptr || s->code != TypeCode::Array
          || s->elements.size() != like->elements.size())
      {
        throw InvalidConversionException("cannot convert to array");
      }
      result->elem_type = like->elem_type;
      for (std::size_t i = 0; i < like->elements.size(); ++i)
      {
        auto c = std::make_unique<AnyValue>();
        c->m_data = Convert(like->elements[i]->m_data.get(), *s->elements[i]);
        Fix(*c);
        result->elements.push_back(std::move(c));
      }
      break;
    default:
      throw InvalidConversionException("cannot convert");
    }
    return result;
  }

  static std::unique_ptr<Data> Make(const AnyType& type)
  {
    if (type.m_code == TypeCode::Empty)
    {
      return {};
    }
    auto result = std::make_unique<Data>();
    result->code = type.m_code;
    result->name = type.m_name;
    for (const auto& m : type.m_members)
    {
      auto c = std::make_unique<AnyValue>();
      c->m_data = Make(m.second);
      result->members.emplace_back(m.first, std::move(c));
    }
    if (type.m_code == TypeCode::Array)
    {
      result->elem_type = *type.m_elem;
      for (std::size_t i = 0; i < type.m_size; ++i)
      {
        auto c = std::make_unique<AnyValue>();
        c->m_data = Make(*type.m_elem);
        Fix(*c);
        result->elements.push_back(std::move(c));
      }
    }
    return result;
  }

  static void Grow(AnyValue& v, std::size_t n)
  {
    auto& d = *v.m_data;
    while (d.elements.size() < n)
    {
      d.elements.push_back(std::make_unique<AnyValue>(d.elem_type));
      Fix(*d.elements.back());
    }
  }

  static void Store(AnyValue& v, std::unique_ptr<Data> data)
  {
    bool fixed = v.m_fixed;
    v.m_data = std::move(data);
    if (fixed)
    {
      Fix(v);
    }
  }
};

using A = AnyValue::Access;

AnyValue::AnyValue() : m_data{}, m_fixed{false} {}

static std::unique_ptr<AnyValue::Data> ScalarData(TypeCode c, int64 i, uint64 u, float64 d)
{
  auto r = std::make_unique<AnyValue::Data>();
  r->code = c;
  r->name = ScalarName(c);
  r->i = i;
  r->u = u;
  r->d = d;
  return r;
}
AnyValue::AnyValue(boolean v) : m_data{ScalarData(TypeCode::Bool, 0, v, 0)}, m_fixed{false} {}
AnyValue::AnyValue(char8 v) : m_data{ScalarData(TypeCode::Char8, v, 0, 0)}, m_fixed{false} {}
AnyValue::AnyValue(int8 v) : m_data{ScalarData(TypeCode::Int8, v, 0, 0)}, m_fixed{false} {}
AnyValue::AnyValue(uint8 v) : m_data{ScalarData(TypeCode::UInt8, 0, v, 0)}, m_fixed{false} {}
AnyValue::AnyValue(int16 v) : m_data{ScalarData(TypeCode::Int16, v, 0, 0)}, m_fixed{false} {}
AnyValue::AnyValue(uint16 v) : m_data{ScalarData(TypeCode::UInt16, 0, v, 0)}, m_fixed{false} {}
AnyValue::AnyValue(int32 v) : m_data{ScalarData(TypeCode::Int32, v, 0, 0)}, m_fixed{false} {}
AnyValue::AnyValue(uint32 v) : m_data{ScalarData(TypeCode::UInt32, 0, v, 0)}, m_fixed{false} {}
AnyValue::AnyValue(int64 v) : m_data{ScalarData(TypeCode::Int64, v, 0, 0)}, m_fixed{false} {}
AnyValue::AnyValue(uint64 v) : m_data{ScalarData(TypeCode::UInt64, 0, v, 0)}, m_fixed{false} {}
AnyValue::AnyValue(float32 v) : m_data{ScalarData(TypeCode::Float32, 0, 0, v)}, m_fixed{false} {}
AnyValue::AnyValue(float64 v) : m_data{ScalarData(TypeCode::Float64, 0, 0, v)}, m_fixed{false} {}
AnyValue::AnyValue(const std::string& v)
  : m_data{ScalarData(TypeCode::String, 0, 0, 0)}, m_fixed{false}
{
  m_data->s = v;
}
AnyValue::AnyValue(const char* v) : AnyValue{std::string{v}} {}
AnyValue::AnyValue(std::initializer_list<std::pair<std::string, AnyValue>> members,
                   const std::string& name)
  : AnyValue{EmptyStructType(name)}
{
  for (const auto& m : members)
  {
    AddMember(m.first, m.second);
  }
}
AnyValue::AnyValue(std::size_t size, const AnyType& elem_type, const std::string& name)
  : AnyValue{AnyType{size, elem_type, name}}
{}
AnyValue::AnyValue(const AnyType& type) : m_data{A::Make(type)}, m_fixed{false} {}
AnyValue::AnyValue(const AnyType& type, const AnyValue& value) : AnyValue{type}
{
  ConvertFrom(value);
}
AnyValue::~AnyValue() = default;
AnyValue::AnyValue(const AnyValue& other) : m_data{}, m_fixed{false}
{
  A::r(&other);
  m_data = A::Copy(other.m_data.get());
}
AnyValue::AnyValue(AnyValue&& other) noexcept : m_data{}, m_fixed{false}
{
  A::w(&other);
  if (other.m_fixed)
  {
    m_data = A::Copy(other.m_data.get());
  }
  else
  {
    m_data = std::move(other.m_data);
  }
}
AnyValue& AnyValue::operator=(const AnyValue& other)
{
  if (this == &other)
  {
    return *this;
  }
  A::r(&other);
  A::w(this);
  if (m_fixed)
  {
    A::Store(*this, A::Convert(m_data.get(), other));
  }
  else
  {
    auto copy = A::Copy(other.m_data.get());
    m_data = std::move(copy);
  }
  return *this;
}
AnyValue& AnyValue::operator=(AnyValue&& other)
{
  if (this == &other)
  {
    return *this;
  }
  A::w(&other);
  A::w(this);
  if (m_fixed)
  {
    A::Store(*this, A::Convert(m_data.get(), other));
  }
  else if (other.m_fixed)
  {
    auto copy = A::Copy(other.m_data.get());
    m_data = std::move(copy);
  }
  else
  {
    auto data = std::move(other.m_data);
    m_data = std::move(data);
  }
  return *this;
}

AnyType AnyValue::GetType() const
{
  A::r(this);
  if (!m_data)
  {
    return {};
  }
  AnyType result;
  result.m_code = m_data->code;
  result.m_name = m_data->name;
  for (const auto& m : m_data->members)
  {
    result.m_members.emplace_back(m.first, m.second->GetType());
  }
  if (m_data->code == TypeCode::Array)
  {
    result.m_size = m_data->elements.size();
    result.m_elem = std::make_shared<AnyType>(m_data->elem_type);
  }
  return result;
}
TypeCode AnyValue::GetTypeCode() const
{
  A::r(this);
  return m_data ? m_data->code : TypeCode::Empty;
}
std::string AnyValue::GetTypeName() const { return m_data ? m_data->name : ""; }

AnyValue& AnyValue::AddMember(const std::string& name, const AnyValue& value)
{
  A::w(this);
  if (!m_data || m_data->code != TypeCode::Struct || m_fixed || !ValidMemberName(name))
  {
    throw InvalidOperationException("AddMember: not possible [" + name + "]");
  }
  for (const auto& m : m_data->members)
  {
    if (m.first == name)
    {
      throw InvalidOperationException("AddMember: duplicate member [" + name + "]");
    }
  }
  m_data->members.emplace_back(name, std::make_unique<AnyValue>(value));
  return *this;
}
std::vector<std::string> AnyValue::MemberNames() const
{
  A::r(this);
  std::vector<std::string> result;
  if (m_data)
  {
    for (const auto& m : m_data->members)
    {
      result.push_back(m.first);
    }
  }
  return result;
}
std::size_t AnyValue::NumberOfMembers() const { return m_data ? m_data->members.size() : 0; }
AnyValue& AnyValue::AddElement(const AnyValue& value)
{
  A::w(this);
  if (!m_data || m_data->code != TypeCode::Array || m_fixed)
  {
    throw InvalidOperationException("AddElement: not possible");
  }
  auto e = std::make_unique<AnyValue>(m_data->elem_type);
  e->ConvertFrom(value);
  A::Fix(*e);
  m_data->elements.push_back(std::move(e));
  return *this;
}
std::size_t AnyValue::NumberOfElements() const
{
  A::r(this);
  return m_data ? m_data->elements.size() : 0;
}
bool AnyValue::HasField(const std::string& path) const
{
  A::r(this);
  return A::At(*this, path) != nullptr;
}
AnyValue& AnyValue::operator[](const std::string& path)
{
  return const_cast<AnyValue&>(const_cast<const AnyValue&>(*this)[path]);
}
const AnyValue& AnyValue::operator[](const std::string& path) const
{
  A::r(this);
  const AnyValue* v = A::At(*this, path);
  if (v == nullptr)
  {
    throw InvalidOperationException("AnyValue: no such field [" + path + "]");
  }
  return *v;
}
AnyValue& AnyValue::operator[](std::size_t idx)
{
  return const_cast<AnyValue&>(const_cast<const AnyValue&>(*this)[idx]);
}
const AnyValue& AnyValue::operator[](std::size_t idx) const
{
  A::r(this);
  if (!m_data || m_data->code != TypeCode::Array || idx >= m_data->elements.size())
  {
    throw InvalidOperationException("AnyValue: no such element");
  }
  return *m_data->elements[idx];
}
AnyValue& AnyValue::ConvertFrom(const AnyValue& other)
{
  A::r(&other);
  A::w(this);
  A::Store(*this, A::Convert(m_data.get(), other));
  return *this;
}

#define STANDIN_AS(T) \
  T AnyValue::AsHelper(T*) const { A::r(this); return A::To<T>(*this); }
STANDIN_AS(boolean)
STANDIN_AS(char8)
STANDIN_AS(int8)
STANDIN_AS(uint8)
STANDIN_AS(int16)
STANDIN_AS(uint16)
STANDIN_AS(int32)
STANDIN_AS(uint32)
STANDIN_AS(int64)
STANDIN_AS(uint64)
STANDIN_AS(float32)
STANDIN_AS(float64)
std::string AnyValue::AsHelper(std::string*) const
{
  A::r(this);
  if (!m_data || m_data->code != TypeCode::String)
  {
    throw InvalidConversionException("As<std::string>: conversion not possible");
  }
  return m_data->s;
}
AnyValue AnyValue::AsHelper(AnyValue*) const { return *this; }

bool AnyValue::operator==(const AnyValue& other) const
{
  A::r(this);
  A::r(&other);
  const Data* l = m_data.get();
  const Data* r = other.m_data.get();
  if (l == nullptr || r == nullptr)
  {
    return l == r;
  }
  if (IsArithmetic(l->code) && IsArithmetic(r->code))
  {
    return Compare(*this, other) == CompareResult::Equivalent;
  }
  if (l->code != r->code)
  {
    return false;
  }
  if (l->code == TypeCode::String)
  {
    return l->s == r->s;
  }
  if (l->members.size() != r->members.size() || l->elements.size() != r->elements.size())
  {
    return false;
  }
  for (std::size_t i = 0; i < l->members.size(); ++i)
  {
    if (l->members[i].first != r->members[i].first
        || *l->members[i].second != *r->members[i].second)
    {
      return false;
    }
  }
  for (std::size_t i = 0; i < l->elements.size(); ++i)
  {
    if (*l->elements[i] != *r->elements[i])
    {
      return false;
    }
  }
  return true;
}
bool AnyValue::operator!=(const AnyValue& other) const { return !(*this == other); }

bool IsEmptyValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Empty; }
bool IsStructValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Struct; }
bool IsArrayValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Array; }
bool IsScalarValue(const AnyValue& v)
{
  auto c = v.GetTypeCode();
  return IsArithmetic(c) || c == TypeCode::String;
}
AnyValue EmptyStruct(const std::string& name) { return AnyValue{EmptyStructType(name)}; }
AnyValue ArrayValue(std::initializer_list<AnyValue> elements, const std::string& name)
{
  if (elements.size() == 0)
  {
    throw InvalidOperationException("ArrayValue: no elements");
  }
  AnyValue result{AnyType{0, elements.begin()->GetType(), name}};
  for (const auto& e : elements)
  {
    result.AddElement(e);
  }
  return result;
}

// ---------------------------------------------------------------- operations

CompareResult Compare(const AnyValue& lhs, const AnyValue& rhs)
{
  const auto* l = A::data(lhs);
  const auto* r = A::data(rhs);
  A::r(&lhs);
  A::r(&rhs);
  if (l != nullptr && r != nullptr && IsArithmetic(l->code) && IsArithmetic(r->code))
  {
    auto order = [](auto a, auto b) {
      return a < b ? CompareResult::Less : a > b ? CompareResult::Greater
             : a == b ? CompareResult::Equivalent : CompareResult::Unordered;
    };
    if (IsFloat(l->code) || IsFloat(r->code))
    {
      return order(lhs.As<float64>(), rhs.As<float64>());
    }
    bool lneg = IsSigned(l->code) && l->i < 0;
    bool rneg = IsSigned(r->code) && r->i < 0;
    if (lneg != rneg)
    {
      return lneg ? CompareResult::Less : CompareResult::Greater;
    }
    if (lneg)
    {
      return order(l->i, r->i);
    }
    return order(IsSigned(l->code) ? static_cast<uint64>(l->i) : l->u,
                 IsSigned(r->code) ? static_cast<uint64>(r->i) : r->u);
  }
  if (l != nullptr && r != nullptr && l->code == TypeCode::String && r->code == TypeCode::String)
  {
    int c = l->s.compare(r->s);
    return c < 0 ? CompareResult::Less : c > 0 ? CompareResult::Greater
                                               : CompareResult::Equivalent;
  }
  return lhs == rhs ? CompareResult::Equivalent : CompareResult::Unordered;
}

static bool Step(AnyValue& v, int delta)
{
  auto* d = A::data(v);
  A::w(&v);
  if (d == nullptr)
  {
    return false;
  }
  switch (d->code)
  {
  case TypeCode::Char8: d->i = static_cast<char8>(d->i + delta); break;
  case TypeCode::Int8: d->i = static_cast<int8>(d->i + delta); break;
  case TypeCode::UInt8: d->u = static_cast<uint8>(d->u + delta); break;
  case TypeCode::Int16: d->i = static_cast<int16>(d->i + delta); break;
  case TypeCode::UInt16: d->u = static_cast<uint16>(d->u + delta); break;
  case TypeCode::Int32:
    d->i = static_cast<int32>(static_cast<uint32>(d->i) + static_cast<uint32>(delta));
    break;
  case TypeCode::UInt32: d->u = static_cast<uint32>(d->u + static_cast<uint32>(delta)); break;
  case TypeCode::Int64:
    d->i = static_cast<int64>(static_cast<uint64>(d->i) + static_cast<uint64>(int64{delta}));
    break;
  case TypeCode::UInt64: d->u += static_cast<uint64>(int64{delta}); break;
  case TypeCode::Float32: d->d = static_cast<float32>(static_cast<float32>(d->d) + delta); break;
  case TypeCode::Float64: d->d += delta; break;
  default: return false;
  }
  return true;
}
bool Increment(AnyValue& v) { return Step(v, 1); }
bool Decrement(AnyValue& v) { return Step(v, -1); }

bool TryConvert(AnyValue& dest, const AnyValue& src)
{
  try
  {
    dest.ConvertFrom(src);
  }
  catch (const MessageException&)
  {
    return false;
  }
  return true;
}
bool TryAssign(AnyValue& dest, const AnyValue& src)
{
  try
  {
    dest = src;
  }
  catch (const MessageException&)
  {
    return false;
  }
  return true;
}
bool TryAssignIfEmptyOrConvert(AnyValue& dest, const AnyValue& src)
{
  return IsEmptyValue(dest) ? TryAssign(dest, src) : TryConvert(dest, src);
}

// ---------------------------------------------------------------- registry

AnyTypeRegistry::AnyTypeRegistry()
{
  m_types[""] = AnyType{};
  for (const auto& s : kScalars)
  {
    m_types[s.name] = AnyType{s.code};
  }
}
AnyTypeRegistry::~AnyTypeRegistry() = default;
void AnyTypeRegistry::RegisterType(const AnyType& type) { RegisterType(type.GetTypeName(), type); }
void AnyTypeRegistry::RegisterType(const std::string& name, const AnyType& type)
{
  auto it = m_types.find(name);
  if (it != m_types.end() && it->second != type)
  {
    throw InvalidOperationException("AnyTypeRegistry: name [" + name + "] is already in use");
  }
  m_types[name] = type;
}
bool AnyTypeRegistry::HasType(const std::string& name) const { return m_types.count(name) != 0; }
AnyType AnyTypeRegistry::GetType(const std::string& name) const
{
  auto it = m_types.find(name);
  if (it == m_types.end())
  {
    throw InvalidOperationException("AnyTypeRegistry: unknown type [" + name + "]");
  }
  return it->second;
}

// ---------------------------------------------------------------- JSON

namespace
{
struct JSON
{
  enum Kind { Null, Bool, Int, UInt, Double, String, Array, Object } kind = Null;
  bool b = false;
  int64 i = 0;
  uint64 u = 0;
  double d = 0;
  std::string s;
  std::vector<JSON> a;
  std::vector<std::pair<std::string, JSON>> o;
};

class JSONReader
{
public:
  explicit JSONReader(const std::string& str) : m_s{str}, m_p{0} {}
  bool Parse(JSON& out)
  {
    Skip();
    if (!Value(out))
    {
      return false;
    }
    Skip();
    return m_p == m_s.size();
  }

private:
  const std::string& m_s;
  std::size_t m_p;
  void Skip()
  {
    while (m_p < m_s.size() && std::strchr(" \t\r\n", m_s[m_p]) != nullptr)
    {
      ++m_p;
    }
  }
  bool Lit(const char* lit)
  {
    auto n = std::strlen(lit);
    if (m_s.compare(m_p, n, lit) != 0)
    {
      return false;
    }
    m_p += n;
    return true;
  }
  bool Str(std::string& out)
  {
    if (m_p >= m_s.size() || m_s[m_p] != '"')
    {
      return false;
    }
    ++m_p;
    while (m_p < m_s.size() && m_s[m_p] != '"')
    {
      char c = m_s[m_p++];
      if (static_cast<unsigned char>(c) < 0x20)
      {
        return false;
      }
      if (c != '\\')
      {
        out.push_back(c);
        continue;
      }
      if (m_p >= m_s.size())
      {
        return false;
      }
      c = m_s[m_p++];
      switch (c)
      {
      case 'n': out.push_back('\n'); break;
      case 't': out.push_back('\t'); break;
      case 'r': out.push_back('\r'); break;
      case 'b': out.push_back('\b'); break;
      case 'f': out.push_back('\f'); break;
      case '"': case '\\': case '/': out.push_back(c); break;
      case 'u':
      {
        if (m_p + 4 > m_s.size())
        {
          return false;
        }
        auto v = std::strtoul(m_s.substr(m_p, 4).c_str(), nullptr, 16);
        m_p += 4;
        if (v < 0x80)
        {
          out.push_back(static_cast<char>(v));
        }
        else if (v < 0x800)
        {
          out.push_back(static_cast<char>(0xC0 | (v >> 6)));
          out.push_back(static_cast<char>(0x80 | (v & 0x3F)));
        }
        else
        {
          out.push_back(static_cast<char>(0xE0 | (v >> 12)));
          out.push_back(static_cast<char>(0x80 | ((v >> 6) & 0x3F)));
          out.push_back(static_cast<char>(0x80 | (v & 0x3F)));
        }
        break;
      }
      default: return false;
      }
    }
    if (m_p >= m_s.size())
    {
      return false;
    }
    ++m_p;
    return true;
  }
  bool Number(JSON& out)
  {
    std::size_t start = m_p;
    bool neg = false;
    bool frac = false;
    if (m_p < m_s.size() && m_s[m_p] == '-')
    {
      neg = true;
      ++m_p;
    }
    std::size_t digits = m_p;
    while (m_p < m_s.size() && m_s[m_p] >= '0' && m_s[m_p] <= '9')
    {
      ++m_p;
    }
    if (m_p == digits || (m_s[digits] == '0' && m_p - digits > 1))
    {
      return false;
    }
    if (m_p < m_s.size() && m_s[m_p] == '.')
    {
      frac = true;
      ++m_p;
      std::size_t f = m_p;
      while (m_p < m_s.size() && m_s[m_p] >= '0' && m_s[m_p] <= '9')
      {
        ++m_p;
      }
      if (f == m_p)
      {
        return false;
      }
    }
    if (m_p < m_s.size() && (m_s[m_p] == 'e' || m_s[m_p] == 'E'))
    {
      frac = true;
      ++m_p;
      if (m_p < m_s.size() && (m_s[m_p] == '+' || m_s[m_p] == '-'))
      {
        ++m_p;
      }
      std::size_t f = m_p;
      while (m_p < m_s.size() && m_s[m_p] >= '0' && m_s[m_p] <= '9')
      {
        ++m_p;
      }
      if (f == m_p)
      {
        return false;
      }
    }
    std::string text = m_s.substr(start, m_p - start);
    errno = 0;
    out.d = std::strtod(text.c_str(), nullptr);
    out.kind = JSON::Double;
    if (!frac)
    {
      errno = 0;
      if (neg)
      {
        out.i = std::strtoll(text.c_str(), nullptr, 10);
        out.kind = errno == 0 ? JSON::Int : JSON::Double;
      }
      else
      {
        out.u = std::strtoull(text.c_str(), nullptr, 10);
        out.kind = errno == 0 ? JSON::UInt : JSON::Double;
      }
    }
    return true;
  }
  bool Value(JSON& out)
  {
    if (m_p >= m_s.size())
    {
      return false;
    }
    char c = m_s[m_p];
    if (c == '{')
    {
      out.kind = JSON::Object;
      ++m_p;
      Skip();
      if (m_p < m_s.size() && m_s[m_p] == '}')
      {
        ++m_p;
        return true;
      }
      while (true)
      {
        Skip();
        std::string key;
        if (!Str(key))
        {
          return false;
        }
        Skip();
        if (m_p >= m_s.size() || m_s[m_p] != ':')
        {
          return false;
        }
        ++m_p;
        Skip();
        out.o.emplace_back(key, JSON{});
        if (!Value(out.o.back().second))
        {
          return false;
        }
        Skip();
        if (m_p >= m_s.size())
        {
          return false;
        }
        if (m_s[m_p] == ',')
        {
          ++m_p;
          continue;
        }
        return m_s[m_p++] == '}';
      }
    }
    if (c == '[')
    {
      out.kind = JSON::Array;
      ++m_p;
      Skip();
      if (m_p < m_s.size() && m_s[m_p] == ']')
      {
        ++m_p;
        return true;
      }
      while (true)
      {
        Skip();
        out.a.emplace_back();
        if (!Value(out.a.back()))
        {
          return false;
        }
        Skip();
        if (m_p >= m_s.size())
        {
          return false;
        }
        if (m_s[m_p] == ',')
        {
          ++m_p;
          continue;
        }
        return m_s[m_p++] == ']';
      }
    }
    if (c == '"')
    {
      out.kind = JSON::String;
      return Str(out.s);
    }
    if (c == 't')
    {
      out.kind = JSON::Bool;
      out.b = true;
      return Lit("true");
    }
    if (c == 'f')
    {
      out.kind = JSON::Bool;
      return Lit("false");
    }
    if (c == 'n')
    {
      return Lit("null");
    }
    return Number(out);
  }
};

bool ReadFile(const std::string& filename, std::string& content)
{
  FILE* f = std::fopen(filename.c_str(), "rb");
  if (f == nullptr)
  {
    return false;
  }
  char buf[4096];
  std::size_t n;
  while ((n = std::fread(buf, 1, sizeof buf, f)) > 0)
  {
    content.append(buf, n);
  }
  bool ok = std::ferror(f) == 0;
  std::fclose(f);
  return ok;
}

const JSON* Find(const JSON& j, const char* key)
{
  for (const auto& m : j.o)
  {
    if (m.first == key)
    {
      return &m.second;
    }
  }
  return nullptr;
}

void TypeFromJSON(const JSON& j, const AnyTypeRegistry* reg, AnyType& out)
{
  if (j.kind != JSON::Object)
  {
    throw ParseException("type: expected an object");
  }
  const JSON* type = Find(j, "type");
  if (type == nullptr || type->kind != JSON::String)
  {
    throw ParseException("type: no 'type' field");
  }
  const JSON* attrs = Find(j, "attributes");
  const JSON* mult = Find(j, "multiplicity");
  const JSON* elem = Find(j, "element");
  if (attrs != nullptr)
  {
    if (attrs->kind != JSON::Array || mult != nullptr || elem != nullptr || j.o.size() != 2)
    {
      throw ParseException("type: wrong 'attributes'");
    }
    AnyType result = EmptyStructType(type->s);
    for (const auto& m : attrs->a)
    {
      if (m.kind != JSON::Object || m.o.size() != 1)
      {
        throw ParseException("type: wrong member");
      }
      AnyType mt;
      TypeFromJSON(m.o[0].second, reg, mt);
      result.AddMember(m.o[0].first, mt);
    }
    out = result;
    return;
  }
  if (elem != nullptr || mult != nullptr)
  {
    if (elem == nullptr || (mult != nullptr && mult->kind != JSON::UInt)
        || j.o.size() != (mult != nullptr ? 3 : 2))
    {
      throw ParseException("type: wrong array");
    }
    AnyType et;
    TypeFromJSON(*elem, reg, et);
    // no multiplicity: unbounded array, takes its size from the parsed value
    out = AnyType{mult == nullptr ? 0 : static_cast<std::size_t>(mult->u), et, type->s};
    return;
  }
  static const AnyTypeRegistry default_registry;
  const auto* r = reg == nullptr ? &default_registry : reg;
  if (j.o.size() != 1 || !r->HasType(type->s))
  {
    throw ParseException("type: unknown type [" + type->s + "]");
  }
  out = r->GetType(type->s);
}

void ValueFromJSON(const JSON& j, AnyValue& v)
{
  auto code = v.GetTypeCode();
  switch (code)
  {
  case TypeCode::Empty:
    if (j.kind != JSON::Null)
    {
      throw ParseException("value: expected null");
    }
    return;
  case TypeCode::Bool:
    if (j.kind == JSON::Bool)
    {
      v.ConvertFrom(AnyValue{j.b});
      return;
    }
    break;
  case TypeCode::String:
    if (j.kind != JSON::String)
    {
      throw ParseException("value: expected string");
    }
    v.ConvertFrom(AnyValue{j.s});
    return;
  case TypeCode::Struct:
  {
    if (j.kind != JSON::Object)
    {
      throw ParseException("value: expected structure");
    }
    // Members that are absent keep their default value.
    for (const auto& m : j.o)
    {
      if (!v.HasField(m.first))
      {
        throw ParseException("value: unknown member");
      }
      ValueFromJSON(m.second, v[m.first]);
    }
    return;
  }
  case TypeCode::Array:
    if (j.kind == JSON::Array && v.NumberOfElements() == 0)
    {
      A::Grow(v, j.a.size());
    }
    if (j.kind != JSON::Array || j.a.size() != v.NumberOfElements())
    {
      throw ParseException("value: expected array");
    }
    for (std::size_t i = 0; i < j.a.size(); ++i)
    {
      ValueFromJSON(j.a[i], v[i]);
    }
    return;
  default:
    break;
  }
  if (j.kind == JSON::Int)
  {
    v.ConvertFrom(AnyValue{j.i});
  }
  else if (j.kind == JSON::UInt)
  {
    v.ConvertFrom(AnyValue{j.u});
  }
  else if (j.kind == JSON::Double)
  {
    v.ConvertFrom(AnyValue{j.d});
  }
  else
  {
    throw ParseException("value: expected a number");
  }
}

std::string Quote(const std::string& s)
{
  std::string r = "\"";
  for (char c : s)
  {
    switch (c)
    {
    case '"': r += "\\\""; break;
    case '\\': r += "\\\\"; break;
    case '\n': r += "\\n"; break;
    case '\t': r += "\\t"; break;
    case '\r': r += "\\r"; break;
    default:
      if (static_cast<unsigned char>(c) < 0x20)
      {
        char buf[8];
        std::snprintf(buf, sizeof buf, "\\u%04X", c);
        r += buf;
      }
      else
      {
        r.push_back(c);
      }
    }
  }
  return r + "\"";
}

std::string DoubleToString(double d)
{
  char buf[64];
  std::snprintf(buf, sizeof buf, "%.17g", d);
  for (int p = 1; p < 17; ++p)
  {
    char b2[64];
    std::snprintf(b2, sizeof b2, "%.*g", p, d);
    if (std::strtod(b2, nullptr) == d)
    {
      std::strcpy(buf, b2);
      break;
    }
  }
  std::string r = buf;
  if (r.find_first_of(".eEn") == std::string::npos)
  {
    r += ".0";
  }
  return r;
}

void TypeToJSON(const AnyType& t, std::string& out)
{
  out += "{\"type\":" + Quote(t.GetTypeName());
  if (t.GetTypeCode() == TypeCode::Struct)
  {
    out += ",\"attributes\":[";
    bool first = true;
    for (const auto& m : t.m_members)
    {
      out += std::string(first ? "" : ",") + "{" + Quote(m.first) + ":";
      TypeToJSON(m.second, out);
      out += "}";
      first = false;
    }
    out += "]";
  }
  else if (t.GetTypeCode() == TypeCode::Array)
  {
    out += ",\"multiplicity\":" + std::to_string(t.NumberOfElements()) + ",\"element\":";
    TypeToJSON(*t.m_elem, out);
  }
  out += "}";
}

void ValueToJSON(const AnyValue& v, std::string& out, const std::string& nl, int level)
{
  auto indent = [&](int l) {
    if (!nl.empty())
    {
      out += nl + std::string(2 * l, ' ');
    }
  };
  const auto* d = A::data(v);
  if (d == nullptr)
  {
    out += "null";
    return;
  }
  if (d->code == TypeCode::Bool)
  {
    out += d->u ? "true" : "false";
  }
  else if (d->code == TypeCode::String)
  {
    out += Quote(d->s);
  }
  else if (IsFloat(d->code))
  {
    out += DoubleToString(d->d);
  }
  else if (IsSigned(d->code))
  {
    out += std::to_string(d->i);
  }
  else if (IsArithmetic(d->code))
  {
    out += std::to_string(d->u);
  }
  else if (d->code == TypeCode::Struct)
  {
    out += "{";
    bool first = true;
    for (const auto& m : d->members)
    {
      out += first ? "" : ",";
      indent(level + 1);
      out += Quote(m.first) + ":" + (nl.empty() ? "" : " ");
      ValueToJSON(*m.second, out, nl, level + 1);
      first = false;
    }
    if (!first)
    {
      indent(level);
    }
    out += "}";
  }
  else
  {
    out += "[";
    bool first = true;
    for (const auto& e : d->elements)
    {
      out += first ? "" : ",";
      indent(level + 1);
      ValueToJSON(*e, out, nl, level + 1);
      first = false;
    }
    if (!first)
    {
      indent(level);
    }
    out += "]";
  }
}

AnyValue FullValueFromString(const std::string& str, const AnyTypeRegistry* reg)
{
  JSON j;
  if (!JSONReader{str}.Parse(j))
  {
    throw ParseException("value: not valid JSON");
  }
  if (j.kind != JSON::Array || j.a.size() != 3)
  {
    throw ParseException("value: expected [encoding, datatype, instance]");
  }
  const JSON* enc = Find(j.a[0], "encoding");
  const JSON* dt = Find(j.a[1], "datatype");
  const JSON* inst = Find(j.a[2], "instance");
  if (enc == nullptr || dt == nullptr || inst == nullptr)
  {
    throw ParseException("value: expected [encoding, datatype, instance]");
  }
  AnyType type;
  TypeFromJSON(*dt, reg, type);
  AnyValue result{type};
  ValueFromJSON(*inst, result);
  return result;
}
}  // unnamed namespace

JSONAnyTypeParser::JSONAnyTypeParser() = default;
bool JSONAnyTypeParser::ParseString(const std::string& str, const AnyTypeRegistry* registry)
{
  try
  {
    JSON j;
    if (!JSONReader{str}.Parse(j))
    {
      throw ParseException("type: not valid JSON");
    }
    AnyType t;
    TypeFromJSON(j, registry, t);
    m_type = t;
  }
  catch (const MessageException& e)
  {
    m_error = e.what();
    return false;
  }
  return true;
}
bool JSONAnyTypeParser::ParseFile(const std::string& filename, const AnyTypeRegistry* registry)
{
  std::string content;
  if (!ReadFile(filename, content))
  {
    m_error = "could not read file [" + filename + "]";
    return false;
  }
  return ParseString(content, registry);
}

JSONAnyValueParser::JSONAnyValueParser() = default;
bool JSONAnyValueParser::ParseString(const std::string& str, const AnyTypeRegistry* registry)
{
  try
  {
    m_value = FullValueFromString(str, registry);
  }
  catch (const MessageException& e)
  {
    m_error = e.what();
    return false;
  }
  return true;
}
bool JSONAnyValueParser::ParseFile(const std::string& filename, const AnyTypeRegistry* registry)
{
  std::string content;
  if (!ReadFile(filename, content))
  {
    m_error = "could not read file [" + filename + "]";
    return false;
  }
  return ParseString(content, registry);
}
bool JSONAnyValueParser::TypedParseString(const AnyType& type, const std::string& str)
{
  try
  {
    JSON j;
    if (!JSONReader{str}.Parse(j))
    {
      throw ParseException("value: not valid JSON");
    }
    AnyValue v{type};
    ValueFromJSON(j, v);
    m_value = v;
  }
  catch (const MessageException& e)
  {
    m_error = e.what();
    return false;
  }
  return true;
}
bool JSONAnyValueParser::TypedParseFile(const AnyType& type, const std::string& filename)
{
  std::string content;
  if (!ReadFile(filename, content))
  {
    m_error = "could not read file [" + filename + "]";
    return false;
  }
  return TypedParseString(type, content);
}
AnyValue JSONAnyValueParser::MoveAnyValue()
{
  AnyValue r = std::move(m_value);
  m_value = AnyValue{};
  return r;
}

std::string AnyTypeToJSONString(const AnyType& type, bool)
{
  std::string out;
  TypeToJSON(type, out);
  return out;
}
AnyType AnyTypeFromJSONString(const std::string& json)
{
  JSONAnyTypeParser p;
  if (!p.ParseString(json))
  {
    throw ParseException(p.GetLastError());
  }
  return p.MoveAnyType();
}
std::string ValuesToJSONString(const AnyValue& value, bool pretty)
{
  std::string out;
  ValueToJSON(value, out, pretty ? "\n" : "", 0);
  return out;
}
std::string PrintAnyValue(const AnyValue& value)
{
  return value.GetTypeName() + (IsScalarValue(value) ? ": " : " ")
         + ValuesToJSONString(value, true);
}
std::string AnyValueToJSONString(const AnyValue& value, bool pretty)
{
  return "[{\"encoding\":\"sup-dto/v1.0/JSON\"},{\"datatype\":"
         + AnyTypeToJSONString(value.GetType()) + "},{\"instance\":"
         + ValuesToJSONString(value, pretty) + "}]";
}
void AnyValueToJSONFile(const AnyValue& value, const std::string& filename, bool pretty)
{
  FILE* f = std::fopen(filename.c_str(), "wb");
  if (f == nullptr)
  {
    throw SerializeException("could not open file [" + filename + "]");
  }
  auto s = AnyValueToJSONString(value, pretty);
  bool ok = std::fwrite(s.data(), 1, s.size(), f) == s.size();
  ok = std::fclose(f) == 0 && ok;
  if (!ok)
  {
    throw SerializeException("could not write file [" + filename + "]");
  }
}
AnyValue AnyValueFromJSONString(const std::string& json)
{
  return FullValueFromString(json, nullptr);
}
AnyValue AnyValueFromJSONFile(const std::string& filename)
{
  std::string content;
  if (!ReadFile(filename, content))
  {
    throw ParseException("could not read file [" + filename + "]");
  }
  return FullValueFromString(content, nullptr);
}
}  // namespace dto
}  // namespace sup
