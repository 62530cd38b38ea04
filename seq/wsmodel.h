// Executable specification of values, variables and the workspace, independent of the sup::dto conversions.
#ifndef VERIF_WSMODEL_H_
#define VERIF_WSMODEL_H_
#include "mc.h"
#include <sup/dto/anytype.h>
#include <sup/dto/anyvalue.h>
#include <sup/dto/anyvalue_helper.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/variable_registry.h>
#include <sup/oac-tree/workspace.h>

#include <map>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>
namespace wsm
{
using namespace sup::oac_tree;
using sup::dto::AnyValue;

struct V
{
  char kind = 'e';  // e: empty, n: integer, b: boolean, s: string, t: struct, a: array
  std::string type;
  long long n = 0;
  std::string s;
  std::vector<std::pair<std::string, V>> kids;  // struct: members, array: elements
  bool operator==(const V& o) const { return Str() == o.Str(); }
  std::string Str() const
  {
    switch (kind)
    {
    case 'e':
      return "()";
    case 'n':
    case 'b':
      return type + ":" + std::to_string(n);
    case 's':
      return "'" + s + "'";
    default:
    {
      std::string r = type + (kind == 't' ? "{" : "[");
      for (auto& k : kids)
        r += (kind == 't' ? k.first + "=" : "") + k.second.Str() + ",";
      return r + (kind == 't' ? "}" : "]");
    }
    }
  }
};
inline V N(const std::string& t, long long n)
{
  V v;
  v.kind = 'n';
  v.type = t;
  v.n = n;
  return v;
}
inline V B(bool b)
{
  V v;
  v.kind = 'b';
  v.type = "bool";
  v.n = b;
  return v;
}
inline V S(const std::string& s)
{
  V v;
  v.kind = 's';
  v.s = s;
  return v;
}
inline V T(std::vector<std::pair<std::string, V>> k, const std::string& name = "")
{
  V v;
  v.kind = 't';
  v.type = name;
  v.kids = std::move(k);
  return v;
}
inline V A(std::vector<V> k)
{
  V v;
  v.kind = 'a';
  for (auto& x : k)
    v.kids.push_back({"", x});
  return v;
}
inline void Range(const std::string& t, long long& lo, long long& hi)
{
  lo = t == "int8" ? -128 : t == "int16" ? -32768 : t == "int32" ? INT32_MIN : t == "int64" ? INT64_MIN : 0;
  hi = t == "int8" ? 127 : t == "uint8" ? 255 : t == "int16" ? 32767 : t == "uint16" ? 65535 : t == "int32" ? INT32_MAX : t == "uint32" ? 4294967295LL : INT64_MAX;
}
// The value of the type of like that src denotes.
inline std::optional<V> Convert(const V& like, const V& src)
{
  V r = like;
  switch (like.kind)
  {
  case 'e':
    if (src.kind != 'e')
      return {};
    return r;
  case 'n':
  {
    if (src.kind != 'n' && src.kind != 'b')
      return {};
    long long lo, hi;
    Range(like.type, lo, hi);
    if (src.n < lo || src.n > hi)
      return {};
    r.n = src.n;
    return r;
  }
  case 'b':
    if (src.kind != 'n' && src.kind != 'b')
      return {};
    r.n = src.n != 0;
    return r;
  case 's':
    if (src.kind != 's')
      return {};
    r.s = src.s;
    return r;
  default:
    if (src.kind != like.kind || src.kids.size() != like.kids.size())
      return {};
    for (size_t i = 0; i < like.kids.size(); ++i)
    {
      if (src.kids[i].first != like.kids[i].first)
        return {};
      auto c = Convert(like.kids[i].second, src.kids[i].second);
      if (!c)
        return {};
      r.kids[i].second = *c;
    }
    return r;
  }
}
inline V* Field(V& v, const std::string& path)
{
  if (path.empty())
    return &v;
  if (path[0] == '[')
  {
    if (v.kind != 'a')
      return nullptr;
    size_t e = path.find(']');
    size_t i = std::stoul(path.substr(1, e - 1));
    if (i >= v.kids.size())
      return nullptr;
    std::string rest = path.substr(e + 1);
    if (!rest.empty() && rest[0] == '.')
      rest = rest.substr(1);
    return Field(v.kids[i].second, rest);
  }
  if (v.kind != 't')
    return nullptr;
  size_t e = path.find_first_of(".[");
  std::string name = path.substr(0, e);
  std::string rest = e == std::string::npos ? "" : path.substr(path[e] == '.' ? e + 1 : e);
  for (auto& k : v.kids)
    if (k.first == name)
      return Field(k.second, rest);
  return nullptr;
}
inline AnyValue Build(const V& v)
{
  using namespace sup::dto;
  switch (v.kind)
  {
  case 'n':
    if (v.type == "int8")
      return AnyValue{static_cast<int8>(v.n)};
    if (v.type == "uint8")
      return AnyValue{static_cast<uint8>(v.n)};
    if (v.type == "int16")
      return AnyValue{static_cast<int16>(v.n)};
    if (v.type == "uint16")
      return AnyValue{static_cast<uint16>(v.n)};
    if (v.type == "int32")
      return AnyValue{static_cast<int32>(v.n)};
    if (v.type == "uint32")
      return AnyValue{static_cast<uint32>(v.n)};
    if (v.type == "int64")
      return AnyValue{static_cast<int64>(v.n)};
    return AnyValue{static_cast<uint64>(v.n)};
  case 'b':
    return AnyValue{v.n != 0};
  case 's':
    return AnyValue{v.s};
  case 't':
  {
    AnyValue r = EmptyStruct(v.type);
    for (auto& k : v.kids)
      r.AddMember(k.first, Build(k.second));
    return r;
  }
  case 'a':
  {
    AnyValue r(0, v.kids.empty() ? UnsignedInteger8Type : Build(v.kids[0].second).GetType());
    for (auto& k : v.kids)
      r.AddElement(Build(k.second));
    return r;
  }
  }
  return {};
}
inline V Read(const AnyValue& a)
{
  using namespace sup::dto;
  if (IsEmptyValue(a))
    return {};
  if (IsStructValue(a))
  {
    V r = T({}, a.GetTypeName());
    for (auto& m : a.MemberNames())
      r.kids.push_back({m, Read(a[m])});
    return r;
  }
  if (IsArrayValue(a))
  {
    V r = A({});
    for (size_t i = 0; i < a.NumberOfElements(); ++i)
      r.kids.push_back({"", Read(a[i])});
    return r;
  }
  switch (a.GetTypeCode())
  {
  case TypeCode::Bool:
    return B(a.As<boolean>());
  case TypeCode::String:
    return S(a.As<std::string>());
  case TypeCode::Float32:
  case TypeCode::Float64:
    return S("float " + std::to_string(a.As<float64>()));
  default:
    return N(a.GetTypeName(), a.As<int64>());
  }
}

// Variable specification: a local variable.
struct Var
{
  bool dynamic = false;
  bool fixed = false;  // refuses every write
  V init;
  V cur;
  bool up = false;
};
struct Model
{
  std::map<std::string, Var> vars;
  bool up = false;
  std::vector<std::string> notes;  // "name=value"
  void Note(const std::string& n) { notes.push_back(n + "=" + vars[n].cur.Str()); }
  static std::pair<std::string, std::string> Split(const std::string& full)
  {
    size_t e = full.find_first_of(".[");
    if (e == std::string::npos)
      return {full, ""};
    return {full.substr(0, e), full.substr(full[e] == '.' ? e + 1 : e)};
  }
  void SetupVar(const std::string& n)
  {
    auto& v = vars[n];
    v.cur = v.init;
    v.up = true;
    Note(n);
  }
  void Setup()
  {
    if (up)
      return;
    for (auto& v : vars)
      SetupVar(v.first);
    up = true;
  }
  void Teardown()
  {
    for (auto& v : vars)
    {
      v.second.cur = V{};
      v.second.up = false;
    }
    up = false;
  }
  bool Reset(const std::string& n)
  {
    if (!vars.count(n))
      return false;
    SetupVar(n);
    return true;
  }
  std::optional<V> Get(const std::string& full, const V& into)
  {
    auto [n, f] = Split(full);
    auto it = vars.find(n);
    if (it == vars.end() || !it->second.up || it->second.cur.kind == 'e')
      return {};
    V* p = Field(it->second.cur, f);
    if (!p)
      return {};
    if (into.kind == 'e')
      return *p;
    return Convert(into, *p);
  }
  bool Set(const std::string& full, const V& val)
  {
    auto [n, f] = Split(full);
    auto it = vars.find(n);
    if (it == vars.end() || !it->second.up)
      return false;
    Var& v = it->second;
    if (v.fixed)
      return false;
    V nv = val;
    if (!f.empty())
    {
      if (v.cur.kind == 'e')
        return false;
      nv = v.cur;
      V* p = Field(nv, f);
      if (!p)
        return false;
      if (f.find('[') != std::string::npos)
      {
        // elements of an array keep their type
        auto c = Convert(*p, val);
        if (!c)
          return false;
        *p = *c;
      }
      else
        *p = val;
    }
    if (!v.dynamic && v.cur.kind != 'e')
    {
      auto c = Convert(v.cur, nv);
      if (!c)
        return false;
      nv = *c;
    }
    v.cur = nv;
    Note(n);
    return true;
  }
};
inline std::unique_ptr<Variable> Local(const std::string& type, const std::string& value, bool dynamic = false)
{
  auto v = GlobalVariableRegistry().Create("Local");
  if (!type.empty())
    v->AddAttribute("type", type);
  if (!value.empty())
    v->AddAttribute("value", value);
  if (dynamic)
    v->AddAttribute("dynamicType", "true");
  return v;
}
}  // namespace wsm
#endif
