// Attributes: every definition, set of attributes and constraint tree up to a bound, against an independent reading.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
#include <sup/oac-tree/attribute_definition.h>
#include <sup/oac-tree/attribute_utils.h>
#include <sup/oac-tree/concrete_constraints.h>
#include <sup/oac-tree/instruction_utils.h>
#include <optional>
using namespace uu;
using wsm::V;
namespace
{
enum Cat
{
  kLit,
  kVar,
  kBoth
};
AttributeCategory CatOf(int c) { return c == kLit ? AttributeCategory::kLiteral : c == kVar ? AttributeCategory::kVariableName : AttributeCategory::kBoth; }
const char* kTypes[] = {"string", "bool", "uint8", "int32", "float64"};
sup::dto::AnyType Type(int t)
{
  using namespace sup::dto;
  return t == 0 ? StringType : t == 1 ? BooleanType : t == 2 ? UnsignedInteger8Type : t == 3 ? SignedInteger32Type : Float64Type;
}
struct Def
{
  std::string name;
  int type = 0;
  bool mandatory = false;
  int cat = kLit;
};
using Given = std::vector<std::pair<std::string, std::string>>;
std::optional<long long> Int(const std::string& s)
{
  size_t p = !s.empty() && s[0] == '-';
  if (p == s.size() || s.size() > 15)
    return {};
  for (size_t i = p; i < s.size(); ++i)
    if (s[i] < '0' || s[i] > '9')
      return {};
  return std::stoll(s);
}
// The value that a literal denotes: n (integer types, bool), d, s
struct Lit
{
  char kind = 0;
  long long n = 0;
  double d = 0;
  std::string s;
};
std::optional<Lit> Literal(int type, const std::string& s)
{
  Lit l;
  if (type == 0)
  {
    l.kind = 's';
    l.s = s;
    return l;
  }
  if (type == 1)
  {
    std::string low;
    for (char c : s)
      low += c >= 'A' && c <= 'Z' ? char(c + 32) : c;
    l.kind = 'b';
    l.n = low == "true" || low == "yes" || low == "on";
    return l;
  }
  if (type == 4)
  {
    if (auto i = Int(s))
    {
      l.kind = 'd';
      l.d = *i;
      return l;
    }
    if (s == "1.5" || s == "-0.25")
    {
      l.kind = 'd';
      l.d = std::stod(s);
      return l;
    }
    return {};
  }
  auto i = Int(s);
  if (!i || (type == 2 && (*i < 0 || *i > 255)) || (type == 3 && (*i < INT32_MIN || *i > INT32_MAX)))
    return {};
  l.kind = 'n';
  l.n = *i;
  return l;
}
const std::string* Get(const Given& g, const std::string& n)
{
  for (auto& p : g)
    if (p.first == n)
      return &p.second;
  return nullptr;
}
bool Refers(const Def& d, const std::string& v) { return d.cat == kVar || (d.cat == kBoth && !v.empty() && v[0] == '@'); }
// The attributes that are wrong
std::vector<std::string> Wrong(const std::vector<Def>& defs, const Given& g)
{
  std::vector<std::string> r;
  for (auto& d : defs)
  {
    auto* v = Get(g, d.name);
    if (!v)
    {
      if (d.mandatory)
        r.push_back(d.name);
      continue;
    }
    if (!Refers(d, *v) && !Literal(d.type, *v))
      r.push_back(d.name);
  }
  return r;
}
class Any : public Instruction
{
public:
  explicit Any(const std::vector<Def>& defs = {}) : Instruction("Any")
  {
    for (auto& d : defs)
    {
      auto& x = d.type ? AddAttributeDefinition(d.name, Type(d.type)) : AddAttributeDefinition(d.name);
      if (d.mandatory)
        x.SetMandatory();
      if (d.cat)
        x.SetCategory(CatOf(d.cat));
    }
  }
  void Constrain(Constraint c) { AddConstraint(std::move(c)); }
  void Define(const std::string& n) { AddAttributeDefinition(n); }
  int setups = 0;

private:
  void SetupImpl(const Procedure&) override { ++setups; }
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ES::SUCCESS; }
};
class AnyVar : public Variable
{
public:
  explicit AnyVar(const std::vector<Def>& defs = {}) : Variable("AnyVar")
  {
    for (auto& d : defs)
    {
      auto& x = AddAttributeDefinition(d.name, Type(d.type));
      if (d.mandatory)
        x.SetMandatory();
      if (d.cat)
        x.SetCategory(CatOf(d.cat));
    }
  }
  void Constrain(Constraint c) { AddConstraint(std::move(c)); }

private:
  SetupTeardownActions SetupImpl(const Workspace&) override { return {}; }
  bool GetValueImpl(AnyValue&) const override { return false; }
  bool SetValueImpl(const AnyValue&) override { return false; }
};
bool Throws(const std::function<void()>& f, std::string* what = nullptr)
{
  try
  {
    f();
  }
  catch (const MessageException& e)
  {
    if (what)
      *what = e.what();
    return true;
  }
  return false;
}
bool LitEq(const AnyValue& v, const Lit& l, int type)
{
  if (v.GetType() != Type(type))
    return false;
  switch (l.kind)
  {
  case 's':
    return v.As<std::string>() == l.s;
  case 'b':
    return v.As<bool>() == (l.n != 0);
  case 'd':
    return v.As<double>() == l.d;
  default:
    return v.As<sup::dto::int64>() == l.n;
  }
}
void Fill(Workspace& ws)
{
  ws.AddVariable("v", wsm::Local(R"({"type":"int32"})", "300"));
  ws.AddVariable("s", wsm::Local(R"({"type":"string"})", "\"text\""));
  ws.AddVariable("t", wsm::Local(R"({"type":"t","attributes":[{"x":{"type":"uint8"}},{"y":{"type":"string"}}]})", R"({"x":7,"y":"why"})"));
  ws.AddVariable("e", wsm::Local("", ""));
  ws.Setup();
}
std::optional<V> Look(const std::string& name)
{
  using namespace wsm;
  if (name == "v")
    return N("int32", 300);
  if (name == "s")
    return S("text");
  if (name == "t.x")
    return N("uint8", 7);
  if (name == "t.y")
    return S("why");
  if (name == "t")
    return T({{"x", N("uint8", 7)}, {"y", S("why")}}, "t");
  return {};
}
const char* kTexts[] = {"", "5", "-5", "300", "70000000000", "abc", "true", "Yes", "ON", "no", "1.5", "@v", "@s", "@t.x", "@t.y", "@missing", "@t.z", "@", "v", "t.x", "s", "e", "@e", "t", "@@v", "$p", "1", "0", "truer", "yes!", "on ", "oN", "tru", "false"};
constexpr int kNTexts = sizeof(kTexts) / sizeof(kTexts[0]);
template <typename T>
bool As(const Instruction& i, const std::string& n, const Workspace& ws, UserInterface& ui, T& out)
{
  return i.GetAttributeValueAs(n, ws, ui, out);
}
}  // namespace

// One attribute: every definition and text, at setup and at execution.
SCENARIO(single, s.quick = 1, s.thorough = 1)
{
  Def d{"a", mc::Choose(5), mc::Choose(2) != 0, mc::Choose(3)};
  int text = mc::Choose(kNTexts + 1);
  Given g;
  if (text < kNTexts)
    g.push_back({"a", kTexts[text]});
  if (!g.empty() && g[0].second == "1.5" && (d.type == 2 || d.type == 3))
    return;  // up to the JSON library
  std::string w = std::string(kTypes[d.type]) + (d.mandatory ? " mandatory" : "") + " category " + std::to_string(d.cat) + (g.empty() ? " absent" : " = '" + g[0].second + "'");
  Any i({d});
  for (auto& p : g)
    MC_CHECK(i.AddAttribute(p.first, p.second) && i.GetAttributeString(p.first) == p.second && i.HasAttribute(p.first), w + ": add");
  Procedure proc{""};
  bool wrong = !Wrong({d}, g).empty();
  std::string what;
  MC_CHECK(Throws([&] { i.Setup(proc); }, &what) == wrong && i.setups == (wrong ? 0 : 1), w + ": setup " + (wrong ? "accepts" : "refuses: " + what));
  if (wrong)
  {
    MC_CHECK(what.find("a") != std::string::npos, w + ": the message does not name the attribute");
    // correcting it helps
    i.AddAttribute("a", "1");
    i.SetAttribute("a", "1");
    MC_CHECK(!Throws([&] { i.Setup(proc); }), w + ": refused after the correction");
    return;
  }
  Workspace ws;
  Ui ui;
  ui.log_errors = true;
  Fill(ws);
  AnyValue v;
  bool ok = i.GetAttributeValue("a", ws, ui, v);
  if (g.empty())
  {
    MC_CHECK(ok && sup::dto::IsEmptyValue(v) && ui.said.empty(), w + ": an absent attribute has a value");
    int n = 42;
    MC_CHECK(As(i, "a", ws, ui, n) && n == 42, w + ": an absent attribute changes the default");
    return;
  }
  std::string t = g[0].second;
  std::optional<V> var;
  std::optional<Lit> lit;
  bool refers = Refers(d, t);
  if (refers)
    var = Look(d.cat == kVar ? t : t.substr(1));
  else
    lit = Literal(d.type, t);
  MC_CHECK(ok == (refers ? var.has_value() : lit.has_value()), w + ": value " + (ok ? "found" : "not found"));
  if (!ok)
    MC_CHECK(!ui.said.empty(), w + ": failure is not reported");
  if (ok && refers)
    MC_CHECK(wsm::Read(v) == *var, w + ": is " + wsm::Read(v).Str());
  if (ok && !refers)
    MC_CHECK(LitEq(v, *lit, d.type), w + ": literal value " + wsm::Read(v).Str());
  // conversion to types of the language: what a literal or variable of that value converts to
  sup::dto::int32 n = 42;
  sup::dto::uint8 u = 42;
  std::string s = "42";
  bool b = true;
  double f = 42;
  bool is_n = ok && (refers ? var->kind == 'n' : lit->kind == 'n' || lit->kind == 'b');
  long long x = is_n ? (refers ? var->n : lit->n) : 0;
  bool is_s = ok && (refers ? var->kind == 's' : lit->kind == 's');
  bool is_d = ok && !refers && lit->kind == 'd';
  bool fits = is_n && x >= 0 && x <= 255;
  if (!is_d)
  {
    MC_CHECK(As(i, "a", ws, ui, n) == is_n && n == (is_n ? x : 42), w + ": as int32");
    MC_CHECK(As(i, "a", ws, ui, u) == fits && u == (fits ? x : 42), w + ": as uint8");
    MC_CHECK(As(i, "a", ws, ui, f) == is_n && f == (is_n ? double(x) : 42), w + ": as double");
    MC_CHECK(As(i, "a", ws, ui, s) == is_s && s == (is_s ? (refers ? var->s : lit->s) : "42"), w + ": as string");
    MC_CHECK(As(i, "a", ws, ui, b) == is_n && b == (is_n ? x != 0 : true), w + ": as bool");
  }
  else
    MC_CHECK(As(i, "a", ws, ui, f) && f == lit->d, w + ": as double");
}
// An attribute that is not declared is a literal text, whatever it looks like.
SCENARIO(undeclared, s.quick = 1, s.thorough = 1)
{
  std::string t = kTexts[mc::Choose(kNTexts)];
  Any i;
  MC_CHECK(i.AddAttribute("a", t), t);
  Procedure proc{""};
  MC_CHECK(!Throws([&] { i.Setup(proc); }), t + ": refused");
  Workspace ws;
  Ui ui;
  Fill(ws);
  AnyValue v;
  std::string s;
  MC_CHECK(i.GetAttributeValue("a", ws, ui, v) && v == AnyValue(sup::dto::StringType, t), t + ": is " + wsm::Read(v).Str());
  MC_CHECK(As(i, "a", ws, ui, s) && s == t, t + ": reads " + s);
}
// The attributes of variables and procedures, read as every type of the language.
template <typename T>
std::optional<T> FromProc(const Procedure& p, const std::string& n)
{
  T t{};
  if (Throws([&] { t = p.GetAttributeValue<T>(n); }))
    return {};
  return t;
}
template <typename T>
std::optional<T> FromVar(const Variable& v, const std::string& n, T before)
{
  T t = before;
  if (v.GetAttributeValue(n, t))
    return t;
  MC_CHECK(t == before, "a value that could not be converted was changed");
  return {};
}
SCENARIO(owners, s.quick = 1, s.thorough = 1)
{
  bool var = mc::Choose(2);
  int type = var ? mc::Choose(5) : 4 * mc::Choose(2);  // procedures declare float64 attributes only
  int text = mc::Choose(kNTexts + 1);
  std::string t = text < kNTexts ? kTexts[text] : "";
  if (t == "1.5" && (type == 2 || type == 3))
    return;  // up to the JSON library
  std::string n = var ? "a" : type ? "tickTimeout" : "a";
  std::string w = std::string(var ? "variable " : "procedure ") + kTypes[type] + (text < kNTexts ? " = '" + t + "'" : " absent");
  AnyVar v({Def{"a", type}});
  Procedure proc{""};
  if (text == kNTexts)
  {
    MC_CHECK(FromVar<int>(v, "a", 42) == 42 && FromVar<std::string>(v, "a", "x") == std::string("x"), w + ": a default is lost");
    MC_CHECK(!FromProc<int>(proc, n) && !FromProc<std::string>(proc, n) && !FromProc<double>(proc, n), w + ": has a value");
    return;
  }
  MC_CHECK(var ? v.AddAttribute(n, t) : proc.AddAttribute(n, t), w + ": add");
  auto lit = Literal(type, t);
  bool is_s = lit && lit->kind == 's', is_d = lit && lit->kind == 'd', is_n = lit && !is_s && !is_d;
  auto s = var ? FromVar<std::string>(v, n, "before") : FromProc<std::string>(proc, n);
  auto d = var ? FromVar<double>(v, n, -1e9) : FromProc<double>(proc, n);
  MC_CHECK(s.has_value() == is_s && (!is_s || *s == t), w + ": as string");
  MC_CHECK(d.has_value() == (is_d || is_n) && (!d || *d == (is_d ? lit->d : double(lit->n))), w + ": as double");
  if (is_d)
    return;  // rounding is up to the value library
  auto u = var ? FromVar<sup::dto::uint8>(v, n, 42) : FromProc<sup::dto::uint8>(proc, n);
  auto i = var ? FromVar<sup::dto::int32>(v, n, 42) : FromProc<sup::dto::int32>(proc, n);
  auto b = var ? FromVar<bool>(v, n, true) : FromProc<bool>(proc, n);
  bool fits = is_n && lit->n >= 0 && lit->n <= 255;
  MC_CHECK(u.has_value() == fits && (!fits || *u == lit->n), w + ": as uint8");
  MC_CHECK(i.has_value() == is_n && (!is_n || *i == lit->n), w + ": as int32");
  MC_CHECK(b.has_value() == is_n && (!is_n || *b == (lit->n != 0)), w + ": as bool");
}
// Several attributes: exactly the wrong ones are named.
SCENARIO(several, s.quick = 2, s.thorough = 3)
{
  const char* texts[] = {nullptr, "5", "abc", "@v"};
  std::vector<Def> defs;
  Given g;
  std::string w;
  const char* names[] = {"first", "second", "third"};
  for (int k = 0; k < mc::Depth(); ++k)
  {
    Def d{names[k], mc::Choose(2) ? 2 : 0, mc::Choose(2) != 0, mc::Choose(3)};
    defs.push_back(d);
    if (auto* t = texts[mc::Choose(4)])
      g.push_back({d.name, t});
    w += d.name + ":" + kTypes[d.type] + (d.mandatory ? "!" : "") + std::to_string(d.cat) + "=" + (Get(g, d.name) ? *Get(g, d.name) : "-") + " ";
  }
  bool extra = mc::Choose(2);
  // an attribute without definition is accepted
  if (mc::Choose(2))
    g.insert(g.begin(), {"unknown", "x"});
  auto wrong = Wrong(defs, g);
  std::string what;
  bool refused;
  if (mc::Choose(2))
  {
    Any i(defs);
    if (extra)
      i.Constrain(MakeConstraint<Exists>("extra"));
    for (auto& p : g)
      i.AddAttribute(p.first, p.second);
    auto d = i.GetAttributeDefinitions();
    MC_CHECK(d.size() == defs.size() + 2, w + ": definitions");
    for (size_t k = 0; k < defs.size(); ++k)
      MC_CHECK(d[k + 2].GetName() == defs[k].name && d[k + 2].GetType() == Type(defs[k].type) && d[k + 2].IsMandatory() == defs[k].mandatory && d[k + 2].GetCategory() == CatOf(defs[k].cat), w + ": definition of " + defs[k].name);
    Procedure proc{""};
    refused = Throws([&] { i.Setup(proc); }, &what);
  }
  else
  {
    AnyVar v(defs);
    if (extra)
      v.Constrain(MakeConstraint<Exists>("extra"));
    for (auto& p : g)
      v.AddAttribute(p.first, p.second);
    Workspace ws;
    refused = Throws([&] { v.Setup(ws); }, &what);
  }
  MC_CHECK(refused == (!wrong.empty() || extra), w + ": " + (refused ? "refused: " + what : "accepted"));
  MC_CHECK(!extra || what.find("extra") != std::string::npos, w + ": the failing constraint is not named: " + what);
  if (refused)
    for (auto& d : defs)
    {
      bool named = what.find(d.name) != std::string::npos;
      bool is = std::find(wrong.begin(), wrong.end(), d.name) != wrong.end();
      MC_CHECK(named == is, w + ": " + d.name + (named ? " is named: " : " is not named: ") + what);
    }
}
namespace
{
struct Tree
{
  int op;  // 0: Exists(a) 1: Exists(b) 2: FixedType(a, uint8) 3: FixedType(b, bool)  4: Not 5: And 6: Or 7: Xor
  std::vector<Tree> k;
};
Tree Draw(int depth)
{
  Tree t{mc::Choose(depth > 1 ? 8 : 4), {}};
  int n = t.op < 4 ? 0 : t.op == 4 ? 1 : 2;
  for (int i = 0; i < n; ++i)
    t.k.push_back(Draw(depth - 1));
  return t;
}
Constraint Make(const Tree& t)
{
  switch (t.op)
  {
  case 0:
    return MakeConstraint<Exists>("a");
  case 1:
    return MakeConstraint<Exists>("b");
  case 2:
    return MakeConstraint<FixedType>("a", sup::dto::UnsignedInteger8Type);
  case 3:
    return MakeConstraint<FixedType>("b", sup::dto::BooleanType);
  case 4:
    return MakeConstraint<Not>(Make(t.k[0]));
  case 5:
    return MakeConstraint<And>(Make(t.k[0]), Make(t.k[1]));
  case 6:
    return MakeConstraint<Or>(Make(t.k[0]), Make(t.k[1]));
  default:
    return MakeConstraint<Xor>(Make(t.k[0]), Make(t.k[1]));
  }
}
bool Holds(const Tree& t, const Given& g)
{
  switch (t.op)
  {
  case 0:
    return Get(g, "a");
  case 1:
    return Get(g, "b");
  case 2:
    return Get(g, "a") && Literal(2, *Get(g, "a"));
  case 3:
    return Get(g, "b");
  case 4:
    return !Holds(t.k[0], g);
  case 5:
    return Holds(t.k[0], g) && Holds(t.k[1], g);
  case 6:
    return Holds(t.k[0], g) || Holds(t.k[1], g);
  default:
    return Holds(t.k[0], g) != Holds(t.k[1], g);
  }
}
std::string Str(const Tree& t)
{
  static const char* n[] = {"a", "b", "a:uint8", "b:bool", "not", "and", "or", "xor"};
  std::string r = n[t.op];
  for (auto& k : t.k)
    r += "(" + Str(k) + ")";
  return r;
}
}  // namespace
// Constraints: every expression up to a depth on every presence and value of two attributes; also of copies.
SCENARIO(constraints, s.quick = 3, s.thorough = 4)
{
  Tree t = Draw(mc::Depth() > 3 ? 3 : mc::Depth());
  Tree t2{0, {}};
  bool two = mc::Depth() > 3 && mc::Choose(2);
  if (two)
    t2 = Draw(2);
  std::string w = Str(t) + (two ? " , " + Str(t2) : "");
  Constraint c = Make(t);
  int form = mc::Choose(4);
  if (form == 1)
  {
    Constraint copy{c};
    c = MakeConstraint<Exists>("gone");
    c = copy;
    for (auto* x : {"5", "abc"})
      MC_CHECK(copy.Validate({{"a", x}}) == Holds(t, {{"a", x}}), w + ": changed by being copied");
    copy = MakeConstraint<Exists>("gone");
  }
  if (form == 2)
  {
    Constraint moved{std::move(c)};
    for (auto* x : {"5", "abc"})
      MC_CHECK(moved.Validate({{"a", x}}) == Holds(t, {{"a", x}}), w + ": moved");
    c = std::move(moved);
  }
  if (form == 3)
  {
    Constraint copy{c};
    MC_CHECK(copy.GetRepresentation() == c.GetRepresentation(), w + ": representation of a copy");
  }
  Any i;
  AnyVar v;
  i.Constrain(c);
  v.Constrain(c);
  if (two)
  {
    i.Constrain(Make(t2));
    v.Constrain(Make(t2));
  }
  Given g;
  const char* av[] = {nullptr, "5", "abc", ""};
  for (int a = 0; a < 4; ++a)
    for (int b = 0; b < 2; ++b)
    {
      Given given;
      if (av[a])
        given.push_back({"a", av[a]});
      if (b)
        given.push_back({"b", "x"});
      MC_CHECK(c.Validate(given) == Holds(t, given), w + " with a=" + (av[a] ? av[a] : "-") + " b=" + std::to_string(b));
    }
  int a = mc::Choose(4), b = mc::Choose(2);
  if (av[a])
    g.push_back({"a", av[a]});
  if (b)
    g.push_back({"b", "x"});
  for (auto& p : g)
  {
    i.AddAttribute(p.first, p.second);
    v.AddAttribute(p.first, p.second);
  }
  bool holds = Holds(t, g) && (!two || Holds(t2, g));
  Procedure proc{""};
  Workspace ws;
  MC_CHECK(Throws([&] { i.Setup(proc); }) == !holds, w + ": instruction");
  MC_CHECK(Throws([&] { v.Setup(ws); }) == !holds, w + ": variable");
}
// Every sequence of attribute operations.
SCENARIO(operations, s.quick = 4, s.thorough = 6)
{
  Any i({Def{"a", 2, false, kLit}});
  Given g;
  std::string w;
  auto check = [&]
  {
    auto& l = i.GetStringAttributes();
    MC_CHECK(l.size() == g.size(), w + ": number of attributes");
    for (size_t k = 0; k < g.size(); ++k)
      MC_CHECK(l[k].first == g[k].first && l[k].second == g[k].second, w + ": attribute " + g[k].first);
  };
  Procedure proc{""};
  for (int s = 0; s < mc::Depth(); ++s)
  {
    int op = mc::Choose(6);
    std::string n = op == 5 ? "name" : op % 2 ? "a" : "b";
    std::string v = mc::Choose(2) ? "7" : "x";
    auto* old = Get(g, n);
    w += std::to_string(op) + v + " ";
    if (op < 2)
    {
      MC_CHECK(i.AddAttribute(n, v) == !old, w + ": add");
      if (!old)
        g.push_back({n, v});
    }
    else if (op < 4)
    {
      MC_CHECK(i.SetAttribute(n, v) == (old != nullptr), w + ": set");
      for (auto& p : g)
        if (p.first == n)
          p.second = v;
    }
    else if (op == 4)
    {
      StringAttributeList l{{"a", v}, {"b", v}, {"a", "9"}};
      bool all = true;
      for (auto& p : l)
      {
        bool has = Get(g, p.first);
        all = all && !has;
        if (!has)
          g.push_back(p);
      }
      MC_CHECK(i.AddAttributes(l) == all, w + ": add several");
    }
    else
    {
      i.SetName(v);
      if (old)
      {
        for (auto& p : g)
          if (p.first == n)
            p.second = v;
      }
      else
        g.push_back({n, v});
      MC_CHECK(i.GetName() == v, w + ": name");
    }
    check();
    bool bad = Get(g, "a") && *Get(g, "a") == "x";
    std::string what, fresh;
    MC_CHECK(Throws([&] { i.Setup(proc); }, &what) == bad, w + ": setup");
    // what is wrong is told as by an instruction that was never set up
    Any j({Def{"a", 2, false, kLit}});
    j.AddAttributes(g);
    MC_CHECK(Throws([&] { j.Setup(proc); }, &fresh) == bad && what == fresh, w + ": setup says [" + what + "], a new instruction [" + fresh + "]");
  }
  // definitions are unique
  MC_CHECK(Throws([&] { i.Define("a"); }) && Throws([&] { i.Define("name"); }), w + ": a second definition of an attribute");
}
namespace
{
// Attributes of the instructions and variables that the documentation declares: mandatory ones with a valid value.
struct Doc
{
  const char* type;
  std::vector<std::pair<std::string, std::string>> mandatory, optional;  // optional: name, a literal that is not valid ("" if every text is)
  int kids;
};
const std::vector<Doc>& Docs()
{
  static const std::vector<Doc> docs = {
    {"Choice", {{"varName", "v"}}, {}, 2},
    {"ParallelSequence", {}, {{"successThreshold", "-1"}, {"failureThreshold", "x"}}, 2},
    {"UserChoice", {}, {{"description", ""}}, 2},
    {"For", {{"elementVar", "v"}, {"arrayVar", "arr"}}, {}, 1},
    {"Listen", {{"varNames", "v"}}, {{"forceSuccess", ""}}, 1},
    {"Repeat", {}, {{"maxCount", "many"}}, 1},
    {"AddElement", {{"inputVar", "v"}, {"outputVar", "v"}}, {}, 0},
    {"AddMember", {{"inputVar", "v"}, {"memberName", "v"}, {"outputVar", "v"}}, {}, 0},
    {"Condition", {{"varName", "v"}}, {}, 0},
    {"Copy", {{"inputVar", "v"}, {"outputVar", "v"}}, {}, 0},
    {"Decrement", {{"varName", "v"}}, {}, 0},
    {"Equals", {{"leftVar", "v"}, {"rightVar", "v"}}, {}, 0},
    {"GreaterThan", {{"leftVar", "v"}, {"rightVar", "v"}}, {}, 0},
    {"GreaterThanOrEqual", {{"leftVar", "v"}, {"rightVar", "v"}}, {}, 0},
    {"Increment", {{"varName", "v"}}, {}, 0},
    {"Input", {{"outputVar", "v"}}, {{"description", ""}}, 0},
    {"LessThan", {{"leftVar", "v"}, {"rightVar", "v"}}, {}, 0},
    {"LessThanOrEqual", {{"leftVar", "v"}, {"rightVar", "v"}}, {}, 0},
    {"Message", {{"text", "v"}}, {}, 0},
    {"Output", {{"fromVar", "v"}}, {{"description", ""}}, 0},
    {"ResetVariable", {{"varName", "v"}}, {}, 0},
    {"UserConfirmation", {{"description", "v"}}, {{"okText", ""}, {"cancelText", ""}}, 0},
    {"VarExists", {{"varName", "v"}}, {}, 0},
    {"Wait", {}, {{"timeout", "long"}, {"blocking", ""}}, 0},
    {"WaitForVariable", {{"timeout", "1.0"}, {"varName", "v"}}, {{"equalsVar", ""}}, 0},
    {"WaitForVariables", {{"timeout", "1.0"}, {"varType", "MyType"}}, {}, 0},
    {"Fail", {}, {}, 0},
    {"Succeed", {}, {}, 0},
    {"Sequence", {}, {}, 2},
    {"Fallback", {}, {}, 2},
    {"ReactiveSequence", {}, {}, 2},
    {"ReactiveFallback", {}, {}, 2},
    {"Inverter", {}, {}, 1},
    {"ForceSuccess", {}, {}, 1},
    {"Async", {}, {}, 1},
  };
  return docs;
}
}  // namespace
// The attributes of every built-in instruction: all subsets of the mandatory ones, and every optional one that is wrong;
// in a procedure, next to other instructions.
SCENARIO(builtin, s.quick = 1, s.thorough = 1)
{
  auto& d = Docs()[mc::Choose(static_cast<int>(Docs().size()))];
  unsigned have = mc::Choose(1 << d.mandatory.size());
  int bad = mc::Choose(1 + static_cast<int>(d.optional.size()));
  std::string w = std::string(d.type) + " with";
  auto i = Node(d.type);
  bool ok = true;
  for (size_t k = 0; k < d.mandatory.size(); ++k)
    if (have >> k & 1)
    {
      i->AddAttribute(d.mandatory[k].first, d.mandatory[k].second);
      w += " " + d.mandatory[k].first;
    }
    else
      ok = false;
  if (bad)
  {
    auto& o = d.optional[bad - 1];
    i->AddAttribute(o.first, o.second);
    w += " " + o.first + "='" + o.second + "'";
    ok = ok && o.second.empty();
  }
  // attributes that all instructions have
  int common = mc::Choose(7);
  static const char* const kCommon[][2] = {{"isRoot", "true"}, {"name", "n"}, {"isRoot", "main"}, {"showCollapsed", "true"}, {"showCollapsed", "no"}, {"showCollapsed", ""}};
  if (common)
  {
    i->AddAttribute(kCommon[common - 1][0], kCommon[common - 1][1]);
    w += std::string(" ") + kCommon[common - 1][0] + "='" + kCommon[common - 1][1] + "'";
    // any text reads as a boolean
  }
  for (int k = 0; k < d.kids; ++k)
    AppendChildInstruction(*i, Node("Succeed"));
  Procedure proc{""};
  std::unique_ptr<Instruction> root;
  if (mc::Choose(2))
    root = Node("Sequence", Node("Succeed"), Node("Inverter", std::move(i)));
  else
    root = std::move(i);
  proc.AddVariable("v", wsm::Local(R"({"type":"int32"})", "0"));
  proc.PushInstruction(std::move(root));
  bool refused = Throws([&] { proc.Setup(); });
  MC_CHECK(refused == !ok, w + ": " + (refused ? "refused" : "accepted"));
}
SCENARIO(builtin2, s.quick = 1, s.thorough = 1)
{
  Procedure proc{""};
  int what = mc::Choose(3);
  bool ok = true;
  std::string w;
  if (what == 0)
  {
    // Log: a message or a variable
    int m = mc::Choose(2), v = mc::Choose(2), s = mc::Choose(4);
    const char* sev[] = {nullptr, "info", "trace", "loud"};
    auto i = Node("Log");
    if (m)
      i->AddAttribute("message", "hello");
    if (v)
      i->AddAttribute("inputVar", "v");
    if (sev[s])
      i->AddAttribute("severity", sev[s]);
    ok = m || v;
    w = "Log " + std::to_string(m) + std::to_string(v) + std::to_string(s);
    proc.PushInstruction(std::move(i));
    if (s == 3)
    {
      // an unknown severity: refused at setup or a failure at execution
      Ui ui;
      proc.AddVariable("v", wsm::Local(R"({"type":"int32"})", "0"));
      if (!Throws([&] { proc.Setup(); }))
      {
        MC_CHECK(ok, w);
        proc.ExecuteSingle(ui);
        MC_CHECK(proc.GetStatus() == ES::FAILURE, w + ": an unknown severity");
      }
      return;
    }
  }
  else if (what == 1)
  {
    // Local: a value needs a type
    int t = mc::Choose(5), v = mc::Choose(4), dyn = mc::Choose(2);
    const char* types[] = {nullptr, R"({"type":"uint8"})", R"({"type":"string"})", "uint8", R"({"type":"unknown"})"};
    const char* values[] = {nullptr, "5", "300", R"("five")"};
    auto x = GlobalVariableRegistry().Create("Local");
    if (types[t])
      x->AddAttribute("type", types[t]);
    if (values[v])
      x->AddAttribute("value", values[v]);
    if (dyn)
      x->AddAttribute("dynamicType", "true");
    ok = t == 0 ? v == 0 : t > 2 ? false : v == 0 || (t == 1 ? v == 1 : v == 3);
    w = "Local " + std::to_string(t) + std::to_string(v) + std::to_string(dyn);
    proc.AddVariable("x", std::move(x));
    proc.PushInstruction(Node("Succeed"));
  }
  else
  {
    // the procedure itself
    const char* values[] = {nullptr, "0.5", "fast", "", "1e-2", "true"};
    int a = mc::Choose(6), b = mc::Choose(6);
    if (values[a])
      proc.AddAttribute("tickTimeout", values[a]);
    if (values[b])
      proc.AddAttribute("timingAccuracy", values[b]);
    auto fine = [](int k) { return k == 0 || k == 1 || k == 4; };
    ok = fine(a) && fine(b);
    w = "Procedure " + std::to_string(a) + std::to_string(b);
    proc.PushInstruction(Node("Succeed"));
  }
  proc.AddVariable("v", wsm::Local(R"({"type":"int32"})", "0"));
  bool refused = Throws([&] { proc.Setup(); });
  MC_CHECK(refused == !ok, w + ": " + (refused ? "refused" : "accepted"));
}
// Copies of definitions are equal and independent.
SCENARIO(definitions, s.quick = 1, s.thorough = 1)
{
  auto draw = [] { return Def{mc::Choose(2) ? "p" : "q", mc::Choose(5), mc::Choose(2) != 0, mc::Choose(3)}; };
  auto make = [](const Def& d)
  {
    AttributeDefinition r{d.name, Type(d.type)};
    // the last word counts
    for (int k = 2 * mc::Choose(2); k > 0; --k)
      r.SetMandatory(k % 2 == 0).SetCategory(k % 2 ? AttributeCategory::kBoth : AttributeCategory::kVariableName);
    r.SetMandatory(d.mandatory).SetCategory(CatOf(d.cat));
    return r;
  };
  auto same = [](const AttributeDefinition& a, const Def& d) { return a.GetName() == d.name && a.GetType() == Type(d.type) && a.IsMandatory() == d.mandatory && a.GetCategory() == CatOf(d.cat); };
  Def x = draw(), y = draw();
  auto a = make(x), b = make(y);
  int op = mc::Choose(4);
  if (op == 0)
  {
    AttributeDefinition c{a};
    MC_CHECK(same(c, x), "copy");
    c.SetMandatory(!x.mandatory);
  }
  if (op == 1)
  {
    b = a;
    MC_CHECK(same(b, x), "copy assignment");
    b.SetMandatory(!x.mandatory);
  }
  if (op == 2)
  {
    AttributeDefinition c{std::move(b)};
    MC_CHECK(same(c, y), "move");
  }
  if (op == 3)
  {
    AttributeDefinition c = make(x);
    c = std::move(b);
    MC_CHECK(same(c, y), "move assignment");
  }
  MC_CHECK(same(a, x), "a copy changes its source");
}

namespace
{
template <typename T>
void Scalar(const sup::dto::AnyType& type, const std::vector<T>& values)
{
  AnyValue v{type, values[mc::Choose(static_cast<int>(values.size()))]};
  auto text = utils::CreateAttributeString(v);
  MC_CHECK(text.first, "no text for a scalar");
  auto back = utils::ParseAttributeString(type, text.second);
  MC_CHECK(back.first && back.second == v && back.second.GetType() == type, "text '" + text.second + "' denotes another value");
  Any i;
  class Typed : public Instruction
  {
  public:
    explicit Typed(const sup::dto::AnyType& t) : Instruction("Typed") { AddAttributeDefinition("a", t); }
    ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ES::SUCCESS; }
  } t{type};
  t.AddAttribute("a", text.second);
  Procedure proc{""};
  t.Setup(proc);
  Workspace ws;
  Ui ui;
  AnyValue w;
  MC_CHECK(t.GetAttributeValue("a", ws, ui, w) && w == v && w.GetType() == type, "attribute '" + text.second + "' has another value");
  T x{};
  MC_CHECK(t.GetAttributeValueAs("a", ws, ui, x) && x == v.As<T>(), "attribute '" + text.second + "' converts to another value");
}
template <typename T>
std::vector<T> Range()
{
  return {0, 1, std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), static_cast<T>(std::numeric_limits<T>::max() - 1), static_cast<T>(100)};
}
}  // namespace
// The text of every scalar value denotes that value again.
SCENARIO(texts, s.quick = 1, s.thorough = 1)
{
  using namespace sup::dto;
  switch (mc::Choose(14))
  {
  case 0:
    return Scalar<int8>(SignedInteger8Type, Range<int8>());
  case 1:
    return Scalar<uint8>(UnsignedInteger8Type, Range<uint8>());
  case 2:
    return Scalar<int16>(SignedInteger16Type, Range<int16>());
  case 3:
    return Scalar<uint16>(UnsignedInteger16Type, Range<uint16>());
  case 4:
    return Scalar<int32>(SignedInteger32Type, Range<int32>());
  case 5:
    return Scalar<uint32>(UnsignedInteger32Type, Range<uint32>());
  case 6:
    return Scalar<int64>(SignedInteger64Type, Range<int64>());
  case 7:
    return Scalar<uint64>(UnsignedInteger64Type, Range<uint64>());
  case 8:
    return Scalar<float64>(Float64Type, {0.0, 0.1, -1.5, 1e100, 1.0 / 3});
  case 9:
    return Scalar<float32>(Float32Type, {0.0f, 0.5f, -1.5f, 1.0f / 3});
  case 10:
  {
    bool b = mc::Choose(2);
    auto t = utils::CreateAttributeString({BooleanType, b});
    MC_CHECK(t.first && utils::ParseAttributeString(BooleanType, t.second).second == AnyValue(BooleanType, b), "bool");
    return;
  }
  case 11:
  {
    static const char* texts[] = {"", "a", " a ", "\"quoted\"", "back\\slash", "line\nbreak", "<&>'", "@v", "5", "true", "\xc3\xa9"};
    std::string s = texts[mc::Choose(11)];
    auto t = utils::CreateAttributeString({StringType, s});
    MC_CHECK(t.first && utils::ParseAttributeString(StringType, t.second).second == AnyValue(StringType, s), "string '" + s + "'");
    return;
  }
  case 12:
    MC_CHECK(!utils::CreateAttributeString(AnyValue{}).first && !utils::ParseAttributeString(EmptyType, "").first, "no value has a text");
    return;
  default:
    AnyType t{{{"x", BooleanType}}};
    MC_CHECK(!utils::CreateAttributeString(AnyValue{t}).first && !utils::ParseAttributeString(t, "{\"x\":true}").first, "a structure has a text");
  }
}
