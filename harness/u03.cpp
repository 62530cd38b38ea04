// The command line interface: every short text typed for a value of every scalar type or for a choice.
// LIB: full
// APP: oac-tree-cli/cl_interface.cpp
#include "user_util.h"
#include "wsmodel.h"
#include <sup/oac-tree/user_input_request.h>
#include <sup/log/basic_logger.h>
#include <sup/oac-tree/log_severity.h>
#include <app/oac-tree-cli/cl_interface.h>
#include <cmath>
#include <cstring>
#include <iostream>
#include <optional>
#include <sstream>
using namespace uu;
namespace
{
// The terminal.
struct Terminal
{
  std::stringbuf in, out;
  std::streambuf *old_in, *old_out;
  Terminal() : old_in{std::cin.rdbuf(&in)}, old_out{std::cout.rdbuf(&out)} {}
  ~Terminal()
  {
    std::cin.rdbuf(old_in);
    std::cout.rdbuf(old_out);
  }
  void Type(const std::string& text)
  {
    in.str(text + "\n");
    out.str("");
    std::cin.clear();
  }
};
bool Space(char c) { return c == ' ' || c == '\t'; }
std::string Trim(std::string s)
{
  while (!s.empty() && Space(s.front()))
    s.erase(s.begin());
  while (!s.empty() && Space(s.back()))
    s.pop_back();
  return s;
}
// Decimal integer in a range
std::optional<__int128> Integer(const std::string& text, __int128 lo, __int128 hi)
{
  std::string s = Trim(text);
  size_t p = !s.empty() && (s[0] == '-' || s[0] == '+') ? 1 : 0;
  if (p == s.size())
    return {};
  __int128 v = 0;
  for (size_t i = p; i < s.size(); ++i)
  {
    if (s[i] < '0' || s[i] > '9' || v > (__int128(1) << 100))
      return {};
    v = v * 10 + (s[i] - '0');
  }
  if (s[0] == '-')
    v = -v;
  if (v < lo || v > hi)
    return {};
  return v;
}
struct IntType
{
  const char* name;
  sup::dto::AnyType type;
  int bits;
  bool sign;
};
std::vector<IntType> IntTypes()
{
  using namespace sup::dto;
  return {{"int8", SignedInteger8Type, 8, true}, {"uint8", UnsignedInteger8Type, 8, false}, {"int16", SignedInteger16Type, 16, true}, {"uint16", UnsignedInteger16Type, 16, false}, {"int32", SignedInteger32Type, 32, true}, {"uint32", UnsignedInteger32Type, 32, false}, {"int64", SignedInteger64Type, 64, true}, {"uint64", UnsignedInteger64Type, 64, false}};
}
std::string Dec(__int128 v)
{
  if (v == 0)
    return "0";
  std::string r;
  bool neg = v < 0;
  if (neg)
    v = -v;
  for (; v > 0; v /= 10)
    r.insert(r.begin(), char('0' + int(v % 10)));
  return neg ? "-" + r : r;
}
struct Cli
{
  Terminal t;
  sup::log::BasicLogger logger{[](int, const std::string&, const std::string&) {}, "", sup::oac_tree::log::SUP_SEQ_LOG_EMERG};
  CLInterface ui{logger};
  UserInputReply Ask(const UserInputRequest& r, const std::string& text)
  {
    t.Type(text);
    auto f = ui.RequestUserInput(r);
    MC_CHECK(f && f->IsValid() && f->WaitFor(100.0) && f->IsReady(), "no reply");
    return f->GetValue();
  }
};
}  // namespace

SCENARIO(integers, s.quick = 0, s.thorough = 0)
{
  auto types = IntTypes();
  auto& ty = types[mc::Choose(8)];
  __int128 lo = ty.sign ? -(__int128(1) << (ty.bits - 1)) : 0;
  __int128 hi = (__int128(1) << (ty.sign ? ty.bits - 1 : ty.bits)) - 1;
  std::vector<std::string> texts;
  // all short texts with a given first character
  const std::string alphabet = "-+015 a";
  int first = mc::Choose(static_cast<int>(alphabet.size()) + 1);
  if (first == static_cast<int>(alphabet.size()))
  {
    texts = {"", "7"};
    for (__int128 d = -2; d <= 2; ++d)
      for (__int128 b : {lo, hi, __int128(0), __int128(127), __int128(255), __int128(1) << 16, __int128(1) << 32, __int128(1) << 64})
        for (int neg = 0; neg < 2; ++neg)
          texts.push_back(Dec(neg ? -(b + d) : b + d));
    texts.push_back("1.5");
    texts.push_back("0x10");
    texts.push_back("99999999999999999999999999");
    texts.push_back("true");
  }
  else
    for (int k = 0; k < 7 * 7; ++k)
    {
      std::string s{alphabet[first]};
      s += alphabet[k / 7];
      texts.push_back(s + alphabet[k % 7]);
      if (k < 7)
        texts.push_back(std::string{alphabet[first]} + alphabet[k]);
      if (k == 0)
        texts.push_back(std::string{alphabet[first]});
    }
  Cli cli;
  auto req = CreateUserValueRequest(AnyValue{ty.type}, "Number");
  for (auto& s : texts)
  {
    std::string w = std::string(ty.name) + " '" + s + "'";
    auto r = cli.Ask(req, s);
    MC_CHECK(r.m_request_type == InputRequestType::kUserValue, w + ": kind");
    auto [ok, v] = ParseUserValueReply(r);
    auto want = Integer(s, lo, hi);
    MC_CHECK(ok == want.has_value(), w + ": " + (ok ? "accepted" : "refused"));
    if (ok)
    {
      MC_CHECK(v.GetType() == ty.type, w + ": type");
      __int128 got = ty.sign ? __int128(v.As<sup::dto::int64>()) : __int128(v.As<sup::dto::uint64>());
      MC_CHECK(got == *want, w + ": read as " + Dec(got));
    }
  }
  mc::Outcome(ty.name);
}
SCENARIO(others, s.quick = 0, s.thorough = 0)
{
  Cli cli;
  int kind = mc::Choose(6);
  using namespace sup::dto;
  if (kind == 0)
  {
    struct
    {
      const char* s;
      int want;
    } c[] = {{"true", 1}, {"false", 0}, {" true ", 1}, {"true ", 1}, {"", -1}, {"yes", -1}, {"2", -1}, {"truefalse", -1}, {"tru", -1}, {"true x", -1}};
    for (auto& x : c)
    {
      auto [ok, v] = ParseUserValueReply(cli.Ask(CreateUserValueRequest(AnyValue{false}, "b"), x.s));
      MC_CHECK(ok == (x.want >= 0), std::string("bool '") + x.s + "'");
      if (ok)
        MC_CHECK(v.GetType() == BooleanType && v.As<bool>() == x.want, std::string("bool '") + x.s + "'");
    }
  }
  else if (kind == 1)
  {
    for (std::string s : {"", "a", "a b", " lead", "trail ", "12", "\"q\"", "true"})
    {
      auto [ok, v] = ParseUserValueReply(cli.Ask(CreateUserValueRequest(AnyValue{std::string()}, "s"), s));
      MC_CHECK(ok && v.GetType() == StringType && v.As<std::string>() == s, "string '" + s + "'");
    }
  }
  else if (kind == 2 || kind == 3)
  {
    struct
    {
      const char* s;
      double want;
      bool ok;
    } c[] = {{"0", 0, true}, {"1.5", 1.5, true}, {"-2.25", -2.25, true}, {"+3", 3, true}, {"1e2", 100, true}, {" .5", 0.5, true}, {"", 0, false}, {"x", 0, false}, {"1.5x", 0, false}, {"1 2", 0, false}, {"-", 0, false}, {"1e999", 0, false}, {"1e30", 1e30, true}};
    for (auto& x : c)
    {
      auto [ok, v] = ParseUserValueReply(cli.Ask(CreateUserValueRequest(AnyValue{kind == 2 ? Float32Type : Float64Type}, "f"), x.s));
      MC_CHECK(ok == x.ok, std::string("float '") + x.s + "': " + (ok ? "accepted" : "refused"));
      if (ok)
        MC_CHECK(v.GetType() == (kind == 2 ? Float32Type : Float64Type) && (kind == 2 ? v.As<float32>() == static_cast<float>(x.want) : v.As<float64>() == x.want), std::string("float '") + x.s + "'");
    }
  }
  else if (kind == 4)
  {
    // a character
    for (std::string s : {"a", "7", "", "ab"})
    {
      auto [ok, v] = ParseUserValueReply(cli.Ask(CreateUserValueRequest(AnyValue{Character8Type}, "c"), s));
      MC_CHECK(ok == (s.size() == 1), "char '" + s + "': " + (ok ? "accepted" : "refused"));
      if (ok)
        MC_CHECK(v.GetType() == Character8Type && v.As<char8>() == s[0], "char '" + s + "'");
    }
  }
  else
  {
    // values that are not scalars, and requests of no kind
    auto [ok, v] = ParseUserValueReply(cli.Ask(CreateUserValueRequest(AnyValue{{{"a", int8(3)}}}, "s"), "3"));
    MC_CHECK(!ok, "a structure");
    auto [ok2, v2] = ParseUserValueReply(cli.Ask(CreateUserValueRequest(AnyValue{}, "s"), "3"));
    MC_CHECK(!ok2, "an empty value");
    auto r = cli.Ask(kInvalidUserInputRequest, "3");
    MC_CHECK(r == kInvalidUserInputReply, "a request of no kind");
    auto req = CreateUserValueRequest(AnyValue{int8(3)}, "s");
    req.m_meta_data = AnyValue{};
    MC_CHECK(!ParseUserValueReply(cli.Ask(req, "3")).first, "a malformed request");
  }
  mc::Outcome(std::to_string(kind));
}
SCENARIO(choices, s.quick = 0, s.thorough = 0)
{
  Cli cli;
  int n = mc::Choose(5);
  n = n == 4 ? 12 : n;
  std::vector<std::string> options;
  for (int k = 0; k < n; ++k)
    options.push_back("option" + std::to_string(k));
  int meta = mc::Choose(3);
  AnyValue m = meta == 0 ? AnyValue{} : meta == 1 ? AnyValue{std::string("x")} : AnyValue{{{"text", std::string("Which?")}}};
  auto req = CreateUserChoiceRequest(options, m);
  for (std::string s : {"", "0", "1", "2", "3", "4", "11", "12", "13", "-1", "+1", " 2 ", "01", "x", "1x", "1 2", "1.5", "4294967297", "option0", "99999999999999999999"})
  {
    std::string w = std::to_string(n) + " options, '" + s + "'";
    auto r = cli.Ask(req, s);
    MC_CHECK(r.m_request_type == InputRequestType::kUserChoice, w + ": kind");
    auto [ok, c] = ParseUserChoiceReply(r);
    auto want = Integer(s, 1, n);
    MC_CHECK(ok == want.has_value(), w + ": " + (ok ? "accepted as " + std::to_string(c) : "refused"));
    if (ok)
      MC_CHECK(c == *want - 1, w + ": selects " + std::to_string(c));
    auto out = cli.t.out.str();
    for (int k = 0; k < n; ++k)
      MC_CHECK(out.find(std::to_string(k + 1) + ": option" + std::to_string(k) + "\n") != std::string::npos, w + ": an option is not shown");
    if (meta == 2)
      MC_CHECK(out.find("Which?") != std::string::npos, w + ": the question is not shown");
  }
  mc::Outcome(std::to_string(n));
}
