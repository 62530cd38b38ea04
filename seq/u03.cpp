// Requests and replies: every kind, content and single corruption from a pool.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
#include <sup/oac-tree/user_input_request.h>
#include <sup/dto/anytype_helper.h>
using namespace uu;
namespace
{
AnyValue Pick(std::string& w, bool named = false)
{
  using namespace sup::dto;
  AnyValue arr(0, StringType);
  arr.AddElement(AnyValue{std::string("x")});
  AnyValue two(2, StringType);
  AnyValue nums(2, SignedInteger32Type);
  AnyValue empty(0, StringType);
  static const char* names[] = {"empty", "int32", "uint64", "bool", "string", "empty string", "struct", "array of strings", "array of int32", "no strings", "text struct", "float64"};
  AnyValue pool[] = {AnyValue{}, AnyValue{int32(-7)}, AnyValue{uint64(18446744073709551615u)}, AnyValue{true}, AnyValue{std::string("text")}, AnyValue{std::string()}, AnyValue{{{"a", int8(3)}, {"b", two}}, "my::type"}, arr, nums, empty,
                     AnyValue{{{"text", std::string("Which?")}}}, AnyValue{2.5}};
  int k = mc::Choose(12);
  w += std::string(named ? "" : " ") + names[k];
  return pool[k];
}
std::string Opt(int n) { return n == 0 ? "" : n == 1 ? "one" : n == 2 ? "two \"quoted\"" : "one"; }
bool Same(const AnyValue& a, const AnyValue& b) { return a.GetType() == b.GetType() && a == b; }
}  // namespace

SCENARIO(value_request, s.quick = 1, s.thorough = 1)
{
  std::string w = "request for";
  AnyValue v = Pick(w);
  const char* texts[] = {"", "Give x", "a\nb"};
  std::string text = texts[mc::Choose(3)];
  auto r = CreateUserValueRequest(v, text);
  MC_CHECK(r == CreateUserValueRequest(v, text) && !(r != CreateUserValueRequest(v, text)), w + ": equality");
  MC_CHECK(r != kInvalidUserInputRequest && r != CreateUserValueRequest(v, text + "."), w + ": inequality");
  std::string into = " into";
  AnyValue out = Pick(into);
  AnyValue before = out;
  MC_CHECK((r == CreateUserValueRequest(out, text)) == (v.GetType() == out.GetType()), w + into + ": equality of requests");
  std::string desc = "untouched";
  // what is damaged: nothing, the kind (other), the kind (none), the description
  int bad = mc::Choose(5);
  if (bad == 1)
    r.m_request_type = InputRequestType::kUserChoice;
  if (bad == 2)
    r.m_request_type = InputRequestType::kInvalid;
  if (bad == 3)
    r.m_meta_data = AnyValue{sup::dto::int8(1)};
  if (bad == 4)
    r.m_meta_data = AnyValue{};
  w += into + " damage " + std::to_string(bad);
  bool ok = ParseUserValueRequest(r, out, desc);
  MC_CHECK(ok == (bad == 0), w + ": accepted " + std::to_string(ok));
  if (ok)
  {
    MC_CHECK(out.GetType() == v.GetType(), w + ": type");
    MC_CHECK(desc == text, w + ": description " + desc);
  }
  else
    MC_CHECK(Same(out, before) && desc == "untouched", w + ": refused, but changes its output");
  std::vector<std::string> opts{"q"};
  AnyValue meta{sup::dto::int8(5)};
  if (bad != 1)
    MC_CHECK(!ParseUserChoiceRequest(r, opts, meta) && opts.size() == 1 && meta == AnyValue{sup::dto::int8(5)}, w + ": taken for a choice");
}
SCENARIO(choice_request, s.quick = 3, s.thorough = 4)
{
  std::string w = "choice of";
  std::vector<std::string> options;
  int n = mc::Choose(mc::Depth() + 1);
  for (int k = 0; k < n; ++k)
    options.push_back(Opt(mc::Choose(4)));
  for (auto& o : options)
    w += " '" + o + "'";
  AnyValue meta = Pick(w);
  auto r = CreateUserChoiceRequest(options, meta);
  MC_CHECK(r == CreateUserChoiceRequest(options, meta), w + ": equality");
  auto more = options;
  more.push_back("");
  MC_CHECK(r != CreateUserChoiceRequest(more, meta) && r != kInvalidUserInputRequest, w + ": inequality");
  std::vector<std::string> out{"untouched"};
  AnyValue m;
  int bad = mc::Choose(9);
  using sup::dto::EmptyStruct;
  AnyValue arr(static_cast<sup::dto::uint64>(n), sup::dto::StringType);
  auto damaged = EmptyStruct();
  if (bad == 1)
    r.m_request_type = InputRequestType::kUserValue;
  if (bad == 2)
    r.m_request_type = InputRequestType::kInvalid;
  if (bad == 3)
    r.m_meta_data = AnyValue{};
  if (bad == 4)
    r.m_meta_data = AnyValue{std::string("x")};
  if (bad >= 5)
  {
    // without one of the fields or with another kind of options
    auto names = r.m_meta_data.MemberNames();
    MC_CHECK(names.size() == 2, w + ": fields");
    int first = r.m_meta_data[names[0]].GetType() == arr.GetType() && n > 0 ? 0 : 0;
    // the options are the field that is an array of strings also for another metadata
    auto other = CreateUserChoiceRequest(options, AnyValue{sup::dto::int8(1)});
    first = sup::dto::IsArrayValue(other.m_meta_data[names[0]]) ? 0 : 1;
    for (int k = 0; k < 2; ++k)
    {
      bool is_opt = k == first;
      if ((bad == 5 && is_opt) || (bad == 6 && !is_opt))
        continue;
      if (bad == 7 && is_opt)
        damaged.AddMember(names[k], AnyValue{std::string("one")});
      else if (bad == 8 && is_opt)
        damaged.AddMember(names[k], AnyValue{2, sup::dto::SignedInteger32Type});
      else
        damaged.AddMember(names[k], r.m_meta_data[names[k]]);
    }
    r.m_meta_data = damaged;
  }
  w += " damage " + std::to_string(bad);
  bool ok = ParseUserChoiceRequest(r, out, m);
  MC_CHECK(ok == (bad == 0), w + ": accepted " + std::to_string(ok));
  if (ok)
    MC_CHECK(out == options && Same(m, meta), w + ": content");
  else
    MC_CHECK(out.size() == 1 && out[0] == "untouched" && sup::dto::IsEmptyValue(m), w + ": refused, but changes its output");
  AnyValue v;
  std::string d = "untouched";
  if (bad != 1)
    MC_CHECK(!ParseUserValueRequest(r, v, d) && d == "untouched" && sup::dto::IsEmptyValue(v), w + ": taken for a value");
}
SCENARIO(replies, s.quick = 1, s.thorough = 1)
{
  std::string w;
  if (mc::Choose(2))
  {
    bool result = mc::Choose(2);
    AnyValue v = Pick(w);
    w = "reply " + std::to_string(result) + w;
    auto r = CreateUserValueReply(result, v);
    MC_CHECK(r == CreateUserValueReply(result, v) && r != CreateUserValueReply(!result, v) && r != kInvalidUserInputReply, w + ": equality");
    auto [ok, got] = ParseUserValueReply(r);
    MC_CHECK(ok == result && (ok ? Same(got, v) : sup::dto::IsEmptyValue(got)), w + ": parsed");
    auto c = ParseUserChoiceReply(r);
    MC_CHECK(!c.first && c.second == -1, w + ": taken for a choice");
    r.m_request_type = mc::Choose(2) ? InputRequestType::kInvalid : InputRequestType::kUserChoice;
    MC_CHECK(!ParseUserValueReply(r).first, w + ": wrong kind");
  }
  else
  {
    bool result = mc::Choose(2);
    int choices[] = {-2147483647 - 1, -1, 0, 1, 2, 127, 128, 256, 65536, 2147483647};
    int c = choices[mc::Choose(10)];
    w = "choice " + std::to_string(c) + " " + std::to_string(result);
    auto r = CreateUserChoiceReply(result, c);
    MC_CHECK(r == CreateUserChoiceReply(result, c) && r != CreateUserChoiceReply(result, c / 2 + 7) && r != CreateUserChoiceReply(!result, c), w + ": equality");
    auto [ok, got] = ParseUserChoiceReply(r);
    MC_CHECK(ok == result && got == (ok ? c : -1), w + ": parsed as " + std::to_string(got));
    auto v = ParseUserValueReply(r);
    MC_CHECK(!v.first && sup::dto::IsEmptyValue(v.second), w + ": taken for a value");
    // a damaged payload or kind
    int bad = mc::Choose(3);
    if (bad == 0)
    {
      r.m_payload = Pick(w);
      if (r.m_payload.GetType() == sup::dto::SignedInteger32Type)
        return;
    }
    if (bad == 1)
      r.m_request_type = InputRequestType::kInvalid;
    if (bad == 2)
      r.m_request_type = InputRequestType::kUserValue;
    auto d = ParseUserChoiceReply(r);
    MC_CHECK(!d.first && d.second == -1, w + ": damaged, but accepted");
  }
}

// The metadata of a choice: every field absent, of its type, or of another type; unknown fields do not matter.
SCENARIO(choice_metadata, s.quick = 1, s.thorough = 1)
{
  using sup::dto::AnyType;
  static const std::pair<const char*, AnyType> fields[] = {{"text", sup::dto::StringType}, {"dialog_type", sup::dto::UnsignedInteger32Type}, {"modal", sup::dto::BooleanType}, {"title", sup::dto::StringType}, {"informative", sup::dto::StringType}, {"details", sup::dto::StringType}};
  auto full = CreateUserChoiceMetadata();
  MC_CHECK(IsUserChoiceMetadata(full) && sup::dto::IsStructValue(full), "the metadata that is made is metadata");
  MC_CHECK(GetMainTextFromMetadata(full).empty(), "text of new metadata");
  AnyValue m = mc::Choose(2) ? CreateUserChoiceMetadata() : sup::dto::EmptyStruct();
  std::string w = "metadata", text;
  bool ok = true;
  int extra = mc::Choose(2);
  if (extra)
    m.AddMember("other", AnyValue{sup::dto::int8(1)});
  for (auto& [n, t] : fields)
  {
    // absent, of its type, an integer, another scalar, a structure
    int k = mc::Choose(t == sup::dto::StringType ? 5 : 6);
    if (k == 0)
      continue;
    w += std::string(" ") + n + std::to_string(k);
    AnyValue v{t};
    if (k == 1 && t == sup::dto::StringType)
      v.ConvertFrom(AnyValue{std::string("the ") + n});
    if (k == 2)
      v = AnyValue{sup::dto::SignedInteger32Type};
    if (k == 3)
      v = t == sup::dto::BooleanType ? AnyValue{sup::dto::uint32(1)} : AnyValue{true};
    if (k == 4)
      v = sup::dto::EmptyStruct();
    if (k == 5)
      v = AnyValue{std::string("1")};
    if (k == 1 && std::string(n) == "text")
      text = "the text";
    ok = ok && k == 1;
    m.AddMember(n, v);
  }
  MC_CHECK(IsUserChoiceMetadata(m) == ok, w + ": taken for metadata " + std::to_string(!ok));
  MC_CHECK(GetMainTextFromMetadata(m) == text, w + ": main text");
  if (mc::Choose(2))
  {
    AnyValue others[] = {AnyValue{}, AnyValue{sup::dto::int8(1)}, AnyValue{std::string("text")}, AnyValue{2, sup::dto::StringType}, sup::dto::ArrayValue({AnyValue{true}})};
    MC_CHECK(!IsUserChoiceMetadata(others[mc::Choose(5)]), "a value that is no structure is taken for metadata");
  }
}
