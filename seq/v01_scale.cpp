// Many variables, many fields, long arrays and texts.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
using namespace uu;
using wsm::N;
using wsm::Read;
using wsm::S;
namespace
{
const int kSizes[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
}
SCENARIO(many_variables, s.quick = 1, s.thorough = 1)
{
  int n = kSizes[mc::Choose(19)];
  Workspace ws;
  auto name = [](int i) { return "v" + std::to_string(i); };
  for (int i = 0; i < n; ++i)
    ws.AddVariable(name(i), wsm::Local(R"({"type":"int32"})", std::to_string(i)));
  ws.Setup();
  int changed = mc::Choose(3);
  int at = changed == 0 ? 0 : changed == 1 ? n / 2 : n - 1;
  auto names = ws.VariableNames();
  MC_CHECK(static_cast<int>(names.size()) == n, "number of names");
  for (int pass = 0; pass < 2; ++pass)
  {
    for (int i = 0; i < n; ++i)
    {
      AnyValue v;
      MC_CHECK(names[i] == name(i) && ws.HasVariable(name(i)) && ws.GetValue(name(i), v), name(i) + " of " + std::to_string(n));
      MC_CHECK(v.As<int>() == (pass && i == at ? -5 : i), name(i) + " of " + std::to_string(n) + " is " + Read(v).Str());
    }
    MC_CHECK(ws.SetValue(name(at), AnyValue{sup::dto::int32(-5)}), "write");
  }
}
SCENARIO(long_values, s.quick = 1, s.thorough = 1)
{
  int n = kSizes[mc::Choose(19)];
  int kind = mc::Choose(3), which = mc::Choose(3);
  int at = which == 0 ? 0 : which == 1 ? n / 2 : n - 1;
  std::string w = std::to_string(n) + " " + std::to_string(kind) + ": ";
  Workspace ws;
  std::string type, field;
  if (kind == 0)
  {
    type = R"({"type":"","multiplicity":)" + std::to_string(n) + R"(,"element":{"type":"int32"}})";
    field = "v[" + std::to_string(at) + "]";
  }
  else if (kind == 1)
  {
    type = R"({"type":"","attributes":[)";
    for (int i = 0; i < n; ++i)
      type += std::string(i ? "," : "") + R"({"m)" + std::to_string(i) + R"(":{"type":"int32"}})";
    type += "]}";
    field = "v.m" + std::to_string(at);
  }
  else
  {
    type = R"({"type":"string"})";
    field = "v";
  }
  ws.AddVariable("v", wsm::Local(type, ""));
  ws.AddVariable("o", wsm::Local(type, ""));
  ws.Setup();
  AnyValue before, o;
  MC_CHECK(ws.GetValue("v", before), w + "not set up");
  if (kind == 2)
  {
    std::string text;
    for (int i = 0; i < n * 100; ++i)
      text += static_cast<char>('a' + i % 26);
    MC_CHECK(ws.SetValue("v", AnyValue{text}), w + "write");
    AnyValue v;
    MC_CHECK(ws.GetValue("v", v) && v.As<std::string>() == text, w + "text of " + std::to_string(text.size()));
    return;
  }
  MC_CHECK(ws.SetValue(field, AnyValue{sup::dto::int32(9)}), w + "write of " + field);
  AnyValue v;
  MC_CHECK(ws.GetValue("v", v), w + "read");
  auto model = Read(before);
  MC_CHECK(static_cast<int>(model.kids.size()) == n, w + "members");
  model.kids[at].second = N("int32", 9);
  MC_CHECK(Read(v) == model, w + "after the write of " + field);
  MC_CHECK(ws.GetValue("o", o) && Read(o) == Read(before), w + "another variable changed");
  AnyValue f;
  MC_CHECK(ws.GetValue(field, f) && f.As<int>() == 9, w + "read of " + field);
}
