// Procedure preamble: every history of additions, copies and reads.
// LIB: core
#include "mc.h"
#include <utility>
#include <sup/oac-tree/procedure_preamble.h>
using namespace sup::oac_tree;
namespace
{
struct Model
{
  std::vector<std::pair<int, std::string>> types;
  std::vector<std::string> plugins;
};
const char* const kText[] = {"a.json", "", "libplugin.so", "{\"type\":\"t\"}"};
void Verify(const ProcedurePreamble& p, const Model& m, const std::string& trace)
{
  auto t = p.GetTypeRegistrations();
  MC_CHECK(t.size() == m.types.size(), trace + ": number of type registrations");
  for (size_t i = 0; i < t.size(); ++i)
  {
    MC_CHECK(static_cast<int>(t[i].GetRegistrationMode()) == m.types[i].first, trace + ": mode");
    MC_CHECK(t[i].GetString() == m.types[i].second, trace + ": text");
  }
  MC_CHECK(p.GetPluginPaths() == m.plugins, trace + ": plugin paths");
}
}  // namespace
SCENARIO(histories, s.quick = 5, s.thorough = 6)
{
  ProcedurePreamble p[2];
  Model m[2];
  std::string trace;
  for (int d = 0; d < mc::Depth(); ++d)
  {
    int op = mc::Choose(10);
    int w = op / 5, k = op % 5;
    trace += std::to_string(op) + " ";
    switch (k)
    {
    case 0:
    case 1:
    {
      int t = mc::Choose(2) + k;
      p[w].AddTypeRegistration({k == 0 ? TypeRegistrationInfo::kJSONFile : TypeRegistrationInfo::kJSONString, kText[t]});
      m[w].types.push_back({k == 0 ? TypeRegistrationInfo::kJSONFile : TypeRegistrationInfo::kJSONString, kText[t]});
      break;
    }
    case 2:
    {
      int t = mc::Choose(2) * 2;
      p[w].AddPluginPath(kText[t]);
      m[w].plugins.push_back(kText[t]);
      break;
    }
    case 3:
      p[w] = p[1 - w];
      m[w] = m[1 - w];
      break;
    default:
    {
      // a returned list is a snapshot
      auto l = p[w].GetPluginPaths();
      l.push_back("x");
      auto t = p[w].GetTypeRegistrations();
      t.clear();
      break;
    }
    }
    Verify(p[0], m[0], trace);
    Verify(p[1], m[1], trace);
  }
  mc::Outcome(std::to_string(m[0].types.size()) + "," + std::to_string(m[0].plugins.size()) + "," +
              std::to_string(m[1].types.size()) + "," + std::to_string(m[1].plugins.size()));
}
SCENARIO(many, s.quick = 12, s.thorough = 40)
{
  ProcedurePreamble p;
  Model m;
  int n = mc::Choose(mc::Depth()), k = mc::Choose(3);
  for (int i = 0; i < n; ++i)
  {
    auto t = std::to_string(i % (k + 1));
    p.AddPluginPath(t);
    m.plugins.push_back(t);
    p.AddTypeRegistration({i % 2 ? TypeRegistrationInfo::kJSONFile : TypeRegistrationInfo::kJSONString, t});
    m.types.push_back({i % 2 ? TypeRegistrationInfo::kJSONFile : TypeRegistrationInfo::kJSONString, t});
  }
  ProcedurePreamble copy{p};
  Verify(copy, m, "many");
  Verify(p, m, "many");
  mc::Outcome(std::to_string(n));
}

// Copies, moves, assignments to itself: every history over three preambles.
SCENARIO(copies, s.quick = 4, s.thorough = 5)
{
  std::vector<ProcedurePreamble> p(3);
  std::vector<Model> m(3);
  std::string trace;
  int next = 0;
  for (int d = 0; d < mc::Depth(); ++d)
  {
    int k = mc::Choose(9);
    trace += std::to_string(k) + " ";
    auto text = "t" + std::to_string(next++);
    if (k < 3)
    {
      p[k].AddTypeRegistration({next % 2 ? TypeRegistrationInfo::kJSONFile : TypeRegistrationInfo::kJSONString, text});
      m[k].types.push_back({next % 2 ? TypeRegistrationInfo::kJSONFile : TypeRegistrationInfo::kJSONString, text});
      p[k].AddPluginPath(text + ".so");
      m[k].plugins.push_back(text + ".so");
    }
    else if (k == 3)
    {
      ProcedurePreamble& self = p[0];
      p[0] = self;
    }
    else if (k == 4)
    {
      ProcedurePreamble tmp{p[0]};
      p[1] = std::move(tmp);
      m[1] = m[0];
    }
    else if (k == 5)
    {
      std::swap(p[1], p[2]);
      std::swap(m[1], m[2]);
    }
    else if (k == 6)
    {
      auto l = p[0].GetTypeRegistrations();
      for (auto& t : l)
        p[2].AddTypeRegistration(t);
      for (auto& t : p[0].GetPluginPaths())
        p[2].AddPluginPath(t);
      m[2].types.insert(m[2].types.end(), m[0].types.begin(), m[0].types.end());
      m[2].plugins.insert(m[2].plugins.end(), m[0].plugins.begin(), m[0].plugins.end());
    }
    else if (k == 7)
    {
      p.push_back(p[0]);
      p.pop_back();
      p[2] = ProcedurePreamble{};
      m[2] = Model{};
    }
    else
    {
      p[0].AddPluginPath("only.so");
      m[0].plugins.push_back("only.so");
    }
    for (int i = 0; i < 3; ++i)
      Verify(p[i], m[i], trace + "#" + std::to_string(i));
  }
  mc::Outcome(trace);
}
// Any number of registrations and paths, with texts of any length and content.
SCENARIO(sizes, s.quick = 0, s.thorough = 0)
{
  using namespace std::string_literals;
  const int counts[] = {0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000};
  const std::string texts[] = {"", " ", " padded ", "a\0b"s, "\n\t", "C:\\dir\\x.so", "/a/b/../c.json", "./x", "\xc3\xa4",
                               std::string(15, 'x'), std::string(16, 'x'), std::string(4096, 'x'), "{\"type\": \"\\\"q\\\"\"}",
                               "a,b;c:d", "A.JSON", "a.json"};
  int n = counts[mc::Choose(19)], t = mc::Choose(16), which = mc::Choose(3);
  ProcedurePreamble p;
  Model m;
  for (int i = 0; i < n; ++i)
  {
    auto text = texts[(t + (which == 2 ? i : 0)) % 16];
    auto mode = (i / 2) % 2 ? TypeRegistrationInfo::kJSONFile : TypeRegistrationInfo::kJSONString;
    if (which != 1)
    {
      TypeRegistrationInfo info{mode, text};
      MC_CHECK(info.GetRegistrationMode() == mode && info.GetString() == text, "single registration");
      auto copy = info;
      TypeRegistrationInfo other{TypeRegistrationInfo::kJSONFile, "other"};
      other = copy;
      p.AddTypeRegistration(other);
      m.types.push_back({mode, text});
    }
    if (which != 0)
    {
      p.AddPluginPath(text);
      m.plugins.push_back(text);
    }
  }
  Verify(p, m, std::to_string(n) + " entries");
  Verify(p, m, std::to_string(n) + " entries, again");
  const ProcedurePreamble copy{p};
  p.AddPluginPath("later");
  p.AddTypeRegistration({TypeRegistrationInfo::kJSONString, "later"});
  Verify(copy, m, std::to_string(n) + " entries in a copy");
  mc::Outcome(std::to_string(n) + "/" + std::to_string(t));
}
