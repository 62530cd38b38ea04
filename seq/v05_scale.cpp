// Workspaces with many variables.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
using namespace uu;
namespace
{
std::map<std::string, int> g_count;
class Acting : public Variable
{
public:
  explicit Acting(const std::string& id) : Variable("Acting"), m_id{id} {}

private:
  bool GetValueImpl(AnyValue&) const override { return false; }
  bool SetValueImpl(const AnyValue&) override { return false; }
  SetupTeardownActions SetupImpl(const Workspace&) override
  {
    ++g_count["up"];
    SetupTeardownActions r;
    r.m_identifier = m_id;
    auto id = m_id;
    r.m_setup = [id] { ++g_count["setup" + id]; };
    r.m_teardown = [id] { ++g_count["teardown" + id]; };
    return r;
  }
  void TeardownImpl() override { ++g_count["down"]; }
  std::string m_id;
};
const int kSizes[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000};
}  // namespace
SCENARIO(many_actions, s.quick = 1, s.thorough = 1)
{
  int n = kSizes[mc::Choose(19)], ids = mc::Choose(2) ? n : 1 + n / 3;
  bool again = mc::Choose(2), destroy = mc::Choose(2);
  std::string w = std::to_string(n) + " variables, " + std::to_string(ids) + " identifiers: ";
  g_count.clear();
  int rounds = again ? 2 : 1;
  {
    Workspace ws;
    for (int i = 0; i < n; ++i)
      ws.AddVariable("v" + std::to_string(i), std::unique_ptr<Variable>(new Acting(std::to_string(i % ids))));
    for (int r = 0; r < rounds; ++r)
    {
      ws.Setup();
      MC_CHECK(g_count["up"] == n * (r + 1), w + "variables set up: " + std::to_string(g_count["up"]));
      for (int i = 0; i < ids; ++i)
        MC_CHECK(g_count["setup" + std::to_string(i)] == r + 1, w + "setup action " + std::to_string(i));
      if (destroy && r == rounds - 1)
        break;
      ws.Teardown();
      MC_CHECK(g_count["down"] == n * (r + 1), w + "variables torn down: " + std::to_string(g_count["down"]));
    }
  }
  for (int i = 0; i < ids; ++i)
    MC_CHECK(g_count["teardown" + std::to_string(i)] == rounds, w + "teardown action " + std::to_string(i) + " ran " + std::to_string(g_count["teardown" + std::to_string(i)]) + " times");
}
