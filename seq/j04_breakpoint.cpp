// Breakpoint objects: every history of construction, copies and status changes.
// LIB: core
#include "mc.h"
#include <sup/oac-tree/breakpoint.h>
#include <list>
#include <memory>
#include <vector>
using namespace sup::oac_tree;
namespace
{
int gPlaces[3];
const Instruction* I(int i) { return i == 0 ? nullptr : reinterpret_cast<const Instruction*>(&gPlaces[i - 1]); }
struct M
{
  int instr;
  int status;
};
}  // namespace
SCENARIO(objects, s.quick = 5, s.thorough = 6)
{
  std::vector<Breakpoint> b;
  std::vector<M> m;
  std::string w;
  for (int d = 0; d < mc::Depth(); ++d)
  {
    int n = static_cast<int>(b.size());
    int op = n == 0 ? 0 : mc::Choose(6);
    if (op == 0)
    {
      int i = mc::Choose(3);
      w += "new" + std::to_string(i) + " ";
      b.emplace_back(I(i));
      m.push_back({i, Breakpoint::kSet});
    }
    else if (op == 1 || op == 2)
    {
      int k = mc::Choose(n);
      w += (op == 1 ? "set" : "release") + std::to_string(k) + " ";
      b[k].SetStatus(op == 1 ? Breakpoint::kSet : Breakpoint::kReleased);
      m[k].status = op == 1 ? Breakpoint::kSet : Breakpoint::kReleased;
    }
    else if (op == 3)
    {
      int k = mc::Choose(n);
      w += "copy" + std::to_string(k) + " ";
      b.push_back(Breakpoint(b[k]));
      m.push_back(m[k]);
    }
    else if (op == 4)
    {
      int k = mc::Choose(n);
      w += "assign" + std::to_string(k) + " ";
      b[0] = b[k];
      m[0] = m[k];
    }
    else
    {
      w += "erase ";
      b.erase(b.begin());
      m.erase(m.begin());
    }
    for (size_t i = 0; i < b.size(); ++i)
      for (int again = 0; again < 2; ++again)
      {
        const Breakpoint& c = b[i];
        MC_CHECK(c.GetInstruction() == I(m[i].instr), w + ": instruction of " + std::to_string(i));
        MC_CHECK(static_cast<int>(c.GetStatus()) == m[i].status, w + ": status of " + std::to_string(i));
      }
  }
  std::string o;
  for (auto& x : m)
    o += std::to_string(x.instr) + std::to_string(x.status) + " ";
  mc::Outcome(o);
}
// Many status changes of one object: the last one counts, for every sequence.
SCENARIO(status_histories, s.quick = 12, s.thorough = 16)
{
  Breakpoint bp(I(1));
  MC_CHECK(bp.GetStatus() == Breakpoint::kSet, "starts set");
  std::string w;
  for (int d = 0; d < mc::Depth(); ++d)
  {
    auto s = mc::Choose(2) ? Breakpoint::kReleased : Breakpoint::kSet;
    w += std::to_string(static_cast<int>(s));
    bp.SetStatus(s);
    MC_CHECK(bp.GetStatus() == s, w);
    MC_CHECK(bp.GetInstruction() == I(1), w);
  }
  mc::Outcome(w);
}
