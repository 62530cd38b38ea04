// Breakpoints of a job are set and removed by the index of any instruction of the tree.
// LIB: full
#include "job_util.h"
#include <algorithm>
#include <map>
using namespace ju;
namespace
{
int Count(const std::vector<std::string>& log, const std::string& e) { return static_cast<int>(std::count(log.begin(), log.end(), e)); }
}  // namespace
SCENARIO(every_index, s.quick = 0, s.thorough = 1)
{
  Recorder rec;
  {
    auto pair = [](int first) { return Node("Sequence", Probe::Make(first, "S"), Probe::Make(first + 1, "S")); };
    auto root = Node("Sequence", pair(0), pair(2));
    AppendChildInstruction(*root, Probe::Make(4, "S"));
    LocalJob job{Proc(std::move(root)), rec};
    auto info = job.GetInfo().GetRootInstructionInfo();
    // the leaf that executes first below each index
    std::map<int, int> first;
    std::map<int, bool> is_leaf;
    int leaf = 0;
    first[info->GetIndex()] = 0;
    is_leaf[info->GetIndex()] = false;
    for (auto c : info->Children())
    {
      first[c->GetIndex()] = leaf;
      is_leaf[c->GetIndex()] = c->Children().empty();
      for (auto g : c->Children())
      {
        is_leaf[g->GetIndex()] = true;
        first[g->GetIndex()] = leaf++;
      }
      leaf += c->Children().empty();
    }
    MC_CHECK(first.size() == 8, "indices of the instructions");
    int keep = mc::Choose(9), gone = mc::Choose(10), other = 2 + mc::Choose(7);
    std::string w = "breakpoint " + std::to_string(keep) + ", set and removed " + std::to_string(gone) + ": ";
    bool set_first = mc::Choose(2);
    if (set_first)
      job.SetBreakpoint(keep);
    job.SetBreakpoint(gone);
    job.SetBreakpoint(8 + other);
    if (!set_first && keep != gone)
      job.SetBreakpoint(keep);
    job.RemoveBreakpoint(gone);
    job.RemoveBreakpoint(8 + other);
    bool stop = keep != gone && keep < 8;
    job.Start();
    for (int n = 0;; ++n)
    {
      Settle(1000000000);
      auto st = rec.Current();
      if (st != JobState::kPaused)
      {
        MC_CHECK(st == JobState::kSucceeded && (n == stop || (stop && n > 0 && !is_leaf[keep])), w + "stops " + std::to_string(n) + " times and ends " + St(st));
        break;
      }
      // an instruction with children is next again in each tick that it takes
      MC_CHECK(stop && (n == 0 || !is_leaf[keep]), w + "stops too often: " + Join(mc::GetLog()));
      for (int i = 0; i < 5 && n == 0; ++i)
        MC_CHECK(Count(mc::GetLog(), "e:" + std::to_string(i)) == (i < first[keep]), w + "stops at the wrong place: " + Join(mc::GetLog()));
      job.Start();
    }
    for (int i = 0; i < 5; ++i)
      MC_CHECK(Count(mc::GetLog(), "e:" + std::to_string(i)) == 1, w + Join(mc::GetLog()));
  }
}
