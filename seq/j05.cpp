// Indices reported by jobs with many instructions and variables.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
#include <sup/oac-tree/instruction_map.h>
#include <sup/oac-tree/job_interface_adapter.h>
using namespace uu;
namespace
{
struct Last : public Recorder
{
  long n = -1, instr = -1, var = -1, calls = 0;
  ES st = ES::NOT_STARTED;
  bool bp = false;
  int val = -1;
  void InitNumberOfInstructions(sup::dto::uint32 k) override { n = k; }
  void InstructionStateUpdated(sup::dto::uint32 i, InstructionState s) override
  {
    ++calls;
    instr = i;
    st = s.m_execution_status;
    bp = s.m_breakpoint_set;
  }
  void VariableUpdated(sup::dto::uint32 i, const AnyValue& v, bool) override
  {
    ++calls;
    var = i;
    val = v.As<int>();
  }
};
}  // namespace
SCENARIO(many, s.quick = 8, s.thorough = 8)
{
  const int sizes[] = {127, 128, 129, 255, 256, 300, 65536, 65537};
  int size = sizes[mc::Choose(mc::Depth())];
  std::string w = std::to_string(size) + ": ";
  auto root = Node("Sequence");
  auto r = root.get();
  std::vector<Instruction*> all{r};
  for (int i = 1; i < size; ++i)
  {
    auto c = Node("Message");
    all.push_back(c.get());
    AppendChildInstruction(*r, std::move(c));
  }
  auto proc = Proc(std::move(root));
  int vars = std::min(size, 300);
  for (int i = 0; i < vars; ++i)
    proc->AddVariable("v" + std::to_string(i), wsm::Local(R"({"type":"int32"})", "0"));
  Last io;
  JobInterfaceAdapter ad{*proc, io};
  ad.InitializeInstructionTree(r);
  MC_CHECK(io.n == size, w + "number of instructions");
  auto& map = ad.GetInstructionMap();
  std::vector<bool> flag(size, false);
  for (int i = 0; i < size; ++i)
  {
    io.calls = 0;
    if (i % 3 == 0)
    {
      ad.OnBreakpointChange(all[i], true);
      flag[i] = true;
      MC_CHECK(io.calls == 1 && io.instr == static_cast<long>(map.FindInstructionIndex(all[i])) && io.bp, w + "breakpoint of " + std::to_string(i));
    }
    io.calls = 0;
    ad.UpdateInstructionStatus(all[i]);
    MC_CHECK(io.calls == 1 && io.instr == static_cast<long>(map.FindInstructionIndex(all[i])) && io.bp == flag[i] && io.st == ES::NOT_STARTED, w + "status of " + std::to_string(i));
  }
  // again: the states of the instructions do not mix
  for (int i = 0; i < size; ++i)
  {
    ad.UpdateInstructionStatus(all[i]);
    MC_CHECK(io.bp == flag[i], w + "later status of " + std::to_string(i));
  }
  std::vector<int> used(vars, 0);
  for (int i = 0; i < vars; ++i)
  {
    io.calls = 0;
    ad.VariableUpdated("v" + std::to_string(i), AnyValue{sup::dto::int32(i)}, true);
    MC_CHECK(io.calls == 1 && io.val == i && io.var >= 0 && io.var < vars && ++used[io.var] == 1, w + "variable " + std::to_string(i));
  }
}
