// Information about jobs with many instructions and variables.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
#include <sup/oac-tree/instruction_map.h>
#include <sup/oac-tree/job_info_utils.h>
#include <sup/oac-tree/instruction_info_utils.h>
#include <sup/oac-tree/variable_map.h>
using namespace uu;
SCENARIO(many, s.quick = 9, s.thorough = 9)
{
  const int sizes[] = {100, 127, 128, 255, 256, 257, 400, 65536, 65537};
  int size = sizes[mc::Choose(mc::Depth())];
  bool info = mc::Choose(2) && size < 1000, nested = mc::Choose(2) && size < 1000;
  std::string w = std::to_string(size) + ": ";
  auto root = Node("Sequence");
  auto first = root.get(), parent = first;
  std::vector<const Instruction*> order{first};
  for (int i = 1; i < size; ++i)
  {
    auto c = Node(nested && i % 50 == 0 ? "Sequence" : i % 2 ? "Wait" : "Message");
    c->SetName("n" + std::to_string(i));
    auto p = c.get();
    order.push_back(p);
    AppendChildInstruction(*parent, std::move(c));
    if (nested && i % 50 == 0)
      parent = p;
  }
  auto proc = Proc(std::move(root));
  int vars = std::min(size, 400);
  for (int i = 0; i < vars; ++i)
    proc->AddVariable("v" + std::to_string(i), wsm::Local(R"({"type":"int32"})", std::to_string(i)));
  InstructionMap map{first};
  MC_CHECK(static_cast<int>(map.GetNumberOfInstructions()) == size, w + "number of instructions");
  std::vector<int> used(size, 0);
  for (auto i : order)
  {
    auto k = map.FindInstructionIndex(i);
    MC_CHECK(k < used.size() && ++used[k] == 1, w + "index " + std::to_string(k) + " is not unique");
  }
  auto rev = GetReverseMap(map.GetInstructionIndexMap());
  for (auto i : order)
    MC_CHECK(rev[map.FindInstructionIndex(i)] == i, w + "reverse map");
  VariableMap vm{proc->GetWorkspace()};
  MC_CHECK(static_cast<int>(vm.GetNumberOfVariables()) == vars, w + "number of variables");
  std::vector<int> vused(vars, 0);
  for (int i = 0; i < vars; ++i)
  {
    auto k = vm.FindVariableIndex("v" + std::to_string(i));
    MC_CHECK(k < vused.size() && ++vused[k] == 1, w + "index " + std::to_string(k) + " of a variable is not unique");
  }
  if (!info)
    return;
  auto ji = utils::CreateJobInfo(*proc, map);
  MC_CHECK(static_cast<int>(ji.GetNumberOfInstructions()) == size && static_cast<int>(ji.GetNumberOfVariables()) == vars, w + "numbers of the information");
  auto all = Flatten(*ji.GetRootInstructionInfo());
  MC_CHECK(static_cast<int>(all.size()) == size, w + "size of the information");
  for (auto i : all)
  {
    auto real = rev[i->GetIndex()];
    MC_CHECK(real->GetType() == i->GetType() && real->ChildInstructions().size() == i->Children().size(), w + "information of index " + std::to_string(i->GetIndex()));
    for (auto& a : i->GetAttributes())
      if (a.first == "name")
        MC_CHECK(a.second == real->GetName(), w + "name of index " + std::to_string(i->GetIndex()));
  }
  auto back = utils::ToJobInfo(utils::ToAnyValue(ji));
  MC_CHECK(back == ji, w + "information after encoding");
}
