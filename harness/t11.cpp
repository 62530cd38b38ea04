// Included procedures in asynchronous branches: halting, resetting and destroying their owner at any moment.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
#include <sup/oac-tree/sequence_parser.h>
#include <fstream>
using namespace uu;
namespace
{
void Files()
{
  static bool done = []
  {
    std::ofstream{"t11inc.xml"} << "<?xml version=\"1.0\" encoding=\"UTF-8\"?><Procedure>"
                                   "<Sequence name=\"Body\"><Increment varName=\"x\"/><Increment varName=\"x\"/></Sequence>"
                                   "<WaitForVariable name=\"Wait\" varName=\"x\" equalsVar=\"y\" timeout=\"0.5\"/>"
                                   "<Async name=\"Later\"><Increment varName=\"x\"/></Async>"
                                   "<Workspace><Local name=\"x\" type='{\"type\":\"int32\"}' value=\"0\"/><Local name=\"y\" type='{\"type\":\"int32\"}' value=\"3\"/></Workspace></Procedure>";
    return true;
  }();
  (void)done;
}
std::unique_ptr<Procedure> Main(std::unique_ptr<Instruction> root)
{
  std::unique_ptr<Procedure> p{new Procedure{"t11main.xml"}};
  p->PushInstruction(std::move(root));
  p->AddVariable("x", wsm::Local(R"({"type":"int32"})", "100"));
  return p;
}
std::unique_ptr<Instruction> Inc(const std::string& path) { return Attr(Attr(Node("IncludeProcedure"), "file", "t11inc.xml"), "path", path); }
}  // namespace

// The owner goes away while an included branch is executing.
SCENARIO(destroy, s.quick = 1, s.thorough = 3)
{
  Files();
  Ui ui;
  const char* paths[] = {"Body", "Wait", "Later"};
  int path = mc::Choose(3);
  auto p = Main(mc::Choose(2) ? Node("Async", Inc(paths[path])) : Node("ParallelSequence", Inc(paths[path]), Node("Increment")));
  if (p->RootInstruction()->ChildrenCount() == 2)
    p->RootInstruction()->ChildInstructions()[1]->AddAttribute("varName", "x");
  p->Setup();
  int ticks = 1 + mc::Choose(2);
  for (int k = 0; k < ticks && NeedsExecute(p->GetStatus()); ++k)
    p->ExecuteSingle(ui);
  if (mc::Choose(2))
    p->Halt();
  int end = mc::Choose(2);
  if (end)
  {
    p->Reset(ui);
    MC_CHECK(p->GetStatus() == ES::NOT_STARTED, "status after the reset");
    AnyValue v;
    MC_CHECK(p->GetVariableValue("x", v) && v.As<int>() == 100, "a variable is not reset");
    auto& ws = p->GetContext().GetWorkspace("t11inc.xml");
    MC_CHECK(ws.GetValue("x", v) && v.As<int>() == 0, "a variable of the included procedure is " + std::to_string(v.As<int>()) + " after the reset");
  }
  p.reset();
  mc::Outcome("end");
}
