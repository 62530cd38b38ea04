// Large counts and many children.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
using namespace uu;
namespace
{
// Counts its executions; gives one result except in one of them.
class Counter : public Instruction
{
public:
  Counter(long& n, long at, char then) : Instruction("Counter"), m_n{n}, m_at{at}, m_then{then} {}

private:
  ES ExecuteSingleImpl(UserInterface&, Workspace&) override { return ++m_n == m_at ? (m_then == 'F' ? ES::FAILURE : ES::NOT_FINISHED) : ES::SUCCESS; }
  long& m_n;
  long m_at;
  char m_then;
};
struct Quiet : public DefaultUserInterface
{
  void Message(const std::string&) override {}
  void Log(int, const std::string&) override {}
};
}  // namespace
SCENARIO(many_repeats, s.quick = 9, s.thorough = 10)
{
  const long counts[] = {127, 128, 255, 256, 257, 32768, 65536, 65537, 100001, 1000001};
  long max = counts[mc::Choose(mc::Depth())];
  int kind = mc::Choose(3);
  long n = 0, ticks = 0, at = kind == 0 ? 0 : max - 1;
  auto r = Attr(Node("Repeat"), "maxCount", std::to_string(max));
  AppendChildInstruction(*r, std::unique_ptr<Instruction>(new Counter(n, at, kind == 1 ? 'F' : 'N')));
  Procedure proc{""};
  Workspace ws;
  Quiet ui;
  ws.Setup();
  r->Setup(proc);
  while (!IsFinishedStatus(r->GetStatus()) && ticks <= max + 2)
  {
    r->ExecuteSingle(ui, ws);
    ++ticks;
  }
  std::string w = "repeat " + std::to_string(max) + " kind " + std::to_string(kind) + ": ";
  MC_CHECK(r->GetStatus() == (kind == 1 ? ES::FAILURE : ES::SUCCESS), w + "ends " + C(r->GetStatus()));
  MC_CHECK(n == (kind == 0 ? max : kind == 1 ? max - 1 : max + 1), w + "executes " + std::to_string(n) + " steps");
}
SCENARIO(many_choices, s.quick = 1, s.thorough = 1)
{
  const int sizes[] = {8, 9, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300};
  int size = sizes[mc::Choose(15)];
  int which = mc::Choose(5);
  int idx = which == 0 ? 0 : which == 1 ? size / 2 : which == 2 ? size - 1 : which == 3 ? size : size + 256;
  std::vector<long> n(size, 0);
  auto c = Attr(Node("Choice"), "varName", "sel");
  for (int i = 0; i < size; ++i)
    AppendChildInstruction(*c, std::unique_ptr<Instruction>(new Counter(n[i], 0, 'S')));
  Procedure proc{""};
  Workspace ws;
  ws.AddVariable("sel", wsm::Local(R"({"type":"int32"})", std::to_string(idx)));
  Quiet ui;
  ws.Setup();
  c->Setup(proc);
  for (int t = 0; t < 5 && !IsFinishedStatus(c->GetStatus()); ++t)
    c->ExecuteSingle(ui, ws);
  std::string w = "choice " + std::to_string(idx) + " of " + std::to_string(size) + ": ";
  MC_CHECK(c->GetStatus() == (idx < size ? ES::SUCCESS : ES::FAILURE), w + "ends " + C(c->GetStatus()));
  for (int i = 0; i < size; ++i)
    MC_CHECK(n[i] == (i == idx), w + "child " + std::to_string(i) + " executed " + std::to_string(n[i]) + " times");
}
