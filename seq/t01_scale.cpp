// Trees with many children and many levels.
// LIB: full
#include "user_util.h"
using namespace uu;
namespace
{
class Counter : public Instruction
{
public:
  Counter(std::vector<int>& log, int id, bool ok) : Instruction("Counter"), m_log{log}, m_id{id}, m_ok{ok} {}

private:
  ES ExecuteSingleImpl(UserInterface&, Workspace&) override
  {
    m_log.push_back(m_id);
    return m_ok ? ES::SUCCESS : ES::FAILURE;
  }
  std::vector<int>& m_log;
  int m_id;
  bool m_ok;
};
struct Quiet : public DefaultUserInterface
{
  void Log(int, const std::string&) override {}
};
ES Run(Instruction& i, long max)
{
  Procedure proc{""};
  Workspace ws;
  Quiet ui;
  ws.Setup();
  i.Setup(proc);
  for (long t = 0; t < max && !IsFinishedStatus(i.GetStatus()); ++t)
    i.ExecuteSingle(ui, ws);
  return i.GetStatus();
}
}  // namespace
SCENARIO(many_children, s.quick = 1, s.thorough = 1)
{
  const int sizes[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500};
  const char* types[] = {"Sequence", "Fallback", "ReactiveSequence", "ReactiveFallback"};
  int size = sizes[mc::Choose(16)], type = mc::Choose(4), pos = mc::Choose(4);
  int odd = pos == 0 ? 0 : pos == 1 ? size / 2 : pos == 2 ? size - 1 : size;
  bool seq = type % 2 == 0;
  std::vector<int> log;
  auto r = Node(types[type]);
  for (int i = 0; i < size; ++i)
    AppendChildInstruction(*r, std::unique_ptr<Instruction>(new Counter(log, i, seq != (i == odd))));
  auto st = Run(*r, size + 2);
  std::string w = std::string(types[type]) + " of " + std::to_string(size) + " odd " + std::to_string(odd) + ": ";
  MC_CHECK(st == (seq == (odd < size) ? ES::FAILURE : ES::SUCCESS), w + "ends " + C(st));
  std::vector<int> expect;
  for (int i = 0; i < size && i <= odd; ++i)
    expect.push_back(i);
  MC_CHECK(log == expect, w + "executes " + std::to_string(log.size()) + " leaves");
}
SCENARIO(many_levels, s.quick = 1, s.thorough = 1)
{
  const int sizes[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257};
  int size = sizes[mc::Choose(15)], type = mc::Choose(4);
  bool ok = mc::Choose(2);
  std::vector<int> log;
  std::unique_ptr<Instruction> r{new Counter(log, 0, ok)};
  for (int i = 0; i < size; ++i)
  {
    auto n = Node(type == 0 ? "Inverter" : type == 1 ? "Sequence" : type == 2 ? "Fallback" : i % 2 ? "Inverter" : "Sequence");
    AppendChildInstruction(*n, std::move(r));
    r = std::move(n);
  }
  int inversions = type == 0 ? size : type == 3 ? size / 2 : 0;
  auto st = Run(*r, 5);
  MC_CHECK(st == (ok == (inversions % 2 == 0) ? ES::SUCCESS : ES::FAILURE) && log.size() == 1, std::to_string(size) + " levels end " + C(st));
}
