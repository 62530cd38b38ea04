// Listen: every history of writes, ticks, halts and resets with every child script.
// LIB: full
#include "user_util.h"
#include "wsmodel.h"
using namespace uu;
namespace
{
// Script per execution step; it records the values it sees.
class Obs : public Instruction
{
public:
  explicit Obs(std::string script) : Instruction("Obs"), m_script{std::move(script)} {}
  static std::string seen;
  static int inits;

private:
  bool InitHook(UserInterface&, Workspace&) override
  {
    ++inits;
    return true;
  }
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace& ws) override
  {
    AnyValue v;
    for (auto n : {"a", "b"})
      seen += (ws.GetValue(n, v) && !sup::dto::IsEmptyValue(v) ? std::to_string(v["x"].As<int>()) : "-");
    seen += " ";
    char c = m_script[m_pos++ % m_script.size()];
    return c == 'N' ? ES::NOT_FINISHED : c == 'R' ? ES::RUNNING : c == 'S' ? ES::SUCCESS : ES::FAILURE;
  }
  std::string m_script;
  size_t m_pos = 0;
};
std::string Obs::seen;
int Obs::inits;
}  // namespace

SCENARIO(history, s.quick = 5, s.thorough = 6)
{
  const char* scripts[] = {"S", "F", "NS", "RRS", "NF", "SF", "RSNF"};
  const char* lists[] = {"a", "a,b", "b,a", "0missing,a", "missing", "a.x,b.x"};
  const char* forces[] = {"-", "true", "false", "@yes", "@no", "@missing"};
  std::string script = scripts[mc::Choose(7)];
  int l = mc::Choose(6), f = mc::Choose(6);
  if (l >= 2 && f >= 2)
    return;
  int depth = mc::Depth() - (l >= 2 || f >= 2 ? 2 : script.size() > 1);
  bool force = f == 1 || f == 3;
  Procedure proc{""};
  Workspace ws;
  Ui ui;
  const char* type = R"({"type":"","attributes":[{"x":{"type":"int32"}},{"y":{"type":"int32"}}]})";
  ws.AddVariable("a", wsm::Local(type, R"({"x":0,"y":0})"));
  ws.AddVariable("b", wsm::Local("", "", true));
  ws.AddVariable("yes", wsm::Local(R"({"type":"bool"})", "true"));
  ws.AddVariable("no", wsm::Local(R"({"type":"bool"})", "false"));
  ws.Setup();
  auto instr = Attr(Node("Listen", std::unique_ptr<Instruction>(new Obs(script))), "varNames", lists[l]);
  if (f)
    instr->AddAttribute("forceSuccess", forces[f]);
  instr->Setup(proc);
  Obs::seen.clear();
  Obs::inits = 0;
  // members: x and y of a and b; b may be empty
  struct Val
  {
    bool ok = true;
    int x = 0, y = 0;
  } a, b;
  b.ok = false;
  bool has_a = l != 4, has_b = l == 1 || l == 2 || l == 5, members = l == 5;
  std::string ca, cb;  // what was last seen
  auto str = [&](const Val& v) { return !v.ok ? std::string{} : std::to_string(v.x) + (members ? "" : "," + std::to_string(v.y)); };
  std::string w = std::string("Listen ") + lists[l] + " " + (f ? forces[f] : "") + " " + script + ": ", seen;
  size_t pos = 0;
  int inits = 0;
  ES model = ES::NOT_STARTED, child = ES::NOT_STARTED;
  bool halted = false;
  for (int d = 0; d < depth + 1; ++d)
  {
    int op = mc::Choose(d == depth ? 1 : 8);
    auto write = [&](const char* n, Val& v, int x, int y)
    {
      v.ok = true;
      v.x = x;
      v.y = y;
      AnyValue val = {{{"x", {sup::dto::SignedInteger32Type, x}}, {"y", {sup::dto::SignedInteger32Type, y}}}};
      MC_CHECK(ws.SetValue(n, val), w + ": write");
      w += std::string(n) + ":=" + std::to_string(x) + "," + std::to_string(y) + " ";
    };
    switch (op)
    {
    case 0:
    {
      w += "tick ";
      bool run = false;
      if (model == ES::NOT_STARTED)
      {
        ca.clear();
        cb.clear();
        child = ES::NOT_STARTED;
        model = f == 5 ? ES::FAILURE : ES::NOT_FINISHED;
      }
      instr->ExecuteSingle(ui, ws);
      auto st = instr->GetStatus();
      if (NeedsExecute(model))
      {
        if (halted)
        {
          // nothing is executed; whether the status says so is left open
          if (st == ES::FAILURE)
            model = st;
        }
        else
        {
          run = child == ES::NOT_FINISHED || child == ES::RUNNING;
          if (!run)
          {
            if (has_a && str(a) != ca && a.ok)
            {
              ca = str(a);
              run = true;
            }
            if (has_b && b.ok && str(b) != cb)
            {
              cb = str(b);
              run = true;
            }
            inits += run;
          }
          if (run)
          {
            seen += std::to_string(a.x) + (b.ok ? std::to_string(b.x) : "-") + " ";
            char c = script[pos++ % script.size()];
            child = c == 'N' ? ES::NOT_FINISHED : c == 'R' ? ES::RUNNING : c == 'S' ? ES::SUCCESS : ES::FAILURE;
            model = child == ES::SUCCESS || (child == ES::FAILURE && force) ? ES::NOT_FINISHED : child;
          }
          else
          {
            model = ES::RUNNING;
            child = ES::NOT_STARTED;
          }
        }
      }
      MC_CHECK(seen == Obs::seen, w + ": the child saw " + Obs::seen + "instead of " + seen);
      MC_CHECK(inits == Obs::inits, w + ": number of executions of the child");
      MC_CHECK(st == model, w + ": status is " + C(st) + " instead of " + C(model));
      break;
    }
    case 1:
      write("a", a, a.x + 1, a.y);
      break;
    case 2:
      write("a", a, a.x, a.y + 1);
      break;
    case 3:
      write("b", b, b.x + 1, 0);
      break;
    case 4:
      // the same value again, or the initial one
      if (mc::Choose(2))
        write("a", a, a.x, a.y);
      else
        write("a", a, 0, 0);
      break;
    case 5:
      w += "b:=empty ";
      ws.ResetVariable("b");
      b.ok = false;
      break;
    case 6:
      w += "halt ";
      instr->Halt();
      halted = true;
      break;
    default:
      w += "reset ";
      instr->Reset(ui);
      model = ES::NOT_STARTED;
      halted = false;
    }
    MC_CHECK(instr->GetStatus() == model, w + ": status");
    MC_CHECK(seen == Obs::seen, w + ": the child is executed without a tick");
  }
}
