// Halting, resetting and destroying instructions that interact with the user, at any moment.
// LIB: full
#include "par_util.h"
#include "user_util.h"
#include "wsmodel.h"
using namespace uu;
namespace
{
// 0: Input, 1: UserChoice, 2: UserConfirmation
std::unique_ptr<Instruction> Make(int kind, const std::string& child = "NNS")
{
  if (kind == 0)
    return Attr(Node("Input"), "outputVar", "x");
  if (kind == 2)
    return Attr(Node("UserConfirmation"), "description", "?");
  return Node("UserChoice", Probe::Make(0, "S"), pu::Step::Make(1, child));
}
UserInputReply Reply(int kind) { return kind == 0 ? CreateUserValueReply(true, AnyValue{sup::dto::int32(7)}) : CreateUserChoiceReply(true, kind == 1 ? 1 : 0); }
struct Fixture
{
  Procedure proc{""};
  Workspace ws;
  Ui ui;
  std::unique_ptr<Instruction> instr;
  int kind;
  Fixture(int k, const std::string& child = "NNS") : instr{Make(k, child)}, kind{k}
  {
    ws.AddVariable("x", wsm::Local(R"({"type":"int32"})", "1"));
    ws.Setup();
    instr->Setup(proc);
  }
  int X()
  {
    AnyValue v;
    MC_CHECK(ws.GetValue("x", v), "x");
    return v.As<int>();
  }
  ES Tick()
  {
    instr->ExecuteSingle(ui, ws);
    return instr->GetStatus();
  }
};
std::string Trace() { return Join(mc::GetLog()); }
}  // namespace

// A halt at any moment relative to the ticks and the answer.
SCENARIO(halt, s.quick = 3, s.thorough = 6)
{
  Fixture f(mc::Choose(3));
  bool answered = mc::Choose(2);
  std::atomic<bool> halted{false};
  std::thread user([&] {
    if (answered)
      f.ui.Answer(Reply(f.kind));
  });
  std::thread t([&] {
    f.instr->Halt();
    mc::Log("halted");
    halted = true;
  });
  int stored_after = 0;
  for (int i = 0; i < 6 && NeedsExecute(f.instr->GetStatus()); ++i)
  {
    bool h = halted;
    int x = f.X();
    int made = f.ui.Created();
    f.Tick();
    if (h)
    {
      stored_after += f.X() != x;
      MC_CHECK(f.ui.Created() == made || f.ui.Pending() == 0, "a request is pending after the halt");
      MC_CHECK(f.instr->GetStatus() != ES::SUCCESS || !NeedsExecute(f.instr->GetStatus()), "succeeds after the halt");
    }
    mc::Yield();
  }
  t.join();
  user.join();
  MC_CHECK(f.ui.Pending() == 0, "a request is still pending after the halt: " + Trace());
  MC_CHECK(stored_after == 0, "a value is stored after the halt");
  auto st = f.instr->GetStatus();
  if (!answered)
    MC_CHECK(st == ES::FAILURE || NeedsExecute(st), "succeeds without an answer");
  MC_CHECK((f.X() == 7) == (f.kind == 0 && st == ES::SUCCESS), "stored without success: " + std::string(1, C(st)));
  mc::Outcome(std::to_string(f.kind) + C(st) + Trace());
  // afterwards it works as a new one
  f.instr->Reset(f.ui);
  MC_CHECK(f.ui.Pending() == 0, "a request is still pending after the reset");
  f.ui.Answer(Reply(f.kind));
  int n = 0;
  while (NeedsExecute(f.instr->GetStatus()) && n++ < 20)
    f.Tick();
  MC_CHECK(f.instr->GetStatus() == ES::SUCCESS, "does not succeed after halt and reset");
}
// The chosen child of a user choice is halted too.
SCENARIO(halt_child, s.quick = 3, s.thorough = 5)
{
  Fixture f(1, "B");
  f.ui.Answer(Reply(1));
  std::thread t([&] {
    while (f.instr->ChildInstructions()[1]->GetStatus() == ES::NOT_STARTED)
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
    f.instr->Halt();
  });
  for (int i = 0; i < 8 && NeedsExecute(f.instr->GetStatus()); ++i)
    f.Tick();
  t.join();
  MC_CHECK(f.instr->GetStatus() != ES::SUCCESS, "succeeds after the halt");
}
// Halt, reset and destruction between the ticks.
SCENARIO(histories, s.quick = 0, s.thorough = 0)
{
  int kind = mc::Choose(3);
  bool destroyed = false;
  Ui* ui = nullptr;
  {
    Fixture f(kind);
    ui = &f.ui;
    std::string h;
    bool halted = false, requested = false;
    int ops = 0;
    while (ops++ < 5 && !destroyed)
    {
      int made = f.ui.Created();
      switch (mc::Choose(5))
      {
      case 0:
      {
        h += "tick ";
        ES before = f.instr->GetStatus();
        f.Tick();
        ES after = f.instr->GetStatus();
        if (!NeedsExecute(before))
          MC_CHECK(after == before && f.ui.Created() == made, h + ": executed after it finished");
        else if (!halted && before == ES::NOT_STARTED)
        {
          MC_CHECK(f.ui.Created() == made + 1, h + ": no request is made");
          requested = true;
        }
        else
          MC_CHECK(f.ui.Created() == made || halted, h + ": another request is made");
        if (halted)
          MC_CHECK(f.ui.Pending() == 0 && after != ES::SUCCESS, h + ": continues after the halt");
        break;
      }
      case 1:
        h += "halt ";
        f.instr->Halt();
        halted = NeedsExecute(f.instr->GetStatus()) || halted;
        MC_CHECK(f.ui.Pending() == 0, h + ": a request is pending");
        break;
      case 2:
        h += "reset ";
        f.instr->Reset(f.ui);
        halted = false;
        requested = false;
        MC_CHECK(f.instr->GetStatus() == ES::NOT_STARTED, h + ": not reset");
        MC_CHECK(f.ui.Pending() == 0, h + ": a request is pending");
        break;
      case 3:
        h += "answer ";
        f.ui.Answer(Reply(kind));
        break;
      default:
        h += "destroy ";
        f.instr.reset();
        MC_CHECK(f.ui.Pending() == 0, h + ": a request is pending");
        destroyed = true;
      }
    }
    (void)requested;
    mc::Outcome(h);
  }
}
// In a job: halting or destroying it while the user is asked.
namespace
{
struct JobUser : public Recorder
{
  std::mutex m;
  std::condition_variable c;
  std::map<sup::dto::uint64, int> ints;
  bool answer = false;
  int asked = 0, interrupted = 0;
  bool Ask(sup::dto::uint64 id)
  {
    std::unique_lock<std::mutex> lk{m};
    ++asked;
    mc::Log("ask");
    if (answer)
      return true;
    c.wait(lk, [&] { return ints[id] > 0; });
    ++interrupted;
    return false;
  }
  bool GetUserValue(sup::dto::uint64 id, AnyValue& v, const std::string&) override
  {
    v = AnyValue{sup::dto::int32(7)};
    return Ask(id);
  }
  int GetUserChoice(sup::dto::uint64 id, const std::vector<std::string>&, const AnyValue&) override { return Ask(id) ? 1 : -1; }
  void Interrupt(sup::dto::uint64 id) override
  {
    {
      std::lock_guard<std::mutex> lk{m};
      ++ints[id];
    }
    c.notify_all();
  }
};
}  // namespace
SCENARIO(job_halt, s.quick = 1, s.thorough = 4)
{
  JobUser io;
  int kind = mc::Choose(3);
  io.answer = mc::Choose(2);
  int how = mc::Choose(3);
  {
    auto p = Proc(Make(kind, "S"));
    p->AddVariable("x", wsm::Local(R"({"type":"int32"})", "1"));
    LocalJob job{std::move(p), io};
    job.Start();
    if (how == 0)
      io.WaitNth(JobState::kRunning, 1);
    if (how <= 1)
    {
      job.Halt();
      auto st = io.WaitFinished();
      MC_CHECK(IsFinishedJobState(st) && (io.answer || st != JobState::kSucceeded), "the job ended as " + St(st));
    }
  }
  MC_CHECK(io.asked - io.interrupted == (io.answer ? io.asked : 0), "the user is still asked");
  mc::Outcome(Trace());
}
