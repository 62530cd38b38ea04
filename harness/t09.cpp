// Waiting inside a job and halting a wait, under a virtual clock.
// LIB: full
#include "par_util.h"
#include "user_util.h"
#include "wsmodel.h"
using namespace uu;
namespace
{
const int64_t ms = 1000000;
void Sleep(int64_t m) { std::this_thread::sleep_for(std::chrono::milliseconds(m)); }
std::string T(int64_t t) { return std::to_string(t / ms) + " ms"; }
}  // namespace

// A halt at any moment ends a blocking wait within its accuracy.
SCENARIO(halt_blocking, s.quick = 4, s.thorough = 7)
{
  Procedure proc{""};
  Workspace ws;
  Ui ui;
  auto i = Attr(Attr(Node("Wait"), "timeout", "1.0"), "blocking", "true");
  i->Setup(proc);
  int delay[] = {0, 120, 990};
  int d = delay[mc::Choose(3)];
  int64_t halted = 0;
  std::thread t([&] {
    if (d)
      Sleep(d);
    i->Halt();
    halted = mc::Now();
  });
  i->ExecuteSingle(ui, ws);
  int64_t end = mc::Now();
  t.join();
  auto st = i->GetStatus();
  if (end >= 1000 * ms)
    MC_CHECK(st == ES::SUCCESS || st == ES::FAILURE, "ends as " + std::string(1, C(st)));
  else
  {
    MC_CHECK(st != ES::SUCCESS && st != ES::RUNNING, "a halted wait ends as " + std::string(1, C(st)));
  }
  MC_CHECK(end <= std::max(halted, int64_t{0}) + 51 * ms || halted + 51 * ms >= 1000 * ms, "ends " + T(end - halted) + " after the halt");
  mc::Outcome(T(end) + C(st));
}
// The time a job needs for a wait.
SCENARIO(job, s.quick = 1, s.thorough = 2)
{
  ju::Recorder io;
  const char* timeouts[] = {"0", "0.25", "0.3"};
  int64_t ns[] = {0, 250 * ms, 300 * ms};
  int k = mc::Choose(3), blocking = mc::Choose(2), par = mc::Choose(2), tick = par ? 0 : mc::Choose(2);  // a branch needs a thread per tick
  auto w = Attr(Attr(Node("Wait"), "timeout", timeouts[k]), "blocking", blocking ? "true" : "false");
  auto p = Proc(par ? Node("ParallelSequence", std::move(w), pu::Step::Make(1, "S")) : std::move(w));
  if (tick)
    p->AddAttribute("tickTimeout", "0.01");
  int64_t t0;
  {
    LocalJob job{std::move(p), io};
    t0 = mc::Now();
    job.Start();
    auto st = io.WaitFinished();
    int64_t el = mc::Now() - t0;
    MC_CHECK(st == JobState::kSucceeded, "ends as " + St(st));
    std::string what = std::string(timeouts[k]) + (blocking ? " blocking" : "") + (tick ? " tick" : "") + (par ? " parallel" : "") + " took " + T(el);
    MC_CHECK(el >= ns[k], what);
    // a branch of a parallel composite reports at the tick after the one that ran it
    MC_CHECK(el <= ns[k] + (tick ? 10 : 100) * (1 + par) * ms + (blocking ? 50 : 0) * ms + ms, what);
    mc::Outcome(what);
  }
}
// A job that waits for a variable that another branch writes.
SCENARIO(job_variable, s.quick = 1, s.thorough = 3)
{
  ju::Recorder io;
  int equals = mc::Choose(2);
  int late = mc::Choose(2);
  auto w = Attr(Attr(Node("WaitForVariable"), "timeout", late ? "0.1" : "0.5"), "varName", "v");
  if (equals)
    w->AddAttribute("equalsVar", "o");
  auto p = Proc(Node("ParallelSequence", std::move(w),
                     Node("Sequence", Attr(Attr(Node("Wait"), "timeout", "0.2"), "blocking", "true"), Attr(Attr(Node("Copy"), "inputVar", "o"), "outputVar", "v"))));
  p->AddAttribute("tickTimeout", "0.02");
  p->AddVariable("v", wsm::Local("", "", true));
  p->AddVariable("o", wsm::Local(R"({"type":"int32"})", "1"));
  {
    LocalJob job{std::move(p), io};
    int64_t t0 = mc::Now();
    job.Start();
    auto st = io.WaitFinished();
    int64_t el = mc::Now() - t0;
    std::string what = "ends as " + St(st) + " after " + T(el);
    if (late)
    {
      MC_CHECK(st == JobState::kFailed, what);
      // the failing branch ends when its timeout expires; the halted wait ends within its accuracy
      MC_CHECK(el >= 100 * ms && el <= 200 * ms, what);
    }
    else
    {
      MC_CHECK(st == JobState::kSucceeded, what);
      MC_CHECK(el >= 200 * ms && el <= 300 * ms, what);
    }
    mc::Outcome(what);
  }
}
// Ticks and updates from another thread.
SCENARIO(update, s.quick = 4, s.thorough = 6)
{
  Procedure proc{""};
  Workspace ws;
  Ui ui;
  ws.AddVariable("v", wsm::Local("", "", true));
  ws.Setup();
  auto i = Attr(Attr(Node("WaitForVariable"), "timeout", "0.1"), "varName", "v");
  i->Setup(proc);
  int d = mc::Choose(3) * 50;
  bool blink = mc::Choose(2);
  std::atomic<int64_t> set{-1};
  std::thread t([&] {
    if (d)
      Sleep(d);
    ws.SetValue("v", AnyValue{1});
    if (blink)
    {
      ws.ResetVariable("v");
      ws.SetValue("v", AnyValue{2});
    }
    set = mc::Now();
  });
  int n = 0;
  bool sure = false;
  while (NeedsExecute(i->GetStatus()))
  {
    bool was_set = set >= 0;
    i->ExecuteSingle(ui, ws);
    sure = sure || was_set;
    if (was_set)
      MC_CHECK(i->GetStatus() == ES::SUCCESS, "does not succeed although the variable is available");
    MC_CHECK(n++ < 20, "does not end");
    if (NeedsExecute(i->GetStatus()))
      Sleep(20);
  }
  MC_CHECK(mc::Now() <= 121 * ms, "ends at " + T(mc::Now()));
  if (i->GetStatus() == ES::FAILURE)
    MC_CHECK(mc::Now() >= 100 * ms && d >= 100, "fails too early");
  t.join();
}
// The time between the ticks of a job: its tick timeout after a tick that leaves it waiting, none after others.
namespace
{
struct TimeList
{
  int64_t t[16];
  size_t n;
  void push_back(int64_t v) { t[n++ % 16] = v; }
  void clear() { n = 0; }
  size_t size() const { return n; }
  int64_t back() const { return t[n - 1]; }
  int64_t operator[](size_t i) const { return t[i]; }
} g_times;
TimeList& Times() { return g_times; }
class Timed : public Instruction
{
public:
  explicit Timed(std::string script) : Instruction("Timed"), m_script{std::move(script)} {}

private:
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override
  {
    Times().push_back(mc::Now());
    char c = m_script[m_pos++ % m_script.size()];
    return c == 'R' ? ES::RUNNING : c == 'N' ? ES::NOT_FINISHED : c == 'S' ? ES::SUCCESS : ES::FAILURE;
  }
  std::string m_script;
  size_t m_pos = 0;
};
}  // namespace
SCENARIO(tick_times, s.quick = 0, s.thorough = 1)
{
  Times().clear();
  ju::Recorder io;
  struct
  {
    const char* text;
    int64_t ns;
  } kTimeouts[] = {{nullptr, 100 * ms}, {"0", 0}, {"0.0005", ms / 2}, {"1e-9", 1}, {"2.5", 2500 * ms}, {"0.01", 10 * ms}, {"3600", 3600000 * ms}};
  auto& to = kTimeouts[mc::Choose(7)];
  std::string script;
  for (int n = mc::Choose(4); n > 0; --n)
    script += mc::Choose(2) ? 'R' : 'N';
  script += mc::Choose(2) ? 'S' : 'F';
  int steps = mc::Choose(3);
  auto p = Proc(std::unique_ptr<Instruction>(new Timed(script)));
  if (to.text)
    p->AddAttribute("tickTimeout", to.text);
  std::string what = script + " with " + (to.text ? to.text : "no timeout") + " steps " + std::to_string(steps);
  {
    LocalJob job{std::move(p), io};
    steps = std::min(steps, static_cast<int>(script.size()));
    for (int i = 0; i < steps; ++i)
    {
      job.Step();
      if (i + 1 == static_cast<int>(script.size()))
        io.WaitFinished();
      else
        io.WaitNth(JobState::kPaused, i + 1);
      MC_CHECK(static_cast<int>(Times().size()) == i + 1 && Times().back() == mc::Now(), what + ": a step takes time");
    }
    if (steps < static_cast<int>(script.size()))
      job.Start();
    auto st = io.WaitFinished();
    MC_CHECK(st == (script.back() == 'S' ? JobState::kSucceeded : JobState::kFailed), what + ": ends as " + St(st));
    auto& t = Times();
    MC_CHECK(t.size() == script.size(), what + ": ticks");
    for (size_t i = 1; i < t.size(); ++i)
    {
      int64_t want = script[i - 1] == 'R' && static_cast<int>(i) > steps ? to.ns : 0;
      MC_CHECK(t[i] - t[i - 1] == want, what + ": " + std::to_string(t[i] - t[i - 1]) + " ns after tick " + std::to_string(i) + " instead of " + std::to_string(want));
    }
    MC_CHECK(mc::Now() == t.back(), what + ": ends late");
  }
  mc::Outcome(what);
}
