// Common parts of the job harnesses: a recording observer and scripted instructions.
#ifndef VERIF_JOB_UTIL_H_
#define VERIF_JOB_UTIL_H_

#include "mc.h"

#include <sup/oac-tree/i_job_info_io.h>
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/job_info.h>
#include <sup/oac-tree/job_states.h>
#include <sup/oac-tree/local_job.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/workspace.h>

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

namespace ju
{
using namespace sup::oac_tree;
using ES = ExecutionStatus;

inline std::string St(JobState s)
{
  switch (s)
  {
  case JobState::kInitial:
    return "initial";
  case JobState::kPaused:
    return "paused";
  case JobState::kStepping:
    return "stepping";
  case JobState::kRunning:
    return "running";
  case JobState::kSucceeded:
    return "succeeded";
  case JobState::kFailed:
    return "failed";
  case JobState::kHalted:
    return "halted";
  }
  return "?" + std::to_string(static_cast<int>(s));
}
inline char C(ES s)
{
  return s == ES::NOT_STARTED ? '-' : s == ES::NOT_FINISHED ? 'N' : s == ES::RUNNING ? 'R' : s == ES::SUCCESS ? 'S' : s == ES::FAILURE ? 'F' : '?';
}
inline bool Fin(const std::string& s) { return s == "succeeded" || s == "failed" || s == "halted"; }

// Observer that records what it is told.  It can also be waited on.
struct Recorder : public IJobInfoIO
{
  bool log_states = true, log_instr = false, log_vars = false, log_next = false;
  int user_value = 0;
  int user_choice = 0;
  mutable std::mutex mtx;
  std::condition_variable cv;
  JobState state = JobState::kInitial;
  int n_updates = 0;
  std::vector<JobState> history;

  void InitNumberOfInstructions(sup::dto::uint32 n) override
  {
    if (log_instr)
      mc::Log("n:" + std::to_string(n));
  }
  void InstructionStateUpdated(sup::dto::uint32 idx, InstructionState s) override
  {
    if (log_instr)
      mc::Log("i:" + std::to_string(idx) + ":" + C(s.m_execution_status) + (s.m_breakpoint_set ? "b" : ""));
  }
  void VariableUpdated(sup::dto::uint32 idx, const sup::dto::AnyValue& v, bool c) override
  {
    if (log_vars)
      mc::Log("v:" + std::to_string(idx) + ":" + (sup::dto::IsScalarValue(v) ? std::to_string(v.As<sup::dto::int64>()) : "?") + (c ? "" : "!"));
  }
  void JobStateUpdated(JobState s) override
  {
    if (log_states)
      mc::Log("s:" + St(s));
    {
      std::lock_guard<std::mutex> lk{mtx};
      state = s;
      ++n_updates;
      history.push_back(s);
    }
    cv.notify_all();
  }
  void PutValue(const sup::dto::AnyValue&, const std::string& d) override { mc::Log("put:" + d); }
  bool GetUserValue(sup::dto::uint64, sup::dto::AnyValue&, const std::string&) override { return false; }
  int GetUserChoice(sup::dto::uint64, const std::vector<std::string>&, const sup::dto::AnyValue&) override { return user_choice; }
  void Interrupt(sup::dto::uint64) override {}
  void Message(const std::string& m) override { mc::Log("msg:" + m); }
  void Log(int, const std::string&) override {}
  void NextInstructionsUpdated(const std::vector<sup::dto::uint32>& v) override
  {
    if (!log_next)
      return;
    std::string r = "x:";
    for (auto i : v)
      r += std::to_string(i) + " ";
    mc::Log(r);
  }
  JobState WaitFinished()
  {
    std::unique_lock<std::mutex> lk{mtx};
    cv.wait(lk, [this] { return IsFinishedJobState(state); });
    return state;
  }
  void WaitState(JobState s)
  {
    std::unique_lock<std::mutex> lk{mtx};
    cv.wait(lk, [this, s] { return state == s; });
  }
  // Waits until a state was reported n times.
  void WaitNth(JobState s, int n)
  {
    std::unique_lock<std::mutex> lk{mtx};
    cv.wait(lk,
            [this, s, n]
            {
              int c = 0;
              for (auto h : history)
                c += h == s;
              return c >= n;
            });
  }
  JobState Current()
  {
    std::unique_lock<std::mutex> lk{mtx};
    return state;
  }
};

// Leaf with scripted results that can take (virtual) time.
class Probe : public Instruction
{
public:
  Probe(int id, std::string script, int ms = 0) : Instruction("Probe"), m_id{id}, m_script{std::move(script)}, m_ms{ms} {}
  static std::unique_ptr<Instruction> Make(int id, const std::string& script, int ms = 0)
  {
    return std::unique_ptr<Instruction>(new Probe(id, script, ms));
  }

private:
  bool InitHook(UserInterface&, Workspace&) override
  {
    m_pos = 0;
    return true;
  }
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override
  {
    mc::Log("e:" + std::to_string(m_id));
    if (m_ms > 0)
      std::this_thread::sleep_for(std::chrono::milliseconds(m_ms));
    char c = m_script[m_pos++ % m_script.size()];
    if (m_ms > 0)
      mc::Log("d:" + std::to_string(m_id));
    return c == 'N' ? ES::NOT_FINISHED : c == 'R' ? ES::RUNNING : c == 'S' ? ES::SUCCESS : ES::FAILURE;
  }
  int m_id;
  std::string m_script;
  int m_ms;
  size_t m_pos = 0;
};

template <class... T>
std::unique_ptr<Instruction> Node(const std::string& type, T&&... kids)
{
  auto r = GlobalInstructionRegistry().Create(type);
  (AppendChildInstruction(*r, std::forward<T>(kids)), ...);
  return r;
}
inline std::unique_ptr<Instruction> Attr(std::unique_ptr<Instruction> i, const std::string& n, const std::string& v)
{
  i->AddAttribute(n, v);
  return i;
}
inline std::unique_ptr<Procedure> Proc(std::unique_ptr<Instruction> root)
{
  std::unique_ptr<Procedure> p{new Procedure("")};
  p->PushInstruction(std::move(root));
  return p;
}
// Lets everything else run until it blocks, without letting long timeouts expire.
inline void Settle(int64_t ns = 1000) { std::this_thread::sleep_for(std::chrono::nanoseconds(ns)); }

inline std::vector<std::string> Filter(const std::vector<std::string>& log, const std::string& prefixes)
{
  std::vector<std::string> r;
  for (auto& e : log)
    if (prefixes.find(e[0]) != std::string::npos && e.size() > 1 && e[1] == ':')
      r.push_back(e);
  return r;
}
inline std::string Join(const std::vector<std::string>& v)
{
  std::string r;
  for (auto& e : v)
    r += e + " ";
  return r;
}
// Every reported state follows the previous one in the job state machine.
inline void CheckStatePath(const std::vector<std::string>& log)
{
  std::string last;
  for (auto& e : Filter(log, "s"))
  {
    std::string s = e.substr(2);
    bool ok = true;
    if (last.empty())
      ok = s == "initial";
    else if (last == "initial" || last == "paused")
      ok = s == "running" || s == "stepping" || s == "halted";
    else if (last == "running")
      ok = s == "paused" || Fin(s);
    else if (last == "stepping")
      ok = s == "paused" || s == "succeeded" || s == "failed";
    else if (Fin(last))
      ok = s == "initial";
    MC_CHECK(ok, "job state " + s + " reported after " + last + ": " + Join(log));
    last = s;
  }
}
}  // namespace ju

#endif
