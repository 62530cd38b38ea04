// First use of the conversion tables from several threads.
// LIB: core
#include "mc.h"
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/execution_status.h>
#include <sup/oac-tree/job_states.h>
#include <sup/oac-tree/log_severity.h>
#include <thread>
using namespace sup::oac_tree;
SCENARIO(concurrent_use, s.quick = 3, s.thorough = 6)
{
  int k = mc::Choose(3), v = mc::Choose(4);
  auto body = [k, v] {
    if (k == 0)
      MC_CHECK(log::SeverityString(v) == (v == 0 ? "EMERGENCY" : v == 1 ? "ALERT" : v == 2 ? "CRITICAL" : "ERROR"), "severity");
    if (k == 1)
      MC_CHECK(ToString(static_cast<JobState>(v)) != "", "job state");
    if (k == 2)
      MC_CHECK(StatusToString(static_cast<ExecutionStatus>(v)) != "", "status");
    mc::Point();
    MC_CHECK(log::GetSeverityFromString("INFO") == log::SUP_SEQ_LOG_INFO, "from text");
    MC_CHECK(!IsFinishedJobState(JobState::kRunning), "finished");
  };
  std::thread t1(body), t2(body);
  t1.join();
  t2.join();
  mc::Outcome(std::to_string(k) + std::to_string(v));
}

// The very first use, by two threads at once: both get complete answers.
SCENARIO(first_use, s.quick = 2, s.thorough = 4, s.fresh = true)
{
  int a = mc::Choose(3), b = mc::Choose(3), v = mc::Choose(2) * 8;
  auto ask = [v](int k) {
    if (k == 0)
      MC_CHECK(log::SeverityString(v) == (v == 0 ? "EMERGENCY" : "TRACE"), "severity text at first use");
    if (k == 1)
      MC_CHECK(static_cast<int>(log::GetSeverityFromString(v == 0 ? "EMERGENCY" : "TRACE")) == v, "severity at first use");
    if (k == 2)
    {
      MC_CHECK(ToString(JobState::kHalted) == "Halted", "job state");
      MC_CHECK(StatusToString(ExecutionStatus::RUNNING) == "Running", "status");
      MC_CHECK(log::SeverityString(9) == "UNKNOWN", "unknown severity");
    }
  };
  std::thread t([&] { ask(a); });
  ask(b);
  t.join();
  mc::Outcome(std::to_string(a) + std::to_string(b));
}

// Errors of several threads do not mix.
SCENARIO(errors_of_threads, s.quick = 3, s.thorough = 6)
{
  auto body = [](const char* text) {
    try
    {
      throw RuntimeException(text);
    }
    catch (const MessageException& e)
    {
      auto w = e.what();
      mc::Point();
      MC_CHECK(std::string(w) == text && std::string(e.what()) == text, "message of another thread");
    }
  };
  std::thread t1([&] { body("one message of an error that is not short"); }), t2([&] { body("another"); });
  t1.join();
  t2.join();
}
