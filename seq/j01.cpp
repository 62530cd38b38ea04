// Job command queue: every operation sequence up to a depth agrees with a plain deque.
// LIB: core
#include "mc.h"
#include <sup/oac-tree/job_command_queue.h>
#include <sup/oac-tree/job_commands.h>
#include <deque>

using namespace sup::oac_tree;
namespace
{
const JobCommand kCmds[] = {JobCommand::kStart, JobCommand::kStep, JobCommand::kPause, JobCommand::kReset,
                            JobCommand::kHalt, JobCommand::kTerminate};
}
SCENARIO(all_sequences, s.quick = 4, s.thorough = 6)
{
  JobCommandQueue q;
  std::deque<int> m;
  std::string trace;
  for (int d = 0; d < mc::Depth(); ++d)
  {
    int k = mc::Choose(15);
    if (k < 6)
    {
      trace += "push" + std::to_string(k) + " ";
      q.Push(kCmds[k]);
      m.push_back(k);
    }
    else if (k < 12)
    {
      int c = k - 6;
      int ran = 0;
      bool ok = q.PriorityPush(kCmds[c], [&] { ++ran; });
      trace += "prio" + std::to_string(c) + "=" + std::to_string(ok) + " ";
      bool expect = m.empty() || c > m.front();
      MC_CHECK(ok == expect, trace);
      MC_CHECK(ran == (expect ? 1 : 0), trace);
      if (expect)
        m.push_front(c);
    }
    else if (k == 12)
    {
      JobCommand c = JobCommand::kStep;
      bool ok = q.TryPop(c);
      trace += "pop ";
      MC_CHECK(ok == !m.empty(), trace);
      if (ok)
      {
        MC_CHECK(static_cast<int>(c) == m.front(), trace);
        m.pop_front();
      }
    }
    else if (k == 13)
    {
      bool ok = q.PriorityPush(JobCommand::kHalt, {});
      trace += "prio-without-action ";
      bool expect = m.empty() || 4 > m.front();
      MC_CHECK(ok == expect, trace);
      if (expect)
        m.push_front(4);
    }
    else if (!m.empty())
    {
      trace += "wait ";
      MC_CHECK(static_cast<int>(q.WaitForNextCommand()) == m.front(), trace);
      m.pop_front();
    }
    MC_CHECK(q.GetSize() == m.size(), trace);
    MC_CHECK(q.IsEmpty() == m.empty(), trace);
  }
  std::string end;
  for (int c : m)
    end += std::to_string(c);
  while (!m.empty())
  {
    JobCommand c = JobCommand::kStart;
    MC_CHECK(q.TryPop(c) && static_cast<int>(c) == m.front(), trace + "drain");
    m.pop_front();
  }
  mc::Outcome(end);
}
// The priority order of the commands.
SCENARIO(priority_order, s.quick = 0, s.thorough = 0)
{
  int a = mc::Choose(6), b = mc::Choose(6);
  MC_CHECK((kCmds[a] <= kCmds[b]) == (a <= b), std::to_string(a) + " " + std::to_string(b));
  mc::Outcome(std::to_string(a) + std::to_string(b));
}
