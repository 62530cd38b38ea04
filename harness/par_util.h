// Leaves that run in asynchronous branches, with a log of their steps.
#ifndef VERIF_PAR_UTIL_H_
#define VERIF_PAR_UTIL_H_

#include "job_util.h"

#include <sup/oac-tree/user_interface.h>

namespace pu
{
using namespace ju;

// Script characters: S F N R results of one step; B blocks until halted and fails then.
class Step : public Instruction
{
public:
  Step(int id, std::string script) : Instruction("Step"), m_id{id}, m_script{std::move(script)} {}
  static std::unique_ptr<Instruction> Make(int id, const std::string& script)
  {
    return std::unique_ptr<Instruction>(new Step(id, script));
  }

private:
  bool InitHook(UserInterface&, Workspace&) override
  {
    m_pos = 0;
    return true;
  }
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override
  {
    std::string id = std::to_string(m_id);
    if (m_busy.exchange(true))
      mc::Fail("steps of leaf " + id + " overlap");
    mc::Log("+:" + id);
    char c = m_script[m_pos++ % m_script.size()];
    if (c == 'B')
    {
      while (!IsHaltRequested())
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
      c = 'F';
      mc::Log("h:" + id);
    }
    mc::Log("-:" + id + c);
    m_busy = false;
    return c == 'N' ? ES::NOT_FINISHED : c == 'R' ? ES::RUNNING : c == 'S' ? ES::SUCCESS : ES::FAILURE;
  }
  int m_id;
  std::string m_script;
  size_t m_pos = 0;
  std::atomic<bool> m_busy{false};
};
inline int Count(const std::vector<std::string>& log, const std::string& e)
{
  int n = 0;
  for (auto& l : log)
    n += l == e;
  return n;
}
inline int CountPrefix(const std::vector<std::string>& log, const std::string& e)
{
  int n = 0;
  for (auto& l : log)
    n += l.compare(0, e.size(), e) == 0;
  return n;
}
}  // namespace pu

#endif
