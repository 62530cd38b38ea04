// Brute-force linearizability check of a small concurrent history against a sequential model.
#ifndef VERIF_LIN_H_
#define VERIF_LIN_H_
#include "mc.h"
#include <functional>
#include <string>
#include <vector>
namespace lin
{
template <typename Model>
struct Op
{
  int64_t call;
  int64_t ret;
  std::string text;
  std::function<bool(Model&)> apply;  // false: result is impossible in this state
};
template <typename Model>
bool Search(const std::vector<Op<Model>>& ops, std::vector<bool>& done, size_t left, const Model& m,
            const std::function<bool(const Model&)>& final)
{
  if (left == 0)
    return !final || final(m);
  int64_t min_ret = INT64_MAX;
  for (size_t i = 0; i < ops.size(); ++i)
    if (!done[i] && ops[i].ret < min_ret)
      min_ret = ops[i].ret;
  for (size_t i = 0; i < ops.size(); ++i)
  {
    if (done[i] || ops[i].call > min_ret)
      continue;
    Model copy = m;
    if (!ops[i].apply(copy))
      continue;
    done[i] = true;
    bool ok = Search(ops, done, left - 1, copy, final);
    done[i] = false;
    if (ok)
      return true;
  }
  return false;
}
template <typename Model>
void Check(const std::vector<Op<Model>>& ops, const Model& init, const std::string& what,
           const std::function<bool(const Model&)>& final = {})
{
  std::vector<bool> done(ops.size(), false);
  if (Search(ops, done, ops.size(), init, final))
    return;
  std::string s = what + ": history is not linearizable:";
  for (auto& o : ops)
    s += " [" + std::to_string(o.call) + "," + std::to_string(o.ret) + "] " + o.text + ";";
  mc::Fail(s);
}
}  // namespace lin
#endif
