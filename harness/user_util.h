// A user interface whose user answers when the test says so; it counts the requests that are pending.
#ifndef VERIF_USER_UTIL_H_
#define VERIF_USER_UTIL_H_
#include "job_util.h"
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/user_input_reply.h>
#include <sup/oac-tree/user_interface.h>

#include <functional>
#include <map>
#include <optional>

namespace uu
{
using namespace ju;
using sup::dto::AnyValue;

class Ui : public DefaultUserInterface
{
public:
  struct Shared
  {
    std::mutex mtx;
    int pending = 0;    // futures that are alive and not answered
    int created = 0;
    int cancelled = 0;  // futures destroyed without their reply
    std::optional<UserInputReply> reply;  // the current answer of the user, for all requests
    std::vector<UserInputRequest> requests;
  };
  class Future : public IUserInputFuture
  {
  public:
    Future(Shared& s, int id) : m_s{s}, m_id{id} {}
    ~Future()
    {
      std::lock_guard<std::mutex> lk{m_s.mtx};
      if (m_id)
      {
        --m_s.pending;
        ++m_s.cancelled;
      }
      m_id = -1;
    }
    sup::dto::uint64 GetId() const override { return m_id; }
    bool IsValid() const override { return m_id != 0; }
    bool IsReady() const override
    {
      std::lock_guard<std::mutex> lk{m_s.mtx};
      MC_CHECK(m_id >= 0, "a cancelled request is used");
      return m_id != 0 && m_s.reply.has_value();
    }
    bool WaitFor(double) const override { return IsReady(); }
    UserInputReply GetValue() override
    {
      std::lock_guard<std::mutex> lk{m_s.mtx};
      MC_CHECK(m_id > 0 && m_s.reply, "a value is taken that is not there");
      m_id = 0;
      --m_s.pending;
      return *m_s.reply;
    }

  private:
    Shared& m_s;
    int m_id;
  };
  Shared s;
  bool supported = true, put_ok = true;
  std::vector<std::string> said;
  std::vector<AnyValue> put;
  std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest& r) override
  {
    std::lock_guard<std::mutex> lk{s.mtx};
    if (!supported)
      return std::unique_ptr<IUserInputFuture>{new UnsupportedInputFuture};
    s.requests.push_back(r);
    ++s.pending;
    return std::unique_ptr<IUserInputFuture>{new Future{s, ++s.created}};
  }
  void Answer(const UserInputReply& r)
  {
    std::lock_guard<std::mutex> lk{s.mtx};
    s.reply = r;
  }
  void Silent()
  {
    std::lock_guard<std::mutex> lk{s.mtx};
    s.reply.reset();
  }
  int Pending()
  {
    std::lock_guard<std::mutex> lk{s.mtx};
    return s.pending;
  }
  int Created()
  {
    std::lock_guard<std::mutex> lk{s.mtx};
    return s.created;
  }
  bool PutValue(const AnyValue& v, const std::string& d) override
  {
    put.push_back(v);
    said.push_back("put " + d);
    return put_ok;
  }
  void Message(const std::string& m) override { said.push_back("msg " + m); }
  void Log(int sev, const std::string& m) override
  {
    if (log_errors || sev > 4)
      said.push_back("log" + std::to_string(sev) + " " + m);
  }
  bool log_errors = false;
};
}  // namespace uu
#endif
