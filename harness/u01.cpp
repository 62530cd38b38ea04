// Requests for user input from several threads.
// LIB: full
#include "job_util.h"
#include <sup/oac-tree/async_input_adapter.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/job_interface_adapter.h>
#include <sup/oac-tree/user_interface.h>
#include <map>
#include <set>
using namespace ju;
using sup::dto::AnyValue;
using Id = sup::dto::uint64;
namespace
{
// What a request is about: the first letter tells how the user behaves.
//  Q answers at once, W after a millisecond, B never (only an interrupt ends it), F refuses
int Answer(const std::string& d) { return 100 + d[1] * 3 + d[0]; }
struct User
{
  std::mutex mtx;
  std::condition_variable cv;
  std::atomic<int> busy{0};
  std::atomic<Id> presenting{0};
  std::set<Id> interrupted, seen;
  std::map<Id, std::string> presented;
  void Begin(Id id, const std::string& d)
  {
    if (busy.fetch_add(1) != 0)
      mc::Fail("two requests are presented at the same time");
    presenting = id;
    mc::Log("in:" + d);
    std::lock_guard<std::mutex> lk{mtx};
    MC_CHECK(id != 0, "request identification is zero");
    MC_CHECK(seen.insert(id).second, "request presented twice");
    presented[id] = d;
  }
  bool End(Id id, const std::string& d)
  {
    bool ok = d[0] != 'F';
    if (d[0] == 'B' || d[0] == 'W')
    {
      std::unique_lock<std::mutex> lk{mtx};
      if (d[0] == 'W')
        ok = !cv.wait_for(lk, std::chrono::milliseconds(1), [&] { return interrupted.count(id) > 0; });
      else
        cv.wait(lk, [&] { return interrupted.count(id) > 0; }), ok = false;
    }
    mc::Log("out:" + d);
    presenting = 0;
    busy.fetch_sub(1);
    return ok;
  }
  UserInputReply Input(const UserInputRequest& r, Id id)
  {
    AnyValue v;
    std::string d;
    MC_CHECK(ParseUserValueRequest(r, v, d), "the request changed on its way to the user");
    MC_CHECK(v.GetType() == sup::dto::SignedInteger32Type, "the request changed on its way to the user");
    Begin(id, d);
    return End(id, d) ? CreateUserValueReply(true, AnyValue{sup::dto::int32(Answer(d))}) : CreateUserValueReply(false, {});
  }
  void Interrupt(Id id)
  {
    mc::Log("int:" + std::to_string(id));
    Id now = presenting;
    MC_CHECK(now == 0 || now == id, "an interrupt for request " + std::to_string(id) + " arrives while another request is handled");
    {
      std::lock_guard<std::mutex> lk{mtx};
      MC_CHECK(interrupted.insert(id).second, "request " + std::to_string(id) + " is interrupted twice");
    }
    cv.notify_all();
  }
};
struct Fixture
{
  User user;
  std::unique_ptr<AsyncInputAdapter> ad;
  Fixture()
  {
    ad.reset(new AsyncInputAdapter([this](const UserInputRequest& r, Id id) { return user.Input(r, id); }, [this](Id id) { user.Interrupt(id); }));
  }
  std::unique_ptr<IUserInputFuture> Ask(const std::string& d)
  {
    auto f = ad->AddUserInputRequest(CreateUserValueRequest(AnyValue{sup::dto::int32(0)}, d));
    MC_CHECK(f && f->IsValid() && f->GetId() != 0, "request " + d + " has no valid future");
    return f;
  }
};
std::string Trace() { return Join(mc::GetLog()); }
void Take(IUserInputFuture& f, const std::string& d)
{
  MC_CHECK(f.IsReady(), d + " is not ready: " + Trace());
  auto r = f.GetValue();
  bool ok = d[0] == 'Q' || d[0] == 'W';
  MC_CHECK(r == (ok ? CreateUserValueReply(true, AnyValue{sup::dto::int32(Answer(d))}) : CreateUserValueReply(false, {})), "request " + d + " got another reply: " + Trace());
  MC_CHECK(!f.IsValid() && !f.IsReady() && !f.WaitFor(1.0), "future of " + d + " is still valid after its reply was taken");
  bool thrown = false;
  try
  {
    f.GetValue();
  }
  catch (const InvalidOperationException&)
  {
    thrown = true;
  }
  MC_CHECK(thrown, "the reply to " + d + " could be taken twice");
}
// Asks and waits; the answer of the user takes at most ms of virtual time.
void Get(Fixture& fx, const std::string& d, int ms)
{
  auto f = fx.Ask(d);
  MC_CHECK(f->WaitFor(10.0), d + " is not answered: " + Trace());
  MC_CHECK(mc::Now() <= ms * 1000000LL + 100000, d + " waited until " + std::to_string(mc::Now() / 1000000) + " ms although it was answered: " + Trace());
  Take(*f, d);
}
// Only cancelled requests were interrupted, requests of one thread are presented in order.
void CheckLog(const std::set<Id>& may_interrupt)
{
  for (auto& e : mc::GetLog())
    if (e.compare(0, 4, "int:") == 0)
      MC_CHECK(may_interrupt.count(std::stoul(e.substr(4))), "a request was interrupted that nobody cancelled: " + Trace());
  mc::Outcome(Trace());
}
}  // namespace

// Every requester gets its own reply, at once.
SCENARIO(two_requesters, s.quick = 3, s.thorough = 5)
{
  Fixture fx;
  std::string a = mc::Choose(2) ? "W1" : "Q1", b = mc::Choose(2) ? "Q2" : "F2";
  std::thread t([&] { Get(fx, b, 1); });
  Get(fx, a, 1);
  t.join();
  fx.ad.reset();
  CheckLog({});
}
SCENARIO(three_requesters, s.quick = 2, s.thorough = 3)
{
  Fixture fx;
  std::thread t([&] { Get(fx, "W2", 2); });
  std::thread t2([&] { Get(fx, "Q3", 2); });
  Get(fx, "W1", 2);
  t.join();
  t2.join();
  CheckLog({});
}
// Several requests of one thread are presented in order and can be waited for in any order.
SCENARIO(order, s.quick = 3, s.thorough = 4)
{
  Fixture fx;
  auto f1 = fx.Ask("Q1");
  auto f2 = fx.Ask("Q2");
  MC_CHECK(f1->GetId() != f2->GetId(), "two requests have the same identification");
  bool second_first = mc::Choose(2);
  std::thread t([&] { MC_CHECK(f1->WaitFor(10.0), "Q1"); if (!second_first) Take(*f1, "Q1"); });
  MC_CHECK(f2->WaitFor(10.0), "Q2");
  Take(*f2, "Q2");
  t.join();
  if (second_first)
    Take(*f1, "Q1");
  MC_CHECK(mc::Now() < 100000, "waited although answered: " + Trace());
  auto l = mc::GetLog();
  MC_CHECK(Join(l) == "in:Q1 out:Q1 in:Q2 out:Q2 ", "presented out of order: " + Join(l));
}
// One future waited for and polled by two threads.
SCENARIO(two_waiters_one_reply, s.quick = 3, s.thorough = 5)
{
  Fixture fx;
  auto f = fx.Ask("W1");
  std::thread t([&] { MC_CHECK(f->WaitFor(10.0), "waiter 1"); MC_CHECK(mc::Now() < 1100000, "waiter 1 was not woken"); });
  if (mc::Choose(2))
    while (!f->IsReady())
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
  else
    MC_CHECK(f->WaitFor(10.0), "waiter 2");
  MC_CHECK(mc::Now() < 2100000, "waiter 2 was not woken");
  t.join();
  Take(*f, "W1");
}
// Cancelling at any moment interrupts a request that is being handled and does not affect another one.
SCENARIO(cancel, s.quick = 3, s.thorough = 4)
{
  Fixture fx;
  const char* kinds[] = {"B1", "Q1", "W1"};
  std::string a = kinds[mc::Choose(3)];
  bool before = mc::Choose(2);
  Id id = 0;
  auto fa = before ? fx.Ask(a) : nullptr;
  std::thread t([&] {
    if (!fa)
      fa = fx.Ask(a);
    id = fa->GetId();
    fa.reset();
    mc::Log("can:" + a);
  });
  Get(fx, "Q2", 1);
  t.join();
  Get(fx, "Q3", 1);
  fx.ad.reset();
  CheckLog({id});
  // the cancelled request was presented only if it was being handled when it was cancelled
  auto l = mc::GetLog();
  bool cancelled = false, interrupted = false;
  for (auto& e : l)
  {
    cancelled |= e == "can:" + a;
    interrupted |= e.compare(0, 4, "int:") == 0;
    MC_CHECK(!(e == "in:" + a && cancelled && !interrupted), "a cancelled request is presented: " + Join(l));
  }
  if (a == "B1" && ju::Join(l).find("in:B1") != std::string::npos)
    MC_CHECK(interrupted, "cancelled while being handled but not interrupted: " + Join(l));
}
// Cancelling a waiting request while another one is being handled.
SCENARIO(cancel_queued, s.quick = 3, s.thorough = 4)
{
  Fixture fx;
  auto f1 = fx.Ask("W1");
  auto f2 = fx.Ask("Q2");
  auto f3 = fx.Ask("Q3");
  Id id2 = f2->GetId();
  std::thread t([&] { f2.reset(); mc::Log("can:Q2"); });
  MC_CHECK(f3->WaitFor(10.0), "Q3");
  Take(*f3, "Q3");
  MC_CHECK(f1->WaitFor(10.0), "Q1");
  Take(*f1, "W1");
  MC_CHECK(mc::Now() <= 1100000, "waited although answered: " + Trace());
  t.join();
  fx.ad.reset();
  CheckLog({id2});
}
// Waiting has a limit, and an unanswered request can still be answered later.
SCENARIO(wait_limit, s.quick = 3, s.thorough = 4)
{
  Fixture fx;
  auto f = fx.Ask("W1");
  bool thrown = false;
  bool ready = f->IsReady();
  try
  {
    if (!ready && mc::Now() == 0)
      f->GetValue();
    else
      thrown = true;
  }
  catch (const InvalidOperationException&)
  {
    thrown = true;
  }
  MC_CHECK(thrown, "a value was given before the user answered");
  MC_CHECK(f->IsValid(), "asking too early invalidates the future");
  int64_t t0 = mc::Now();
  bool ok = f->WaitFor(0.0005);
  MC_CHECK(ok ? mc::Now() >= 1000000 || t0 >= 1000000 : mc::Now() - t0 >= 500000 && mc::Now() - t0 < 600000, "a limited wait took " + std::to_string(mc::Now() - t0));
  MC_CHECK(f->WaitFor(10.0), "not answered");
  MC_CHECK(mc::Now() < 1100000, "not answered in time");
  Take(*f, "W1");
}
// Shutting down with requests outstanding.
SCENARIO(shutdown, s.quick = 3, s.thorough = 5)
{
  Fixture fx;
  const char* kinds[] = {"B1", "Q1", "W1"};
  std::string a = kinds[mc::Choose(3)];
  int what = mc::Choose(4);
  auto f1 = fx.Ask(a);
  Id id = f1->GetId(), id2 = 0;
  std::unique_ptr<IUserInputFuture> f2;
  if (what & 1)
  {
    f2 = fx.Ask("B2");
    id2 = f2->GetId();
  }
  if (what & 2)
    ju::Settle();
  f1.reset();
  f2.reset();
  fx.ad.reset();
  mc::Log("down");
  CheckLog({id, id2});
  auto l = mc::GetLog();
  MC_CHECK(l.back() == "down", "the user is asked after the shutdown: " + Join(l));
  MC_CHECK(fx.user.busy == 0, "the user is still being asked after the shutdown");
}
// The same while the last request is still being waited for; its requester gave up before the shutdown.
SCENARIO(shutdown_after_waiting, s.quick = 3, s.thorough = 4)
{
  Fixture fx;
  Id id = 0, id2 = 0;
  {
    std::thread t([&] {
      auto f = fx.Ask("B1");
      id = f->GetId();
      MC_CHECK(!f->WaitFor(0.001), "B1 was answered");
    });
    auto f = fx.Ask(mc::Choose(2) ? "B2" : "W2");
    id2 = f->GetId();
    f->WaitFor(0.002);
    t.join();
  }
  fx.ad.reset();
  CheckLog({id, id2});
}
// An outstanding request when the adapter ends: the user interface is interrupted, the future is destroyed later.
SCENARIO(shutdown_busy, s.quick = 3, s.thorough = 5)
{
  Fixture fx;
  auto f = fx.Ask("B1");
  Id id = f->GetId();
  if (mc::Choose(2))
    while (fx.user.busy == 0)
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
  (void)f->GetId();
  fx.ad.reset();
  mc::Log("down");
  f.release();  // its destructor may not use the adapter any more
  CheckLog({id});
  auto l = mc::GetLog();
  MC_CHECK(l.back() == "down", "the user is asked after the shutdown: " + Join(l));
}
// Through the interface of a job.
namespace
{
struct JobUser : public Recorder
{
  User user;
  bool GetUserValue(Id id, AnyValue& v, const std::string& d) override
  {
    MC_CHECK(v.GetType() == sup::dto::SignedInteger32Type, "wrong type asked");
    user.Begin(id, d);
    bool ok = user.End(id, d);
    v = AnyValue{sup::dto::int32(Answer(d))};
    return ok;
  }
  int GetUserChoice(Id id, const std::vector<std::string>& o, const AnyValue& m) override
  {
    MC_CHECK(o.size() == 2 && o[1] == "two" && IsUserChoiceMetadata(m), "the choice changed on its way to the user");
    user.Begin(id, o[0]);
    return user.End(id, o[0]) ? o[0][1] - '0' : -1;
  }
  void Interrupt(Id id) override { user.Interrupt(id); }
};
}  // namespace
SCENARIO(job_interface, s.quick = 2, s.thorough = 4)
{
  Procedure proc{""};
  JobUser io;
  {
    JobInterfaceAdapter ad{proc, io};
    int kind = mc::Choose(4);
    std::thread t([&] {
      auto f = ad.RequestUserInput(CreateUserChoiceRequest({kind & 1 ? "F4" : "W4", "two"}, CreateUserChoiceMetadata()));
      if (kind & 2)
        return;
      MC_CHECK(f->WaitFor(10.0), "no choice");
      MC_CHECK(f->GetValue() == CreateUserChoiceReply(!(kind & 1), kind & 1 ? -1 : 4), "wrong choice");
      MC_CHECK(mc::Now() < 1200000, "the choice was not reported at once");
    });
    auto f = ad.RequestUserInput(CreateUserValueRequest(AnyValue{sup::dto::int32(0)}, "Q2"));
    MC_CHECK(f->WaitFor(10.0), "no value");
    Take(*f, "Q2");
    MC_CHECK(mc::Now() < 1200000, "the value was not reported at once");
    auto bad = ad.RequestUserInput(UserInputRequest{InputRequestType::kUserChoice, {}, {}});
    MC_CHECK(bad->WaitFor(10.0) && bad->GetValue() == kInvalidUserInputReply, "an invalid request is answered");
    t.join();
  }
  mc::Outcome(Trace());
}
SCENARIO(job_interface_shutdown, s.quick = 3, s.thorough = 5)
{
  Procedure proc{""};
  JobUser io;
  {
    JobInterfaceAdapter ad{proc, io};
    auto f = ad.RequestUserInput(CreateUserValueRequest(AnyValue{sup::dto::int32(0)}, mc::Choose(2) ? "B2" : "Q2"));
    if (mc::Choose(2))
      ju::Settle();
  }
  MC_CHECK(io.user.busy == 0, "the user is still being asked after the end of the job");
  mc::Outcome(Trace());
}
// A reply that is not taken yet is kept, however many requests follow.
SCENARIO(many_requests, s.quick = 0, s.thorough = 0)
{
  Fixture fx;
  int n = mc::Choose(2) ? 260 : 130;
  auto kept = fx.Ask("Q1");
  Id id = kept->GetId();
  MC_CHECK(kept->WaitFor(10.0), "Q1");
  for (int i = 0; i < n; ++i)
  {
    auto f = fx.Ask("Q2");
    MC_CHECK(f->GetId() != id, "the identification of a request in use is used again");
    MC_CHECK(f->WaitFor(10.0), "Q2");
    Take(*f, "Q2");
  }
  Take(*kept, "Q1");
}
