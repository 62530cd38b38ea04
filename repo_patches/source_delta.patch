From 2985a59b09f63d7b76e058b7cace1762a08ce073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 01/25] fix: predict the first instructions of a loop body
 again for each iteration

Repeat and For reset a finished body only when the next iteration was
executed, so that in between the body still counted as finished and the
instructions of the next iteration were not reported as next (and their
breakpoints were passed).
---
 src/lib/sup/oac-tree/instructions/for.cpp    | 8 +++++++-
 src/lib/sup/oac-tree/instructions/repeat.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/for.cpp b/src/lib/sup/oac-tree/instructions/for.cpp
index 346cacc..de20d6c 100644
--- a/src/lib/sup/oac-tree/instructions/for.cpp
+++ b/src/lib/sup/oac-tree/instructions/for.cpp
@@ -118,7 +118,13 @@ ExecutionStatus ForInstruction::ExecuteSingleImpl(UserInterface& ui, Workspace&
   {
     m_count++;
   }
-  return CalculateStatus(max_count);
+  const auto status = CalculateStatus(max_count);
+  if (child_status == ExecutionStatus::SUCCESS && status == ExecutionStatus::NOT_FINISHED)
+  {
+    // Prepare the next iteration now, such that the next instructions are reported correctly:
+    ResetChild(ui);
+  }
+  return status;
 }
 
 ExecutionStatus ForInstruction::CalculateStatus(int max_count) const
diff --git a/src/lib/sup/oac-tree/instructions/repeat.cpp b/src/lib/sup/oac-tree/instructions/repeat.cpp
index 0d4a7d0..fe4922c 100644
--- a/src/lib/sup/oac-tree/instructions/repeat.cpp
+++ b/src/lib/sup/oac-tree/instructions/repeat.cpp
@@ -79,7 +79,13 @@ ExecutionStatus Repeat::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
   {
     m_count++;
   }
-  return CalculateStatus();
+  const auto status = CalculateStatus();
+  if (child_status == ExecutionStatus::SUCCESS && status == ExecutionStatus::NOT_FINISHED)
+  {
+    // Prepare the next iteration now, such that the next instructions are reported correctly:
+    ResetChild(ui);
+  }
+  return status;
 }
 
 ExecutionStatus Repeat::CalculateStatus() const
-- 
2.43.0


From 689c62c3dc5cd2f751869b6e223f970b306d48a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 02/25] fix: keep the job interface alive until the procedure
 of a job is destroyed

An asynchronous instruction that is still executing when a LocalJob is destroyed reports its status
to the job interface: destroying the interface first is a use after free.
---
 src/lib/sup/oac-tree/runner/local_job.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/sup/oac-tree/runner/local_job.cpp b/src/lib/sup/oac-tree/runner/local_job.cpp
index e346906..e282916 100644
--- a/src/lib/sup/oac-tree/runner/local_job.cpp
+++ b/src/lib/sup/oac-tree/runner/local_job.cpp
@@ -34,8 +34,10 @@ struct LocalJob::LocalJobImpl
   LocalJobImpl(std::unique_ptr<Procedure> proc, IJobInfoIO& job_info_io);
   ~LocalJobImpl() = default;
 
-  std::unique_ptr<Procedure> m_proc;
+  // The procedure may still have asynchronous instructions that report to the job interface until
+  // it is destroyed: the interface has to outlive the procedure.
   JobInterfaceAdapter m_job_interface;
+  std::unique_ptr<Procedure> m_proc;
 
   AsyncRunner m_runner;
   std::unique_ptr<JobInfo> m_job_info;
@@ -117,8 +119,8 @@ AsyncRunner& LocalJob::Runner()
 }
 
 LocalJob::LocalJobImpl::LocalJobImpl(std::unique_ptr<Procedure> proc, IJobInfoIO& job_info_io)
-  : m_proc{std::move(proc)}
-  , m_job_interface{*m_proc, job_info_io}
+  : m_job_interface{*proc, job_info_io}
+  , m_proc{std::move(proc)}
   , m_runner{*m_proc, m_job_interface}
   , m_job_info{}
   , m_ordered_instructions{}
-- 
2.43.0


From 6c5edb027458ec92c5c7ecd1e1ea751946b1f8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:30 +0000
Subject: [PATCH 03/25] fix: forget the previous breakpoint hit when a runner
 continues

After a breakpoint hit followed by a single step into an asynchronous operation, the list of hit
breakpoints was not refreshed anymore: the job reported to be paused after it succeeded.
---
 src/lib/sup/oac-tree/runner/runner.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/sup/oac-tree/runner/runner.cpp b/src/lib/sup/oac-tree/runner/runner.cpp
index 70abdd8..43f9b82 100644
--- a/src/lib/sup/oac-tree/runner/runner.cpp
+++ b/src/lib/sup/oac-tree/runner/runner.cpp
@@ -88,6 +88,7 @@ std::vector<Breakpoint> Runner::GetBreakpoints() const
 void Runner::ExecuteProcedure()
 {
   m_halt.store(false);
+  m_current_breakpoint_instructions.clear();
   if (!m_proc)
   {
     return;
-- 
2.43.0


From a0a4f749e5cde8b48d1b65681ddeaab1b266fcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:48 +0000
Subject: [PATCH 04/25] fix: rearm triggered breakpoints when a job is reset

A breakpoint that was hit, followed by a halt and a reset of the job, was ignored during the next run.
---
 src/lib/sup/oac-tree/runner.h                | 8 ++++++++
 src/lib/sup/oac-tree/runner/async_runner.cpp | 1 +
 src/lib/sup/oac-tree/runner/runner.cpp       | 6 ++++++
 3 files changed, 15 insertions(+)

diff --git a/src/lib/sup/oac-tree/runner.h b/src/lib/sup/oac-tree/runner.h
index e86a039..204216d 100644
--- a/src/lib/sup/oac-tree/runner.h
+++ b/src/lib/sup/oac-tree/runner.h
@@ -109,6 +109,14 @@ public:
    */
   std::vector<Breakpoint> GetBreakpoints() const;
 
+  /**
+   * @brief Make sure that breakpoints that were triggered before will be triggered again.
+   *
+   * @note This member function should not be called during execution, but only when it is paused,
+   * before/after a single execution step or after a breakpoint was triggered.
+   */
+  void ResetBreakpoints();
+
   /**
    * @brief Execute the procedure
    */
diff --git a/src/lib/sup/oac-tree/runner/async_runner.cpp b/src/lib/sup/oac-tree/runner/async_runner.cpp
index 1268140..cbd7174 100644
--- a/src/lib/sup/oac-tree/runner/async_runner.cpp
+++ b/src/lib/sup/oac-tree/runner/async_runner.cpp
@@ -244,6 +244,7 @@ AsyncRunner::Action AsyncRunner::HandleFinished(JobCommand command)
       break;
     case JobCommand::kReset:
       m_proc.Reset(m_ui);
+      m_runner.ResetBreakpoints();
       SetState(JobState::kInitial);
       break;
     case JobCommand::kHalt:
diff --git a/src/lib/sup/oac-tree/runner/runner.cpp b/src/lib/sup/oac-tree/runner/runner.cpp
index 43f9b82..36986ab 100644
--- a/src/lib/sup/oac-tree/runner/runner.cpp
+++ b/src/lib/sup/oac-tree/runner/runner.cpp
@@ -85,6 +85,12 @@ std::vector<Breakpoint> Runner::GetBreakpoints() const
   return std::vector<Breakpoint>{ list.begin(), list.end() };
 }
 
+void Runner::ResetBreakpoints()
+{
+  m_current_breakpoint_instructions.clear();
+  m_breakpoint_manager->ResetBreakpoints();
+}
+
 void Runner::ExecuteProcedure()
 {
   m_halt.store(false);
-- 
2.43.0


From 075f512c735ae3867beb487e3f3682532ea49ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:28 +0000
Subject: [PATCH 05/25] fix: serialize the instruction states that are reported
 by a job

Setting a breakpoint while the job is executing updated and reported the state of an instruction
concurrently with its execution: a data race that could also leave observers with outdated states.
---
 src/lib/sup/oac-tree/job_interface_adapter.h          | 2 ++
 src/lib/sup/oac-tree/runner/job_interface_adapter.cpp | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/lib/sup/oac-tree/job_interface_adapter.h b/src/lib/sup/oac-tree/job_interface_adapter.h
index 1444aa7..1f01246 100644
--- a/src/lib/sup/oac-tree/job_interface_adapter.h
+++ b/src/lib/sup/oac-tree/job_interface_adapter.h
@@ -29,6 +29,7 @@
 #include <sup/oac-tree/job_interface.h>
 #include <sup/oac-tree/job_map.h>
 
+#include <mutex>
 #include <vector>
 
 namespace sup
@@ -65,6 +66,7 @@ public:
 private:
   JobMap m_job_map;
   std::vector<InstructionState> m_instr_states;
+  std::mutex m_instr_states_mtx;
   IJobInfoIO& m_job_info_io;
   AsyncInputAdapter m_input_adapter;
 };
diff --git a/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp b/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
index 47bf8db..32b13a8 100644
--- a/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
+++ b/src/lib/sup/oac-tree/runner/job_interface_adapter.cpp
@@ -42,6 +42,7 @@ using namespace std::placeholders;
 JobInterfaceAdapter::JobInterfaceAdapter(const Procedure& proc, IJobInfoIO& job_info_io)
   : m_job_map{proc}
   , m_instr_states{}
+  , m_instr_states_mtx{}
   , m_job_info_io{job_info_io}
   , m_input_adapter{std::bind(&ForwardUserInput, std::ref(m_job_info_io), _1, _2),
                     std::bind(&ForwardInterrupt, std::ref(m_job_info_io), _1)}
@@ -71,6 +72,8 @@ std::vector<const Instruction*> JobInterfaceAdapter::GetOrderedInstructions() co
 void JobInterfaceAdapter::UpdateInstructionStatus(const Instruction* instruction)
 {
   auto instr_idx = m_job_map.GetInstructionIndex(instruction);
+  // Updates from different threads are serialized, so the last one reported is the current state.
+  std::lock_guard<std::mutex> lk{m_instr_states_mtx};
   auto status = instruction->GetStatus();
   auto& instr_state = m_instr_states[instr_idx];
   instr_state.m_execution_status = status;
@@ -115,6 +118,8 @@ void JobInterfaceAdapter::OnBreakpointChange(const Instruction* instruction,
                                              bool breakpoint_set) noexcept
 {
   auto instr_idx = m_job_map.GetInstructionIndex(instruction);
+  // Updates from different threads are serialized, so the last one reported is the current state.
+  std::lock_guard<std::mutex> lk{m_instr_states_mtx};
   auto& instr_state = m_instr_states[instr_idx];
   instr_state.m_breakpoint_set = breakpoint_set;
   m_job_info_io.InstructionStateUpdated(instr_idx, instr_state);
-- 
2.43.0


From 44a56382333ae41c99695e7e2f5fcfa0caa75928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:23 +0000
Subject: [PATCH 06/25] fix: interrupt the running child when a reactive
 instruction finishes

An asynchronous child of a ReactiveSequence or ReactiveFallback kept executing after an earlier child
had determined the outcome.
---
 src/lib/sup/oac-tree/instructions/reactive_fallback.cpp | 8 +++++++-
 src/lib/sup/oac-tree/instructions/reactive_sequence.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/reactive_fallback.cpp b/src/lib/sup/oac-tree/instructions/reactive_fallback.cpp
index 421b845..b352988 100644
--- a/src/lib/sup/oac-tree/instructions/reactive_fallback.cpp
+++ b/src/lib/sup/oac-tree/instructions/reactive_fallback.cpp
@@ -57,7 +57,13 @@ ExecutionStatus ReactiveFallback::ExecuteSingleImpl(UserInterface& ui, Workspace
       break;
     }
   }
-  return CalculateCompoundStatus();
+  auto status = CalculateCompoundStatus();
+  if (IsFinishedStatus(status))
+  {
+    // Interrupt an asynchronous child that may still be running
+    Halt();
+  }
+  return status;
 }
 
 std::vector<const Instruction*> ReactiveFallback::NextInstructionsImpl() const
diff --git a/src/lib/sup/oac-tree/instructions/reactive_sequence.cpp b/src/lib/sup/oac-tree/instructions/reactive_sequence.cpp
index f5215b6..9366d51 100644
--- a/src/lib/sup/oac-tree/instructions/reactive_sequence.cpp
+++ b/src/lib/sup/oac-tree/instructions/reactive_sequence.cpp
@@ -57,7 +57,13 @@ ExecutionStatus ReactiveSequence::ExecuteSingleImpl(UserInterface& ui, Workspace
       break;
     }
   }
-  return CalculateCompoundStatus();
+  auto status = CalculateCompoundStatus();
+  if (IsFinishedStatus(status))
+  {
+    // Interrupt an asynchronous child that may still be running
+    Halt();
+  }
+  return status;
 }
 
 std::vector<const Instruction*> ReactiveSequence::NextInstructionsImpl() const
-- 
2.43.0


From 380c22dbdd95df43e64152bfe6ad7203c49e8c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:05 +0000
Subject: [PATCH 07/25] fix: notify the stored value of a local variable
 instead of the written one

---
 src/lib/sup/oac-tree/variables/local_variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/variables/local_variable.cpp b/src/lib/sup/oac-tree/variables/local_variable.cpp
index b53e95b..921602d 100644
--- a/src/lib/sup/oac-tree/variables/local_variable.cpp
+++ b/src/lib/sup/oac-tree/variables/local_variable.cpp
@@ -87,7 +87,7 @@ bool LocalVariable::SetValueImpl(const sup::dto::AnyValue& value)
   }
   if (result)
   {
-    Notify(value, true);
+    Notify(m_value, true);
   }
   return result;
 }
-- 
2.43.0


From 7a6faae2eb1794e56267d77b971d09acccc4a779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:49 +0000
Subject: [PATCH 08/25] fix: serialize setup, reset and teardown of a variable
 with its other accesses

---
 src/lib/sup/oac-tree/variable.h             | 2 +-
 src/lib/sup/oac-tree/variables/variable.cpp | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/sup/oac-tree/variable.h b/src/lib/sup/oac-tree/variable.h
index ab64996..0205e6a 100644
--- a/src/lib/sup/oac-tree/variable.h
+++ b/src/lib/sup/oac-tree/variable.h
@@ -275,7 +275,7 @@ private:
    * @details This mutex protects access to all other private member data, unless explicitly
    * mentioned otherwise.
    */
-  mutable std::mutex m_access_mutex;
+  mutable std::recursive_mutex m_access_mutex;
 
   /**
    * @brief Mutex for concurrent access of the update counter.
diff --git a/src/lib/sup/oac-tree/variables/variable.cpp b/src/lib/sup/oac-tree/variables/variable.cpp
index 7b32f8c..68f36ba 100644
--- a/src/lib/sup/oac-tree/variables/variable.cpp
+++ b/src/lib/sup/oac-tree/variables/variable.cpp
@@ -76,6 +76,7 @@ void Variable::SetName(const std::string &name)
 
 SetupTeardownActions Variable::Setup(const Workspace& ws)
 {
+  std::lock_guard<std::recursive_mutex> lk(m_access_mutex);
   if (!m_attribute_handler.ValidateAttributes())
   {
     auto error_message =
@@ -89,12 +90,13 @@ SetupTeardownActions Variable::Setup(const Workspace& ws)
 
 void Variable::Reset(const Workspace& ws)
 {
+  std::lock_guard<std::recursive_mutex> lk(m_access_mutex);
   return ResetImpl(ws);
 }
 
 bool Variable::GetValue(sup::dto::AnyValue& value, const std::string& fieldname) const
 {
-  std::lock_guard<std::mutex> lock(m_access_mutex);
+  std::lock_guard<std::recursive_mutex> lock(m_access_mutex);
   if (!m_setup_successful)
   {
     return false;
@@ -114,7 +116,7 @@ bool Variable::GetValue(sup::dto::AnyValue& value, const std::string& fieldname)
 
 bool Variable::SetValue(const sup::dto::AnyValue& value, const std::string& fieldname)
 {
-  std::lock_guard<std::mutex> lk(m_access_mutex);
+  std::lock_guard<std::recursive_mutex> lk(m_access_mutex);
   if (!m_setup_successful)
   {
     return false;
@@ -141,7 +143,7 @@ bool Variable::SetValue(const sup::dto::AnyValue& value, const std::string& fiel
 
 bool Variable::IsAvailable() const
 {
-  std::lock_guard<std::mutex> lk(m_access_mutex);
+  std::lock_guard<std::recursive_mutex> lk(m_access_mutex);
   if (!m_setup_successful)
   {
     return false;
@@ -166,6 +168,7 @@ void Variable::SetNotifyCallback(Callback func)
 
 void Variable::Teardown()
 {
+  std::lock_guard<std::recursive_mutex> lk(m_access_mutex);
   TeardownImpl();
   m_attribute_handler.ClearFailedConstraints();
   m_setup_successful = false;
-- 
2.43.0


From 8b503cfe762496ad55906d37767e06347b0c2b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:49 +0000
Subject: [PATCH 09/25] fix: do not miss variable updates while waiting for its
 availability

---
 src/lib/sup/oac-tree/procedure/workspace.cpp | 24 +++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/lib/sup/oac-tree/procedure/workspace.cpp b/src/lib/sup/oac-tree/procedure/workspace.cpp
index f7e759d..a2fa9d8 100644
--- a/src/lib/sup/oac-tree/procedure/workspace.cpp
+++ b/src/lib/sup/oac-tree/procedure/workspace.cpp
@@ -28,6 +28,7 @@
 
 #include <algorithm>
 #include <atomic>
+#include <chrono>
 #include <condition_variable>
 #include <set>
 #include <mutex>
@@ -161,19 +162,30 @@ bool Workspace::WaitForVariable(const std::string& name, double timeout_sec, boo
   {
     return false;
   }
-  auto timeout_duration = std::chrono::duration<double>(timeout_sec);
+  const auto deadline = std::chrono::steady_clock::now()
+    + std::chrono::duration_cast<std::chrono::steady_clock::duration>(
+        std::chrono::duration<double>(timeout_sec));
   int dummy_listener; // to get a unique address
   std::mutex mx;
-  std::unique_lock<std::mutex> lk(mx);
   std::condition_variable cv;
+  bool updated = false;
   auto cb_guard = GetCallbackGuard(&dummy_listener);
-  auto callback = [&cv](const auto&, auto){
+  auto callback = [&mx, &cv, &updated](const auto&, auto){
+                    std::lock_guard<std::mutex> lk(mx);
+                    updated = true;
                     cv.notify_one();
                   };
   RegisterCallback(name, callback, &dummy_listener);
-  cv.wait_for(lk, timeout_duration, [&it, availability]{
-      return it->second->IsAvailable() == availability;
-    });
+  // The variable is never accessed with the lock held, as its callbacks need that lock too.
+  while (it->second->IsAvailable() != availability)
+  {
+    std::unique_lock<std::mutex> lk(mx);
+    if (!cv.wait_until(lk, deadline, [&updated]{ return updated; }))
+    {
+      break;
+    }
+    updated = false;
+  }
   return it->second->IsAvailable() == availability;
 }
 
-- 
2.43.0


From db067df1616b2dba03e8e495fd4a401803ddc8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:30 +0000
Subject: [PATCH 10/25] fix: wake all threads that wait for a job state

---
 src/lib/sup/oac-tree/base/application_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/base/application_utils.cpp b/src/lib/sup/oac-tree/base/application_utils.cpp
index ed5c08a..31ea5e6 100644
--- a/src/lib/sup/oac-tree/base/application_utils.cpp
+++ b/src/lib/sup/oac-tree/base/application_utils.cpp
@@ -91,7 +91,7 @@ void SimpleJobStateMonitor::OnStateChange(JobState state) noexcept
     std::lock_guard<std::mutex> lk{m_mtx};
     m_state = state;
   }
-  m_cv.notify_one();
+  m_cv.notify_all();
 }
 
 void SimpleJobStateMonitor::OnBreakpointChange(const Instruction* instruction,
-- 
2.43.0


From a07d10b33258a3391dc7911a9415dd15aba846de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:02 +0000
Subject: [PATCH 11/25] fix: wake all threads that wait for user input replies

---
 src/lib/sup/oac-tree/base/async_input_adapter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index aa4a0bc..710f36f 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -100,7 +100,8 @@ void AsyncInputAdapter::HandleRequestQueue()
     if (m_current_id == id)
     {
       m_replies[m_current_id] = reply;
-      m_reply_cv.notify_one();
+      // Different threads may be waiting for different replies
+      m_reply_cv.notify_all();
     }
     m_current_id = 0;
   }
-- 
2.43.0


From a40793d21b63df2c55be1611c20cf43ed8ad671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:02 +0000
Subject: [PATCH 12/25] fix: end the handling of user input before destroying
 its members

---
 src/lib/sup/oac-tree/base/async_input_adapter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/sup/oac-tree/base/async_input_adapter.cpp b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
index 710f36f..4fc4bd9 100644
--- a/src/lib/sup/oac-tree/base/async_input_adapter.cpp
+++ b/src/lib/sup/oac-tree/base/async_input_adapter.cpp
@@ -60,6 +60,8 @@ AsyncInputAdapter::~AsyncInputAdapter()
     m_halt = true;
   }
   m_cv.notify_one();
+  // The handler thread uses the mutex and condition variables, so it has to end before them
+  m_handler_future.wait();
 }
 
 std::unique_ptr<IUserInputFuture> AsyncInputAdapter::AddUserInputRequest(
-- 
2.43.0


From db67252727dd9b69f9cb3982b8f523b380efb59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:59 +0000
Subject: [PATCH 13/25] fix: serialize halting of user interaction instructions
 with their execution

---
 src/lib/sup/oac-tree/instructions/input.cpp   | 35 +++++++++++++++----
 src/lib/sup/oac-tree/instructions/input.h     |  2 ++
 .../sup/oac-tree/instructions/user_choice.cpp | 35 +++++++++++++++----
 .../sup/oac-tree/instructions/user_choice.h   |  3 ++
 .../instructions/user_confirmation.cpp        | 35 +++++++++++++++----
 .../oac-tree/instructions/user_confirmation.h |  4 +++
 6 files changed, 93 insertions(+), 21 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/input.cpp b/src/lib/sup/oac-tree/instructions/input.cpp
index 6c145c3..ff635bb 100644
--- a/src/lib/sup/oac-tree/instructions/input.cpp
+++ b/src/lib/sup/oac-tree/instructions/input.cpp
@@ -38,6 +38,7 @@ const std::string Input::Type = "Input";
 Input::Input()
   : Instruction(Input::Type)
   , m_future{}
+  , m_future_mtx{}
 {
   AddAttributeDefinition(Constants::OUTPUT_VARIABLE_NAME_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kVariableName).SetMandatory();
@@ -59,17 +60,24 @@ bool Input::InitHook(UserInterface& ui, Workspace& ws)
   {
     return false;
   }
-  m_future = CreateUserValueFuture(ui, *this, value, description);
-  if (!m_future)
+  auto future = CreateUserValueFuture(ui, *this, value, description);
+  if (!future)
   {
     return false;
   }
+  std::lock_guard<std::mutex> lk{m_future_mtx};
+  if (IsHaltRequested())
+  {
+    // The request may have been created after HaltImpl was called
+    return false;
+  }
+  m_future = std::move(future);
   return true;
 }
 
 ExecutionStatus Input::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  if (IsHaltRequested())
   {
     return ExecutionStatus::FAILURE;
   }
@@ -83,16 +91,29 @@ void Input::ResetHook(UserInterface& ui)
 
 void Input::HaltImpl()
 {
-  m_future.reset();
+  // Halting can be requested from another thread than the one that executes this instruction
+  std::unique_ptr<IUserInputFuture> future{};
+  {
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    future = std::move(m_future);
+  }
 }
 
 ExecutionStatus Input::PollInputFuture(UserInterface& ui, Workspace& ws)
 {
-  if (!m_future->IsReady())
+  UserInputReply reply{};
   {
-    return ExecutionStatus::RUNNING;
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    if (!m_future)
+    {
+      return ExecutionStatus::FAILURE;
+    }
+    if (!m_future->IsReady())
+    {
+      return ExecutionStatus::RUNNING;
+    }
+    reply = m_future->GetValue();
   }
-  auto reply = m_future->GetValue();
   auto [success, user_value] = ParseUserValueReply(reply);
   if (!success)
   {
diff --git a/src/lib/sup/oac-tree/instructions/input.h b/src/lib/sup/oac-tree/instructions/input.h
index 32ed0e9..2c4bee0 100644
--- a/src/lib/sup/oac-tree/instructions/input.h
+++ b/src/lib/sup/oac-tree/instructions/input.h
@@ -26,6 +26,7 @@
 #include <sup/oac-tree/instruction.h>
 
 #include <memory>
+#include <mutex>
 
 namespace sup
 {
@@ -49,6 +50,7 @@ public:
 
 private:
   std::unique_ptr<IUserInputFuture> m_future;
+  std::mutex m_future_mtx;
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.cpp b/src/lib/sup/oac-tree/instructions/user_choice.cpp
index 69a569e..6d59906 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_choice.cpp
@@ -36,6 +36,7 @@ UserChoice::UserChoice()
   : CompoundInstruction(UserChoice::Type)
   , m_choice{-1}
   , m_future{}
+  , m_future_mtx{}
 {
   AddAttributeDefinition(Constants::DESCRIPTION_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kBoth);
@@ -55,27 +56,42 @@ bool UserChoice::InitHook(UserInterface& ui, Workspace& ws)
   metadata.AddMember(Constants::USER_CHOICES_DIALOG_TYPE_NAME,
                      {sup::dto::UnsignedInteger32Type, dialog_type::kSelection});
   auto options = GetChoices();
-  m_future = CreateUserChoiceFuture(ui, *this, options, metadata);
-  if (!m_future)
+  auto future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  if (!future)
   {
     return false;
   }
+  std::lock_guard<std::mutex> lk{m_future_mtx};
+  if (IsHaltRequested())
+  {
+    // The request may have been created after HaltImpl was called
+    return false;
+  }
+  m_future = std::move(future);
   return true;
 }
 
 ExecutionStatus UserChoice::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  if (IsHaltRequested())
   {
     return ExecutionStatus::FAILURE;
   }
   if (m_choice < 0)
   {
-    if (!m_future->IsReady())
+    UserInputReply reply{};
     {
-      return ExecutionStatus::RUNNING;
+      std::lock_guard<std::mutex> lk{m_future_mtx};
+      if (!m_future)
+      {
+        return ExecutionStatus::FAILURE;
+      }
+      if (!m_future->IsReady())
+      {
+        return ExecutionStatus::RUNNING;
+      }
+      reply = m_future->GetValue();
     }
-    auto reply = m_future->GetValue();
     auto [success, choice] = ParseUserChoiceReply(reply);
     if (!success)
     {
@@ -109,7 +125,12 @@ void UserChoice::ResetHook(UserInterface& ui)
 
 void UserChoice::HaltImpl()
 {
-  m_future.reset();
+  // Halting can be requested from another thread than the one that executes this instruction
+  std::unique_ptr<IUserInputFuture> future{};
+  {
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    future = std::move(m_future);
+  }
 }
 
 std::vector<const Instruction*> UserChoice::NextInstructionsImpl() const
diff --git a/src/lib/sup/oac-tree/instructions/user_choice.h b/src/lib/sup/oac-tree/instructions/user_choice.h
index c9be1da..b3f079f 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.h
+++ b/src/lib/sup/oac-tree/instructions/user_choice.h
@@ -25,6 +25,8 @@
 
 #include <sup/oac-tree/compound_instruction.h>
 
+#include <memory>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -50,6 +52,7 @@ public:
 private:
   sup::dto::int32 m_choice;
   std::unique_ptr<IUserInputFuture> m_future;
+  std::mutex m_future_mtx;
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
index 05bfd65..e43ee4f 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.cpp
@@ -37,6 +37,7 @@ const std::string DEFAULT_CANCEL_TEXT = "Cancel";
 UserConfirmation::UserConfirmation()
   : Instruction(UserConfirmation::Type)
   , m_future{}
+  , m_future_mtx{}
 {
   AddAttributeDefinition(Constants::DESCRIPTION_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kBoth).SetMandatory();
@@ -69,17 +70,24 @@ bool UserConfirmation::InitHook(UserInterface& ui, Workspace& ws)
   metadata.AddMember(Constants::USER_CHOICES_DIALOG_TYPE_NAME,
                      {sup::dto::UnsignedInteger32Type, dialog_type::kConfirmation});
   std::vector<std::string> options = { ok_text, cancel_text };
-  m_future = CreateUserChoiceFuture(ui, *this, options, metadata);
-  if (!m_future)
+  auto future = CreateUserChoiceFuture(ui, *this, options, metadata);
+  if (!future)
   {
     return false;
   }
+  std::lock_guard<std::mutex> lk{m_future_mtx};
+  if (IsHaltRequested())
+  {
+    // The request may have been created after HaltImpl was called
+    return false;
+  }
+  m_future = std::move(future);
   return true;
 }
 
 ExecutionStatus UserConfirmation::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
 {
-  if (IsHaltRequested() || !m_future)
+  if (IsHaltRequested())
   {
     return ExecutionStatus::FAILURE;
   }
@@ -93,16 +101,29 @@ void UserConfirmation::ResetHook(UserInterface& ui)
 
 void UserConfirmation::HaltImpl()
 {
-  m_future.reset();
+  // Halting can be requested from another thread than the one that executes this instruction
+  std::unique_ptr<IUserInputFuture> future{};
+  {
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    future = std::move(m_future);
+  }
 }
 
 ExecutionStatus UserConfirmation::PollInputFuture(UserInterface& ui, Workspace& ws)
 {
-  if (!m_future->IsReady())
+  UserInputReply reply{};
   {
-    return ExecutionStatus::RUNNING;
+    std::lock_guard<std::mutex> lk{m_future_mtx};
+    if (!m_future)
+    {
+      return ExecutionStatus::FAILURE;
+    }
+    if (!m_future->IsReady())
+    {
+      return ExecutionStatus::RUNNING;
+    }
+    reply = m_future->GetValue();
   }
-  auto reply = m_future->GetValue();
   auto [success, choice] = ParseUserChoiceReply(reply);
   if (!success)
   {
diff --git a/src/lib/sup/oac-tree/instructions/user_confirmation.h b/src/lib/sup/oac-tree/instructions/user_confirmation.h
index 086299f..254b102 100644
--- a/src/lib/sup/oac-tree/instructions/user_confirmation.h
+++ b/src/lib/sup/oac-tree/instructions/user_confirmation.h
@@ -25,6 +25,9 @@
 
 #include <sup/oac-tree/instruction.h>
 
+#include <memory>
+#include <mutex>
+
 namespace sup
 {
 namespace oac_tree
@@ -44,6 +47,7 @@ public:
 
 private:
   std::unique_ptr<IUserInputFuture> m_future;
+  std::mutex m_future_mtx;
 
   bool InitHook(UserInterface& ui, Workspace& ws) override;
 
-- 
2.43.0


From c60a4f6675a2af7986c5f6dc13143e9e95970afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:59 +0000
Subject: [PATCH 14/25] fix: halt the selected child of a user choice

---
 src/lib/sup/oac-tree/instructions/user_choice.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/sup/oac-tree/instructions/user_choice.cpp b/src/lib/sup/oac-tree/instructions/user_choice.cpp
index 6d59906..0489743 100644
--- a/src/lib/sup/oac-tree/instructions/user_choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/user_choice.cpp
@@ -125,6 +125,7 @@ void UserChoice::ResetHook(UserInterface& ui)
 
 void UserChoice::HaltImpl()
 {
+  HaltChildren();
   // Halting can be requested from another thread than the one that executes this instruction
   std::unique_ptr<IUserInputFuture> future{};
   {
-- 
2.43.0


From a48649f9180090601e46eb996f0153337156a4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:42 +0000
Subject: [PATCH 15/25] fix: resolve a variable type given by a variable in
 WaitForVariables

---
 src/lib/sup/oac-tree/instructions/wait_for_variables.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp b/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp
index d2cded5..08208d9 100644
--- a/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp
+++ b/src/lib/sup/oac-tree/instructions/wait_for_variables.cpp
@@ -68,8 +68,12 @@ bool WaitForVariables::InitHook(UserInterface& ui, Workspace& ws)
   {
     return false;
   }
+  std::string var_type;
+  if (!GetAttributeValueAs(Constants::VARIABLE_TYPE_ATTRIBUTE_NAME, ws, ui, var_type))
+  {
+    return false;
+  }
   m_finish = utils::GetNanosecsSinceEpoch() + timeout_ns;
-  const auto var_type = GetAttributeString(Constants::VARIABLE_TYPE_ATTRIBUTE_NAME);
   m_var_names = GetVarNamesOfType(ws, var_type);
   return true;
 }
-- 
2.43.0


From cb4d6db1bb456ee6b470a2df22ee1ee5dddc2150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:42 +0000
Subject: [PATCH 16/25] fix: refuse NaN as a timeout

---
 src/lib/sup/oac-tree/instructions/instruction_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/sup/oac-tree/instructions/instruction_utils.cpp b/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
index 3e9e829..1ad56d2 100644
--- a/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
+++ b/src/lib/sup/oac-tree/instructions/instruction_utils.cpp
@@ -37,7 +37,8 @@ namespace instruction_utils
 
 bool ConvertToTimeoutNanoseconds(sup::dto::float64 timeout_sec, sup::dto::int64& timeout_ns)
 {
-  if (timeout_sec < 0.0 || timeout_sec > kMaxTimeoutSeconds)
+  // This also refuses NaN:
+  if (!(timeout_sec >= 0.0 && timeout_sec <= kMaxTimeoutSeconds))
   {
     return false;
   }
-- 
2.43.0


From 0026db37cbbb28d1b230bfd407fa6f24cc7470a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 17/25] fix: Choice executes an instruction once for every time
 its index appears in the selection

---
 src/lib/sup/oac-tree/instructions/choice.cpp | 49 ++++++++++----------
 src/lib/sup/oac-tree/instructions/choice.h   |  6 +++
 2 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/choice.cpp b/src/lib/sup/oac-tree/instructions/choice.cpp
index ed00ae3..a88f87c 100644
--- a/src/lib/sup/oac-tree/instructions/choice.cpp
+++ b/src/lib/sup/oac-tree/instructions/choice.cpp
@@ -46,6 +46,7 @@ Choice::Choice()
   : CompoundInstruction(Choice::Type)
   , m_instruction_list{}
   , m_instruction_list_initialized{false}
+  , m_next{0}
 {
   AddAttributeDefinition(Constants::GENERIC_VARIABLE_NAME_ATTRIBUTE_NAME)
     .SetCategory(AttributeCategory::kVariableName).SetMandatory();
@@ -64,17 +65,17 @@ ExecutionStatus Choice::ExecuteSingleImpl(UserInterface& ui, Workspace& ws)
     }
     return ExecutionStatus::NOT_FINISHED;
   }
-  for (auto instruction : m_instruction_list)
+  if (m_next < m_instruction_list.size())
   {
-    auto child_status = instruction->GetStatus();
-    if (child_status == ExecutionStatus::SUCCESS)
+    auto instruction = m_instruction_list[m_next];
+    if (NeedsExecute(instruction->GetStatus()))
     {
-      continue;
+      instruction->ExecuteSingle(ui, ws);
     }
-    if (NeedsExecute(child_status))
+    if (instruction->GetStatus() == ExecutionStatus::SUCCESS)
     {
-      instruction->ExecuteSingle(ui, ws);
-      break;
+      ++m_next;
+      PrepareNextInstruction(ui);
     }
   }
   return CalculateCompoundStatus();
@@ -84,25 +85,17 @@ void Choice::ResetHook(UserInterface& ui)
 {
   m_instruction_list.clear();
   m_instruction_list_initialized = false;
+  m_next = 0;
   ResetChildren(ui);
 }
 
 std::vector<const Instruction*> Choice::NextInstructionsImpl() const
 {
   std::vector<const Instruction*> result;
-  for (auto instruction : m_instruction_list)
+  if (m_next < m_instruction_list.size()
+      && ReadyForExecute(m_instruction_list[m_next]->GetStatus()))
   {
-    auto child_status = instruction->GetStatus();
-    if (child_status == ExecutionStatus::SUCCESS)
-    {
-      continue;
-    }
-    if (ReadyForExecute(child_status))
-    {
-      result.push_back(instruction);
-      return result;
-    }
-    break;
+    result.push_back(m_instruction_list[m_next]);
   }
   return result;
 }
@@ -141,15 +134,21 @@ bool Choice::CreateInstructionList(UserInterface& ui, Workspace& ws)
   return true;
 }
 
+void Choice::PrepareNextInstruction(UserInterface& ui)
+{
+  // An instruction that was selected more than once has to be reset before its next execution.
+  if (m_next < m_instruction_list.size()
+      && IsFinishedStatus(m_instruction_list[m_next]->GetStatus()))
+  {
+    m_instruction_list[m_next]->Reset(ui);
+  }
+}
+
 ExecutionStatus Choice::CalculateCompoundStatus() const
 {
-  for (auto instruction : m_instruction_list)
+  if (m_next < m_instruction_list.size())
   {
-    auto child_status = instruction->GetStatus();
-    if (child_status == ExecutionStatus::SUCCESS)
-    {
-      continue;
-    }
+    auto child_status = m_instruction_list[m_next]->GetStatus();
     if (child_status == ExecutionStatus::NOT_STARTED
         || child_status == ExecutionStatus::NOT_FINISHED)
     {
diff --git a/src/lib/sup/oac-tree/instructions/choice.h b/src/lib/sup/oac-tree/instructions/choice.h
index 7c4ceef..f435114 100644
--- a/src/lib/sup/oac-tree/instructions/choice.h
+++ b/src/lib/sup/oac-tree/instructions/choice.h
@@ -27,6 +27,7 @@
 
 #include <sup/dto/anyvalue.h>
 
+#include <cstddef>
 #include <vector>
 
 namespace sup
@@ -53,6 +54,9 @@ private:
 
   bool m_instruction_list_initialized;
 
+  // Position in the list of the instruction that has to be executed next.
+  std::size_t m_next;
+
   ExecutionStatus ExecuteSingleImpl(UserInterface& ui, Workspace& ws) override;
 
   void ResetHook(UserInterface& ui) override;
@@ -61,6 +65,8 @@ private:
 
   bool CreateInstructionList(UserInterface& ui, Workspace& ws);
 
+  void PrepareNextInstruction(UserInterface& ui);
+
   /**
    * @brief Calculate this instruction's status from the status of its selected child instructions.
    */
-- 
2.43.0


From a220d2c407028c47dd8b5970906376a0ba2ed45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 18/25] fix: For assigns the element variable once per
 iteration, not on every tick of the iteration

---
 src/lib/sup/oac-tree/instructions/for.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/lib/sup/oac-tree/instructions/for.cpp b/src/lib/sup/oac-tree/instructions/for.cpp
index de20d6c..19d9c66 100644
--- a/src/lib/sup/oac-tree/instructions/for.cpp
+++ b/src/lib/sup/oac-tree/instructions/for.cpp
@@ -93,17 +93,21 @@ ExecutionStatus ForInstruction::ExecuteSingleImpl(UserInterface& ui, Workspace&
     return ExecutionStatus::FAILURE;
   }
 
-  if (!SetValueFromAttributeName(*this, ws, ui, Constants::ELEMENT_VARIABLE_NAME_ATTRIBUTE_NAME,
-                                 m_array[m_count]))
+  auto child_status = GetChildStatus();
+  if (!IsExecutingStatus(child_status))
   {
-    std::string warning_message = InstructionWarningProlog(*this) +
-      "Could not write current array value to element variable with name [" +
-      GetAttributeString(Constants::ELEMENT_VARIABLE_NAME_ATTRIBUTE_NAME) + "]";
-    LogWarning(ui, warning_message);
-    return ExecutionStatus::FAILURE;
+    // Start of an iteration: afterwards, the element variable belongs to the child instruction.
+    if (!SetValueFromAttributeName(*this, ws, ui, Constants::ELEMENT_VARIABLE_NAME_ATTRIBUTE_NAME,
+                                   m_array[m_count]))
+    {
+      std::string warning_message = InstructionWarningProlog(*this) +
+        "Could not write current array value to element variable with name [" +
+        GetAttributeString(Constants::ELEMENT_VARIABLE_NAME_ATTRIBUTE_NAME) + "]";
+      LogWarning(ui, warning_message);
+      return ExecutionStatus::FAILURE;
+    }
   }
 
-  auto child_status = GetChildStatus();
   if (child_status == ExecutionStatus::SUCCESS)
   {
     ResetChild(ui);
-- 
2.43.0


From 0f8e6c67f11506b795c1afd0788e9c107b98e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 19/25] fix: Procedure resets its instructions before it tears
 down workspaces that asynchronous ones still use

---
 src/lib/sup/oac-tree/procedure/procedure.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lib/sup/oac-tree/procedure/procedure.cpp b/src/lib/sup/oac-tree/procedure/procedure.cpp
index 71de808..da26c24 100644
--- a/src/lib/sup/oac-tree/procedure/procedure.cpp
+++ b/src/lib/sup/oac-tree/procedure/procedure.cpp
@@ -218,12 +218,13 @@ void Procedure::Halt()
 
 void Procedure::Reset(UserInterface& ui)
 {
-  m_workspace->Teardown();
-  m_procedure_store->ResetProcedureWorkspaces(ui);
+  // Instructions first: this waits for asynchronous ones that are still using the workspaces.
   if (RootInstruction() != nullptr)
   {
     RootInstruction()->Reset(ui);
   }
+  m_workspace->Teardown();
+  m_procedure_store->ResetProcedureWorkspaces(ui);
   m_workspace->Setup();
 }
 
@@ -318,13 +319,13 @@ void Procedure::SetupPreamble()
 
 void Procedure::Teardown(UserInterface& ui)
 {
-  m_workspace->Teardown();
-  m_procedure_store->TearDownProcedures(ui);
-  if (RootInstruction() == nullptr)
+  // Instructions first: this waits for asynchronous ones that are still using the workspaces.
+  if (RootInstruction() != nullptr)
   {
-    return;
+    RootInstruction()->Reset(ui);  // instructions are reset instead of torn down.
   }
-  RootInstruction()->Reset(ui);  // instructions are reset instead of torn down.
+  m_workspace->Teardown();
+  m_procedure_store->TearDownProcedures(ui);
   m_attribute_handler.ClearFailedConstraints();
 }
 
-- 
2.43.0


From 7fbd8be279512a0487a0c60ade9d32f7a8c22c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:03 +0000
Subject: [PATCH 20/25] fix: command line input parses all integer types, in
 range and without trailing text

---
 src/app/oac-tree-cli/cl_interface.cpp | 56 ++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/app/oac-tree-cli/cl_interface.cpp b/src/app/oac-tree-cli/cl_interface.cpp
index 8729d48..6e0ca9c 100644
--- a/src/app/oac-tree-cli/cl_interface.cpp
+++ b/src/app/oac-tree-cli/cl_interface.cpp
@@ -30,10 +30,13 @@
 
 #include <cstring>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <sstream>
+#include <type_traits>
 
 static bool ParseStringToScalarAnyvalue(sup::dto::AnyValue &value, const std::string &str);
+static bool FullyParsed(std::istringstream &istr);
 
 namespace sup
 {
@@ -193,7 +196,7 @@ int CLInterface::GetUserChoice(const std::vector<std::string>& options,
   std::getline(std::cin, input_str);
   std::istringstream istr(input_str);
   istr >> input;
-  if (istr.fail())
+  if (!FullyParsed(istr))
   {
     std::string error_message =
       "CLInterface::GetUserChoice(): user provided value [" + input_str +
@@ -221,13 +224,23 @@ int CLInterface::GetUserChoice(const std::vector<std::string>& options,
 
 using ParseFunction = bool (*)(sup::dto::AnyValue &, const std::string &);
 
+// Check that a value was successfully extracted and only whitespace is left.
+static bool FullyParsed(std::istringstream &istr)
+{
+  if (istr.fail())
+  {
+    return false;
+  }
+  return istr.eof() || (istr >> std::ws).eof();
+}
+
 template <typename T>
 bool ParserFunctionT(sup::dto::AnyValue &value, const std::string &str)
 {
   std::istringstream istr(str);
   T val;
   istr >> val;
-  if (istr.fail())
+  if (!FullyParsed(istr))
   {
     return false;
   }
@@ -235,6 +248,28 @@ bool ParserFunctionT(sup::dto::AnyValue &value, const std::string &str)
   return true;
 }
 
+template <typename T>
+bool IntegerParserFunctionT(sup::dto::AnyValue &value, const std::string &str)
+{
+  // Use the widest type, since stream extraction treats 8-bit integers as characters.
+  using WideT = std::conditional_t<std::is_signed_v<T>, sup::dto::int64, sup::dto::uint64>;
+  std::istringstream istr(str);
+  WideT val;
+  istr >> val;
+  if (!FullyParsed(istr) || val < std::numeric_limits<T>::min()
+      || val > std::numeric_limits<T>::max())
+  {
+    return false;
+  }
+  // Stream extraction wraps negative numbers for unsigned types.
+  if (std::is_unsigned_v<T> && val != 0 && str.find('-') != std::string::npos)
+  {
+    return false;
+  }
+  value = static_cast<T>(val);
+  return true;
+}
+
 /**
  * TODO: Extend possible input values: currently only 'true' or 'false'. Possible alternatives
  * are integers (zero is false), case insensitive true/false, yes/no, etc.
@@ -245,7 +280,7 @@ bool ParserFunctionT<sup::dto::boolean>(sup::dto::AnyValue &value, const std::st
   std::istringstream istr(str);
   sup::dto::boolean val;
   istr >> std::boolalpha >> val;
-  if (istr.fail())
+  if (!FullyParsed(istr))
   {
     return false;
   }
@@ -265,13 +300,14 @@ static std::map<std::string, ParseFunction> CreateParserMap()
   std::map<std::string, ParseFunction> parser_map;
   parser_map["bool"] = ParserFunctionT<sup::dto::boolean>;
   parser_map["char8"] = ParserFunctionT<sup::dto::char8>;
-  parser_map["int8"] = ParserFunctionT<sup::dto::int8>;
-  parser_map["uint8"] = ParserFunctionT<sup::dto::uint8>;
-  parser_map["int16"] = ParserFunctionT<sup::dto::int16>;
-  parser_map["uint16"] = ParserFunctionT<sup::dto::uint16>;
-  parser_map["int32"] = ParserFunctionT<sup::dto::int32>;
-  parser_map["uint32"] = ParserFunctionT<sup::dto::uint32>;
-  parser_map["uint64"] = ParserFunctionT<sup::dto::uint64>;
+  parser_map["int8"] = IntegerParserFunctionT<sup::dto::int8>;
+  parser_map["uint8"] = IntegerParserFunctionT<sup::dto::uint8>;
+  parser_map["int16"] = IntegerParserFunctionT<sup::dto::int16>;
+  parser_map["uint16"] = IntegerParserFunctionT<sup::dto::uint16>;
+  parser_map["int32"] = IntegerParserFunctionT<sup::dto::int32>;
+  parser_map["uint32"] = IntegerParserFunctionT<sup::dto::uint32>;
+  parser_map["int64"] = IntegerParserFunctionT<sup::dto::int64>;
+  parser_map["uint64"] = IntegerParserFunctionT<sup::dto::uint64>;
   parser_map["float32"] = ParserFunctionT<sup::dto::float32>;
   parser_map["float64"] = ParserFunctionT<sup::dto::float64>;
   parser_map["string"] = ParserFunctionT<std::string>;
-- 
2.43.0


From 7634a7b67363509dc8a472ed8fa1cdbeeddcf0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 21/25] fix: write the attributes of a procedure to its XML
 representation

---
 .../sup/oac-tree/parser/procedure_to_treedata_utils.cpp    | 4 ++++
 src/lib/sup/oac-tree/procedure.h                           | 7 +++++++
 src/lib/sup/oac-tree/procedure/procedure.cpp               | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
index 72077d4..85a5b05 100644
--- a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
+++ b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
@@ -92,6 +92,10 @@ namespace oac_tree
 std::unique_ptr<sup::xml::TreeData> ToTreeData(const Procedure& procedure)
 {
   auto result = internal::make_unique<sup::xml::TreeData>(Constants::PROCEDURE_ELEMENT_NAME);
+  for (const auto& [attr_name, attr_value] : procedure.GetStringAttributes())
+  {
+    result->AddAttribute(attr_name, attr_value);
+  }
   internal::AddPreamble(*result, procedure.GetPreamble());
   for (auto instruction : procedure.GetTopInstructions())
   {
diff --git a/src/lib/sup/oac-tree/procedure.h b/src/lib/sup/oac-tree/procedure.h
index 5b2b60e..2d5b4de 100644
--- a/src/lib/sup/oac-tree/procedure.h
+++ b/src/lib/sup/oac-tree/procedure.h
@@ -252,6 +252,13 @@ public:
    */
   bool AddAttributes(const StringAttributeList& str_attributes);
 
+  /**
+   * @brief Get all attributes of the procedure.
+   *
+   * @return List of attribute names and values.
+   */
+  const StringAttributeList& GetStringAttributes() const;
+
   /**
    * @brief Get attribute value with given name and type.
    *
diff --git a/src/lib/sup/oac-tree/procedure/procedure.cpp b/src/lib/sup/oac-tree/procedure/procedure.cpp
index da26c24..521d64d 100644
--- a/src/lib/sup/oac-tree/procedure/procedure.cpp
+++ b/src/lib/sup/oac-tree/procedure/procedure.cpp
@@ -262,6 +262,11 @@ bool Procedure::AddAttributes(const StringAttributeList& str_attributes)
   return result;
 }
 
+const StringAttributeList& Procedure::GetStringAttributes() const
+{
+  return m_attribute_handler.GetStringAttributes();
+}
+
 const Workspace& Procedure::GetWorkspace() const
 {
   return *m_workspace;
-- 
2.43.0


From 6e637a631207bca78a2449075ce6662b53daf716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:11 +0000
Subject: [PATCH 22/25] fix: write variables to XML under the name the
 workspace knows them by

---
 .../parser/procedure_to_treedata_utils.cpp    | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
index 85a5b05..977d4b2 100644
--- a/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
+++ b/src/lib/sup/oac-tree/parser/procedure_to_treedata_utils.cpp
@@ -62,6 +62,23 @@ void Iterate(const Instruction* instruction, sup::xml::TreeData* parent)
   }
 }
 
+// The name under which a workspace knows a variable is not necessarily the variable's own name
+std::unique_ptr<sup::xml::TreeData> CreateTreeData(const std::string& name,
+                                                   const Variable* variable)
+{
+  auto tree_data = internal::make_unique<sup::xml::TreeData>(variable->GetType());
+  for (const auto& [attr_name, attr_value] : variable->GetStringAttributes())
+  {
+    const bool is_name = attr_name == Constants::NAME_ATTRIBUTE_NAME;
+    tree_data->AddAttribute(attr_name, is_name ? name : attr_value);
+  }
+  if (!tree_data->HasAttribute(Constants::NAME_ATTRIBUTE_NAME))
+  {
+    tree_data->AddAttribute(Constants::NAME_ATTRIBUTE_NAME, name);
+  }
+  return tree_data;
+}
+
 void AddPreamble(sup::xml::TreeData& parent, const ProcedurePreamble& preamble)
 {
   for (auto& type_registration : preamble.GetTypeRegistrations())
@@ -118,9 +135,9 @@ std::unique_ptr<sup::xml::TreeData> ToTreeData(const Variable& variable)
 std::unique_ptr<sup::xml::TreeData> ToTreeData(const Workspace& workspace)
 {
   auto result = internal::make_unique<sup::xml::TreeData>(Constants::WORKSPACE_ELEMENT_NAME);
-  for (auto variable : workspace.GetVariables())
+  for (const auto& name : workspace.VariableNames())
   {
-    result->AddChild(*ToTreeData(*variable));
+    result->AddChild(*internal::CreateTreeData(name, workspace.GetVariable(name)));
   }
   return result;
 }
-- 
2.43.0


From cc0c0a409ae18a3319f30f0169431b9345ddf22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:11 +0000
Subject: [PATCH 23/25] fix: refuse instruction information with an unknown
 category

---
 src/lib/sup/oac-tree/runner/instruction_info_utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/sup/oac-tree/runner/instruction_info_utils.cpp b/src/lib/sup/oac-tree/runner/instruction_info_utils.cpp
index d66f2d3..ca301eb 100644
--- a/src/lib/sup/oac-tree/runner/instruction_info_utils.cpp
+++ b/src/lib/sup/oac-tree/runner/instruction_info_utils.cpp
@@ -234,6 +234,10 @@ bool ValidateInstructionInfoAnyValue(const sup::dto::AnyValue& instr_info)
   {
     return false;
   }
+  if (instr_info[kInstructionInfoNodeCategoryField].As<sup::dto::uint32>() > Instruction::kCompound)
+  {
+    return false;
+  }
   if (!ValidateMemberType(instr_info, kIndexField, sup::dto::UnsignedInteger32Type))
   {
     return false;
-- 
2.43.0


From 9fd1630e067d9c2104a0d46ff925c2ccb37ec015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:11 +0000
Subject: [PATCH 24/25] fix: refuse an instruction state with an unknown
 execution status

---
 src/lib/sup/oac-tree/runner/instruction_state.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/sup/oac-tree/runner/instruction_state.cpp b/src/lib/sup/oac-tree/runner/instruction_state.cpp
index c6b6208..341fdb0 100644
--- a/src/lib/sup/oac-tree/runner/instruction_state.cpp
+++ b/src/lib/sup/oac-tree/runner/instruction_state.cpp
@@ -65,10 +65,16 @@ InstructionState ToInstructionState(const sup::dto::AnyValue& state_av)
       "InstructionState object";
     throw InvalidOperationException(error);
   }
+  const auto status = state_av[kExecStatusField].As<sup::dto::uint16>();
+  if (status > static_cast<sup::dto::uint16>(ExecutionStatus::FAILURE))
+  {
+    const std::string error = "ToInstructionState(): provided AnyValue contains an unknown "
+      "execution status";
+    throw InvalidOperationException(error);
+  }
   InstructionState result;
   result.m_breakpoint_set = state_av[kBreakpointField].As<sup::dto::boolean>();
-  result.m_execution_status =
-    static_cast<ExecutionStatus>(state_av[kExecStatusField].As<sup::dto::uint16>());
+  result.m_execution_status = static_cast<ExecutionStatus>(status);
   return result;
 }
 
-- 
2.43.0


From beb134260c2e959c7167e6ece96f7bb169fc9b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:29 +0000
Subject: [PATCH 25/25] fix: a reset only sets up the workspaces of included
 procedures that are in use

---
 src/lib/sup/oac-tree/procedure/procedure_store.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/sup/oac-tree/procedure/procedure_store.cpp b/src/lib/sup/oac-tree/procedure/procedure_store.cpp
index 267e686..ab468fc 100644
--- a/src/lib/sup/oac-tree/procedure/procedure_store.cpp
+++ b/src/lib/sup/oac-tree/procedure/procedure_store.cpp
@@ -64,6 +64,11 @@ void ProcedureStore::ResetProcedureWorkspaces(UserInterface& ui) const
   for (auto& [_, procedure] : m_procedure_cache)
   {
     auto& ws = procedure->GetWorkspace();
+    if (!ws.IsSuccessfullySetup())
+    {
+      // Only instructions were taken from this procedure: its workspace is not in use.
+      continue;
+    }
     ws.Teardown();
     ws.Setup();
   }
-- 
2.43.0

