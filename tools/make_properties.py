#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
L = "src/lib/sup/oac-tree/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": [L + f if not f.startswith(("src/", "test/", "doc")) else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


p("J01", "Job commands are queued without loss, duplication or reordering",
  "Commands pushed from any number of threads are delivered exactly once, in push order, except that a priority push goes to the front when it outranks the first pending command (start < step < pause < reset < halt < terminate) or nothing is pending, and is otherwise refused. The action passed with a priority push runs exactly once if and only if the command was accepted, and before any consumer can receive that command. A consumer blocked waiting for a command always wakes when a command is available to it.",
  ["schedules", "histories"], "all interleavings of concurrent pushes, priority pushes, pops, waits and size queries, and all sequential operation histories up to a depth",
  "The tests run one thread through a handful of pushes and pops; lost wake-ups, double deliveries and ordering under contention depend on the schedule.",
  ["job_command_queue.h", "runner/job_command_queue.cpp", "runner/job_commands.cpp"],
  [("mutex + condition variable around a deque", L + "runner/job_command_queue.cpp"), ("command priority order", L + "runner/job_commands.cpp")],
  ["return values of push/priority push/try-pop/wait/size", "side effects of the priority action"])

p("J02", "Job commands move a job only along the documented state machine",
  "For every history of start, step, pause, halt and reset commands, a job reports exactly the states the job state machine allows: initial and paused jobs start or step, only a running job pauses, halt ends every unfinished job as halted, only a finished job resets to initial, and commands that are not allowed in a state are ignored. A finished job ends as succeeded or failed according to its procedure, and instructions execute only between a start/step and the following pause/halt/finish.",
  ["histories", "programs"], "all command histories up to a depth over procedures that succeed, fail, need several ticks or run asynchronously, each command issued when the previous one has taken effect",
  "The tests follow a few fixed command scripts with real-time waits; the state machine has many more paths.",
  ["runner/async_runner.cpp", "runner/runner.cpp", "runner/job_states.cpp", "runner/local_job.cpp"],
  [("per-state command handlers", L + "runner/async_runner.cpp HandleInitial/HandleRunning/HandlePaused/HandleFinished"), ("tick loop", L + "runner/runner.cpp ExecuteProcedure")],
  ["job state notifications", "instruction execution counts"])

p("J03", "Job control never deadlocks, races or crashes, whatever the timing",
  "Whatever the timing of start, step, pause, halt, reset and breakpoint commands relative to the execution, every accepted command takes effect, the job reaches the state it must end in, and waiting for it returns. Destroying a job in any state, at any moment, stops its execution and returns, without deadlock, unsynchronised access, use of destroyed objects or escaping exceptions. Halting a running job always ends its execution.",
  ["schedules", "programs", "histories"], "all interleavings within a preemption bound of a controlling thread, the job's own thread and the threads of asynchronous instructions, for small procedures",
  "Unit tests see one schedule per run, with sleeps that hide races and shutdown-order errors.",
  ["runner/async_runner.cpp", "runner/local_job.cpp", "runner/runner.cpp", "runner/job_interface_adapter.cpp", "procedure/procedure.cpp", "instructions/async_wrapper.cpp"],
  [("command queue + terminate on destruction", L + "runner/async_runner.cpp"), ("halt flags", L + "runner/runner.cpp, " + L + "instructions/instruction.cpp"), ("member destruction order", L + "runner/local_job.cpp")],
  ["job state notifications", "termination of the destructor"])

p("J04", "Breakpoints stop a run before the marked instruction, exactly once per pass",
  "During continuous execution a job pauses exactly before an instruction carrying a breakpoint would execute, without executing it, and resuming executes it and continues to the next breakpoint; each time the instruction becomes next again, including after a reset or in a repeated run, it stops there again. Breakpoints never change the outcome or the order of execution, removing one makes execution pass, and stepping ignores them. A breakpoint object refers to the instruction it was made for, starts set, and reports the status last given to it.",
  ["programs", "histories", "configurations"], "all placements of breakpoints on small procedures and all histories of run, step, set/remove breakpoint, halt and reset up to a depth",
  "Tests place one or two breakpoints on fixed procedures and never combine them with halt, reset or removal in all orders.",
  ["runner/breakpoint_manager.cpp", "runner/breakpoint.cpp", "runner/runner.cpp", "instructions/instruction_tree.cpp", "breakpoint.h"],
  [("set/released status per breakpoint", L + "runner/breakpoint_manager.cpp"), ("check before each tick", L + "runner/runner.cpp ExecuteProcedure")],
  ["executed instruction sequence", "paused instruction list", "breakpoint status"])

p("J05", "Job observers see every state, status, variable and breakpoint change in order",
  "An observer of a job is told the number of instructions before any instruction's state, and every job state, instruction status, breakpoint and variable change exactly once, in the order in which the job made them, with the index that job information assigns to that instruction or variable. After any history, the last notification for each item equals its actual current value, and instruction notifications carry status and breakpoint flag together without one overwriting the other. Next-instruction notifications list exactly the instructions the following tick will execute.",
  ["schedules", "histories", "programs"], "all command and breakpoint histories up to a depth and all interleavings of a controlling thread with the executing job",
  "Tests use mocks with a few expected calls; they do not compare the accumulated view with the true state after arbitrary interleavings.",
  ["runner/job_interface_adapter.cpp", "runner/job_map.cpp", "runner/instruction_map.cpp", "runner/variable_map.cpp", "runner/async_runner.cpp"],
  [("index maps", L + "runner/job_map.cpp"), ("cached instruction states", L + "runner/job_interface_adapter.cpp")],
  ["the job information interface"])

p("J06", "Waiting for a job state returns as soon as the state is reported",
  "A thread waiting for a job to finish, or to reach a given state within a time limit, returns when that state is reported, whichever thread reports it and however many threads wait, and never before. A timed wait returns false only when the state was not current at any moment of its evaluation until the limit expired. The finished states are exactly succeeded, failed and halted.",
  ["schedules", "histories"], "all interleavings of one reporter and up to two waiters over state sequences up to a length, including timer expiry",
  "The tests have one waiter and rely on real delays.",
  ["base/application_utils.cpp", "application_utils.h", "runner/job_states.cpp"],
  [("state + condition variable", L + "base/application_utils.cpp SimpleJobStateMonitor"), ("finished-state predicate", L + "runner/job_states.cpp")],
  ["return values and termination of the waits"])

p("T01", "Sequential tree instructions combine child results as documented",
  "For every tree of sequence, fallback, inverter, force-success, repeat and include-free leaves, executing it tick by tick visits exactly the leaves, in exactly the order and number of times, that behaviour-tree semantics prescribe: a sequence stops at its first failure, a fallback at its first success, the inverter swaps the result, force-success hides failure, repeat runs its body the given number of times. Trees in which a required child is missing are rejected at setup. One tick executes at most one leaf step and the final status is the prescribed one.",
  ["programs"], "all trees up to a size over these instructions with leaves that succeed or fail after one or more ticks",
  "The tests check hand-picked trees of one or two levels.",
  ["instructions/sequence.cpp", "instructions/fallback.cpp", "instructions/inverter.cpp", "instructions/force_success.cpp", "instructions/repeat.cpp", "instructions/compound_instruction.cpp", "instructions/decorator_instruction.cpp", "instructions/fail.cpp", "instructions/succeed.cpp"],
  [("execute/calculate-status pairs", L + "instructions/*.cpp")], ["leaf execution log", "status after every tick"])

p("T02", "Parallel succeeds and fails at its thresholds and stops its other branches",
  "A parallel instruction starts all its branches, succeeds as soon as its success threshold of branches has succeeded, fails as soon as its failure threshold has failed, and keeps running otherwise; the thresholds default to all branches and one branch, larger values count as all branches, and when one threshold makes the other unreachable the other is lowered so that the sum never exceeds the number of branches plus one (the success threshold prevails when both are given). When it ends, every branch still executing is halted and no branch executes afterwards. This holds for every order in which branches finish.",
  ["schedules", "programs", "configurations"], "all combinations of 1-3 branches with every leaf outcome and threshold pair, under all interleavings within a preemption bound",
  "Tests fix branch timing with sleeps and try few thresholds.",
  ["instructions/parallel_sequence.cpp", "instructions/async_wrapper.cpp"],
  [("thresholds", L + "instructions/parallel_sequence.cpp"), ("asynchronous child wrapper", L + "instructions/async_wrapper.cpp")],
  ["status after every tick", "leaf execution log"])

p("T03", "Reactive instructions re-evaluate conditions on every tick",
  "A reactive sequence or fallback re-evaluates its earlier children from the start whenever a later asynchronous child is still running, and stops that child as soon as an earlier child changes the outcome; it ends with the result its children determine. Each evaluation starts the earlier children afresh.",
  ["programs", "schedules"], "all child lists up to a length with per-tick result scripts, including asynchronous children under all interleavings within a bound",
  "Tests cover a few fixed scripts.",
  ["instructions/reactive_sequence.cpp", "instructions/reactive_fallback.cpp"],
  [("reset of other children while running", L + "instructions/reactive_sequence.cpp, reactive_fallback.cpp")],
  ["child execution log", "status after every tick"])

p("T04", "Asynchronous children report running until their step completes",
  "An instruction wrapped for asynchronous execution reports running from the moment its step is launched until that step has completed, then reports exactly the status the step produced; steps of one child never overlap and none is lost. Resetting, halting or destroying it at any moment first lets the current step finish and leaves nothing executing in the background.",
  ["schedules", "programs"], "all interleavings of ticking, halting, resetting and destroying an asynchronous child that needs one or more steps",
  "Tests poll with sleeps and never reset or destroy at every point of the child's execution.",
  ["instructions/async_wrapper.cpp", "instructions/async.cpp"],
  [("future per step", L + "instructions/async_wrapper.cpp")], ["status after each tick", "child step log"])

p("T05", "Halting reaches every executing instruction and only resets clear it",
  "A halt request given to a tree at any moment reaches every instruction that is executing below it, after which no further leaf starts and waiting instructions stop waiting; the tree ends in failure or stays unfinished without making progress. After a reset the same tree executes again exactly as a fresh one. A halt is never lost, whatever the timing.",
  ["schedules", "programs", "histories"], "all halt instants in the execution of small trees of each kind, and every subsequent reset and re-execution",
  "Tests halt at one moment chosen by a sleep.",
  ["instructions/instruction.cpp", "instructions/compound_instruction.cpp", "instructions/decorator_instruction.cpp", "instructions/wait.cpp", "instructions/listen.cpp", "instructions/wait_for_variable.cpp", "instructions/user_choice.cpp", "instructions/input.cpp"],
  [("halt request flag and recursive halt", L + "instructions/instruction.cpp")], ["leaf execution log after halt", "status after reset and re-run"])

p("T06", "Instruction status follows the execution protocol and is always notified",
  "An instruction starts as not started, becomes not-finished when its execution begins, ends in success or failure exactly once, is never executed again after finishing until reset, and returns to not started on reset. Every change of status, and nothing else, is notified to the user interface once, in order, with the instruction already showing the new status; a failing initialisation is notified as failure.",
  ["programs", "histories"], "all small trees and leaf scripts, all histories of execute, halt and reset up to a depth",
  "Tests assert a few notification counts.",
  ["instructions/instruction.cpp", "procedure/procedure.cpp"],
  [("non-virtual execute/reset with hooks", L + "instructions/instruction.cpp")], ["instruction status notifications"])

p("T07", "Predicted next instructions are exactly those the next tick executes",
  "Between ticks, as long as a procedure is not running asynchronously and not finished, its reported next instructions form a tree from the root to leaves such that the next tick executes exactly the predicted leaves that are ready to execute, and nothing outside the predicted tree changes status by executing; otherwise none are reported. The prediction has no effect on execution. Flattened and filtered views of instruction trees list every instruction once, parents before children.",
  ["programs", "histories"], "all trees up to a size over all control-flow instructions and leaf scripts, at every tick",
  "Tests check predictions at selected ticks of selected procedures.",
  ["instructions/instruction_tree.cpp", "instruction_tree.h", "instructions/instruction.cpp", "instructions/choice.cpp", "instructions/for.cpp", "instructions/reactive_sequence.cpp"],
  [("next instruction sets per instruction", L + "instructions/*.cpp"), ("tree construction", L + "instructions/instruction_tree.cpp")], ["predicted leaves versus executed leaves"])

p("T08", "Choice, for and repeat execute the selected children the right number of times",
  "Choice executes exactly the children named by its index or index list, in list order and once for every time they appear, stops at the first failure and fails on an invalid index; for assigns each element in turn to its element variable and executes its body once with it; repeat executes its body the given number of times, indefinitely when negative, and stops at the first failure. Selections and element lists are read when the instruction starts, and re-execution after reset reads them anew.",
  ["programs", "inputs"], "all index lists, element counts, repeat counts and child outcome combinations up to a bound",
  "Tests try a few lists and counts.",
  ["instructions/choice.cpp", "instructions/for.cpp", "instructions/repeat.cpp"],
  [("index list parsing", L + "instructions/choice.cpp"), ("loop counters", L + "instructions/for.cpp, repeat.cpp")], ["leaf execution log", "variable values"])

p("T09", "Waiting instructions finish at the right moment",
  "A wait ends after its timeout has passed, not before and with at most its polling accuracy of delay, and a waiting-for-variable instruction succeeds as soon as its condition holds, fails when its timeout expires first, and ends with at most a bounded delay after either, for every timeout and every order of variable updates and ticks. A zero timeout decides immediately. Halting ends the wait early. In a running job the tick timeout of its procedure passes after each tick that leaves the tree running, and no time after any other tick or step.",
  ["inputs", "schedules", "histories"], "all timeout classes, update sequences and interleavings with timers in virtual time, up to a bound",
  "Real-time tests only check coarse lower bounds.",
  ["instructions/wait.cpp", "instructions/wait_for_variable.cpp", "instructions/wait_for_variables.cpp", "runner/runner.cpp"],
  [("deadline computation", L + "instructions/wait.cpp"), ("condition variable notified by workspace callbacks", L + "instructions/wait_for_variable.cpp")],
  ["status and virtual time when finishing"])

p("T10", "A listening instruction reacts to every change of its variables",
  "While a listen instruction is being ticked, each change of the value of one of its listed variables makes it execute its child completely, at least once, starting after that change and with that or a newer value in the workspace, however the change falls between its own steps; only values replaced before the next look may be skipped. Without such a change (other variables written, the same value written again) the child is not executed; the values found at the start count as changed. It ends with failure exactly when the child fails, or goes on if told to force success, and a halt ends it.",
  ["schedules", "histories"], "all interleavings of writers and halts with the listening thread and all histories of writes, ticks, halts and resets, within bounds",
  "Tests cannot place an update between every two steps of the listener.",
  ["instructions/listen.cpp"],
  [("change detection over the listed variables", L + "instructions/listen.cpp")], ["child execution log with observed values"])

p("T11", "Included procedures behave as if written in place, in isolation",
  "Including a named instruction tree or procedure executes a faithful copy of it with its placeholders substituted, any number of times, without executing, changing or sharing state with the original; unknown names, missing placeholders and self-inclusion are rejected at setup. Values are copied into and out of an included procedure exactly as requested.",
  ["programs"], "all small combinations of include targets, nesting, substitutions and copies",
  "Tests cover single inclusions of fixed files.",
  ["instructions/include.cpp", "instructions/include_procedure.cpp", "instructions/copy_to_procedure.cpp", "instructions/copy_from_procedure.cpp", "instructions/instruction_helper.cpp", "instructions/instruction_utils.cpp", "procedure/procedure_store.cpp", "procedure/procedure_context.cpp"],
  [("clone + attribute substitution", L + "instructions/instruction_helper.cpp")], ["leaf execution log", "variable values"])

p("V01", "Variable values read back what was written, field by field",
  "Reading a workspace variable or field returns the last value successfully written to it, converted to the variable's type; a write that is refused (unknown name or field, incompatible type, not set up) leaves every value unchanged and reports failure. Writing a field leaves all other fields unchanged, and a variable with dynamic type takes the type of what is written.",
  ["histories", "inputs"], "all write/read histories up to a depth over a small set of variables, fields, types and values",
  "Tests use single writes and fixed values.",
  ["variables/variable.cpp", "variables/local_variable.cpp", "variables/file_variable.cpp", "procedure/workspace.cpp", "base/anyvalue_utils.cpp"],
  [("field-wise get and set", L + "procedure/workspace.cpp, " + L + "variables/variable.cpp")], ["return values and values read"])

p("V02", "Variable instructions compute the documented result",
  "Copy, add-element, add-member, increment, decrement, reset-variable, variable-exists and the comparison instructions succeed exactly when their operands exist and have suitable types, leave the variables with exactly the documented values, change nothing when they fail, and comparisons succeed exactly when the relation holds.",
  ["inputs", "programs"], "all operand pairs from a pool of variables, fields, types and boundary values, and missing operands",
  "Tests check a few operand combinations.",
  ["instructions/copy.cpp", "instructions/add_element.cpp", "instructions/add_member.cpp", "instructions/increment.cpp", "instructions/decrement.cpp", "instructions/condition.cpp", "instructions/equals.cpp", "instructions/lessthan.cpp", "instructions/lessthanorequal.cpp", "instructions/greaterthan.cpp", "instructions/greaterthanorequal.cpp", "instructions/reset_variable.cpp", "instructions/var_exists.cpp"],
  [("instruction bodies", L + "instructions/*.cpp")], ["status and all variable values after execution"])

p("V03", "Every variable change is notified to exactly the registered listeners",
  "Each successful change of a variable is reported once to every listener registered for it or for all variables at that moment, with the variable's name, its new value and connection state, in the order of changes; failed writes and other variables cause no report. A listener that unregistered or whose guard is gone is never called again, also when registration is done before setup or repeated.",
  ["histories", "schedules"], "all histories of registering, unregistering, writing, setup and teardown up to a depth",
  "Tests check one listener and one write at a time.",
  ["procedure/workspace.cpp", "variables/variable.cpp", "named_callback_manager.h"],
  [("callback manager", L + "named_callback_manager.h"), ("variable notify callback", L + "variables/variable.cpp")], ["listener call log"])

p("V04", "Concurrent variable access is atomic and no waiter misses a value",
  "Concurrent reads and writes of workspace variables from several threads behave as if performed one at a time, without unsynchronised access; a reader never sees a mixture of two writes. A thread waiting for a variable to reach a value or to become available returns once that happens within its time limit, without waiting out the limit, and never succeeds otherwise.",
  ["schedules"], "all interleavings within a preemption bound of two or three threads reading, writing, registering and waiting",
  "Race windows are a few instructions wide; tests run one schedule.",
  ["variables/variable.cpp", "procedure/workspace.cpp"],
  [("mutex per variable", L + "variables/variable.cpp"), ("wait with callback", L + "procedure/workspace.cpp WaitForVariable")], ["return values", "virtual time of return"])

p("V05", "Setup and teardown run in the documented order, once, and are repeatable",
  "Setting up a workspace or procedure prepares every variable and instruction before use, runs each identified setup action once however many variables request it, and reports invalid definitions (missing or duplicate names, bad attributes) by an exception; accessing variables outside setup fails cleanly. Teardown undoes setup and runs each registered teardown action exactly once, and setup, teardown and reset can be repeated with the same results.",
  ["histories", "configurations"], "all histories of setup, teardown, reset, write and execute up to a depth over small procedures, with failing parts",
  "Tests set up once.",
  ["procedure/workspace.cpp", "procedure/procedure.cpp", "variables/variable.cpp", "setup_teardown_actions.h"],
  [("setup/teardown of workspace and instructions", L + "procedure/workspace.cpp, " + L + "procedure/procedure.cpp")], ["exceptions, values, action log"])

p("V06", "Callback registration is exact, ordered and thread-safe",
  "Executing the callbacks of a name calls every generic callback (with that name) and every callback registered for exactly that name, each once with the given arguments, in registration order with generic ones first, and nothing else. Unregistering a listener, directly or through its guard, removes all and only its callbacks and reports whether it had any; empty callbacks are refused, and a guard without listener removes nothing. After unregistering returns, none of its callbacks is running or starts, whatever other threads do.",
  ["histories", "schedules"], "all histories of registrations, unregistrations, guards and executions up to a depth, and all interleavings of two or three threads doing so",
  "Tests use one thread and two or three callbacks.",
  ["named_callback_manager.h", "scope_guard.h"],
  [("mutex held during execution and (un)registration", L + "named_callback_manager.h")], ["callback log", "return values"])

p("U01", "Every user input request gets its own reply or is cancelled, never mixed up",
  "Requests for user input made from any number of threads are presented one at a time, in the order they were made by a thread, and each requester receives exactly the reply given to its own request, also when the user refuses it. Waiting for a reply returns as soon as it is available, cancelling the request being handled interrupts the user interface, and cancelling or abandoning a request never affects another one. Shutting down with requests outstanding returns without deadlock or use of destroyed objects.",
  ["schedules", "histories"], "all interleavings of up to three requesters, cancellations and shutdown with a handler that replies, blocks until interrupted or fails",
  "Tests run one schedule and rarely cancel while a request is being handled.",
  ["base/async_input_adapter.cpp", "async_input_adapter.h", "base/i_user_input_future.cpp", "runner/job_interface_adapter.cpp"],
  [("request queue, reply map and two condition variables", L + "base/async_input_adapter.cpp")], ["replies, validity and readiness of the futures", "handler and interrupt call log"])

p("U02", "User interaction instructions act exactly on the user's answer",
  "Input stores the user's value in its variable and succeeds only when the user supplied a suitable one; user choice executes exactly the chosen child and fails on an invalid choice; user confirmation succeeds or fails as answered; message, log and output pass the given text, severity or value on. A halt at any moment ends a pending interaction without storing, executing or leaking anything.",
  ["inputs", "programs", "schedules"], "all answers from a pool of valid, invalid and missing replies, for every such instruction, and all halt instants",
  "Tests use scripted valid answers.",
  ["instructions/input.cpp", "instructions/user_choice.cpp", "instructions/user_confirmation.cpp", "instructions/message.cpp", "instructions/log_instruction.cpp", "instructions/output.cpp", "runner/user_interface.cpp"],
  [("future polling", L + "instructions/input.cpp, user_choice.cpp, user_confirmation.cpp")], ["status, variable values, user interface calls"])

p("U03", "User requests, replies and typed input are encoded and decoded faithfully",
  "A request or reply created for a value, choice or confirmation is parsed back to exactly the same content, and anything of another kind or with missing or malformed content is rejected without being misread. Text typed on the command line is converted to a scalar of the requested type exactly when it denotes a value of that type in range, and choices are accepted exactly when they name an offered option.",
  ["inputs"], "all combinations of request kinds, values and options from a pool, all single-field corruptions, and all short input texts over an alphabet for each scalar type",
  "Tests check a few valid encodings.",
  ["base/user_input_request.cpp", "base/user_input_reply.cpp", "src/app/oac-tree-cli/cl_interface.cpp"],
  [("encode/parse pairs", L + "base/user_input_request.cpp, user_input_reply.cpp")], ["parse results"])

p("C01", "The two programs do and report exactly what their procedure says",
  "Given a procedure file, the command line program and the daemon execute it once and end, whatever the schedule, however long it takes; everything the procedure says is reported each time it says it, exactly once and in order: on the terminal, messages and output values always and log entries, instruction statuses and variable updates from the chosen severity on; in the system log, everything at its severity. The final state is reported last. Validation only, an unsuitable command line, or a file that cannot be loaded or set up execute nothing; the latter is reported as an error with a non-zero exit code.",
  ["inputs", "programs", "schedules"], "all short sequences of reporting steps at all log levels, all short command lines, a pool of defective files, and all interleavings of the main, job and input threads",
  "The main functions are not tested at all.",
  ["src/app/oac-tree-cli/main.cpp", "src/app/oac-tree-cli/cl_interface.cpp", "src/app/oac-tree-daemon/main.cpp", "src/app/oac-tree-daemon/daemon_interface.cpp", "base/application_utils.cpp", "base/log_severity.cpp"],
  [("main functions", "src/app/oac-tree-cli/main.cpp, src/app/oac-tree-daemon/main.cpp"), ("state monitor", L + "base/application_utils.cpp")], ["terminal output, system log and exit code"])

p("A01", "Instruction and variable attributes are validated exactly as declared",
  "Setup accepts a set of attributes exactly when every mandatory attribute is present, every literal value can be converted to its declared type, and every declared constraint (combinations by and, or, exclusive or, negation, presence, type of a literal) holds; otherwise it fails with an exception and nothing executes. Attribute values may be given literally or, where allowed, as references resolved from the workspace at execution, and both give the same value; unknown variables and wrong types make the instruction fail.",
  ["inputs", "configurations"], "all attribute definitions, constraint trees up to a depth and attribute assignments over a small alphabet",
  "Tests check a few definitions per constraint.",
  ["attributes/attribute_definition.cpp", "attributes/attribute_handler.cpp", "attributes/attribute_utils.cpp", "attributes/attribute_validator.cpp", "attributes/concrete_constraints.cpp", "attributes/constraint.cpp", "instructions/instruction.cpp", "attributes/attribute_properties.cpp", "base/generic_utils.cpp"],
  [("validator", L + "attributes/attribute_validator.cpp"), ("constraint evaluation", L + "attributes/concrete_constraints.cpp")], ["exceptions at setup", "attribute values at execution"])

p("P01", "A procedure written to XML and read back is the same procedure",
  "Serialising a procedure and parsing the result yields a procedure with the same attributes, preamble, workspace variables, instruction trees, names and attribute values, and the same execution behaviour, also when done repeatedly. Documents that are not well-formed or have another root, unknown instruction or variable types, children where none are allowed, unnamed or duplicate variables, invalid preamble elements or missing plugins are rejected with an exception and never crash or are silently altered.",
  ["inputs", "programs"], "all small procedures over an alphabet of instructions, variables and attribute texts with special characters, and all single-element corruptions of small documents",
  "Tests parse fixed files.",
  ["parser/procedure_parser.cpp", "parser/instruction_parser.cpp", "parser/variable_parser.cpp", "parser/procedure_to_treedata_utils.cpp", "parser/sequence_parser.cpp"],
  [("tree data conversion both ways", L + "parser/*.cpp")], ["round-tripped documents", "exceptions"])

p("P02", "Procedures and instruction trees are exactly what was assembled",
  "Building a procedure by hand, through any history of insertions, removals and additions of instructions, attributes and variables, gives exactly the assembled structure: children and top-level instructions at their positions, the single or first root-marked instruction as root, attributes and variables in the order of their addition under unique names. Operations that are not possible (positions out of range, children of leaf instructions, duplicate names, empty instructions) are refused and change nothing; each instruction has exactly one owner and is destroyed exactly once. Views of the structure (instruction trees, leaves, typed attribute values) agree with it.",
  ["histories", "programs"], "all histories of assembling operations up to a depth, from several starting structures",
  "Tests build a handful of fixed procedures.",
  ["procedure.h", "procedure/procedure.cpp", "procedure/workspace.cpp", "instructions/instruction.cpp", "instructions/compound_instruction.cpp", "instructions/decorator_instruction.cpp", "instructions/instruction_tree.cpp", "attributes/attribute_handler.cpp"],
  [("vectors of owned instructions", L + "procedure/procedure.cpp, " + L + "instructions/compound_instruction.cpp"), ("attribute list", L + "attributes/attribute_handler.cpp"), ("variable map and order", L + "procedure/workspace.cpp")], ["listed instructions, attributes and variables", "number of living instructions"])

p("P03", "Plugins are loaded completely and before anything that needs them",
  "Every plugin that a procedure names is loaded when its document is read, in the order of the document and wherever in it the plugin stands, before any of the document's instructions or variables is created, so that they may be of kinds that the plugins provide; it stays loaded. A plugin that cannot be loaded makes reading fail, with nothing created. The same holds for procedures that are included from other files, and for documents written from a procedure.",
  ["inputs", "programs"], "all documents of up to five elements over available and missing plugins and the instructions and variables that need them, alone and included from another file",
  "Tests load one system library.",
  ["parser/procedure_parser.cpp", "parser/sequence_parser.cpp", "base/generic_utils.cpp", "procedure/procedure_store.cpp", "parser/procedure_to_treedata_utils.cpp"],
  [("preamble first, then variables and instructions", L + "parser/procedure_parser.cpp")], ["calls of the dynamic loader", "created objects, exceptions"])

p("I01", "Job information describes the procedure exactly and survives encoding",
  "Job information lists every instruction and variable of a procedure once, with its type, category, attributes and position, numbered consistently so that indices map one-to-one to instructions and variables; converting it to a data value and back gives equal information. Values that do not describe valid information (missing fields, wrong types, unknown categories or statuses, duplicate, missing or out-of-range indices) are rejected with an exception.",
  ["inputs", "programs"], "all small procedures and all single corruptions of their encoded information",
  "Tests round-trip a few procedures.",
  ["runner/job_info.cpp", "runner/job_info_utils.cpp", "runner/instruction_info.cpp", "runner/instruction_info_utils.cpp", "runner/workspace_info.cpp", "runner/variable_info.cpp", "runner/attribute_info.cpp", "runner/instruction_map.cpp", "runner/variable_map.cpp", "runner/instruction_state.cpp", "runner/variable_utils.cpp"],
  [("index assignment and encoders", L + "runner/*_info*.cpp")], ["encoded values", "exceptions"])

p("B01", "A scope guard runs its action exactly once, when its scope ends",
  "The action given to a scope guard runs exactly once, when the last guard holding it is destroyed or overwritten, however often it was moved or swapped; moved-from and empty guards run nothing and report themselves invalid, and a guard holding an action reports itself valid. Each action stays with the guard it was moved or swapped into.",
  ["histories"], "all histories of construction, move construction, move assignment (including to itself), swap and destruction over three guards up to a depth",
  "Tests do one move and one swap.",
  ["scope_guard.h", "base/scope_guard.cpp"],
  [("owned function cleared on move", L + "base/scope_guard.cpp")], ["number and moment of action calls"])

p("B02", "Statuses, job states, severities and errors are classified consistently",
  "Every status, job state and log severity has its own distinct documented text, severity texts convert back to the same severity and any other text to the invalid one, and out-of-range values give the documented unknown text. The status predicates partition the statuses consistently: finished means success or failure, needs-execute is its complement, ready means not started or not finished, executing means not finished or running; finished job states are succeeded, failed and halted. Exceptions keep their message and type through copying and rethrowing.",
  ["inputs"], "all enumeration values including out-of-range ones, all texts within edit distance one of a valid text, and all exception types",
  "Tests check some of the values; the predicates are checked nowhere for every value.",
  ["procedure/execution_status.cpp", "runner/job_states.cpp", "base/log_severity.cpp", "base/exceptions.cpp", "runner/job_commands.cpp"],
  [("conversion tables and predicates", L + "procedure/execution_status.cpp, runner/job_states.cpp, base/log_severity.cpp")], ["return values"])

p("B03", "Procedure preambles keep their registrations completely and in order",
  "A procedure's preamble returns exactly the type registrations and plugin paths added to it, in the order they were added, duplicates included, each with its mode and text unchanged, and copies are independent. Types named by a preamble are registered before the procedure's variables need them, relative to the procedure's own location.",
  ["histories"], "all histories of additions, copies and reads up to a depth",
  "Tests add one or two entries.",
  ["procedure/procedure_preamble.cpp", "procedure_preamble.h", "procedure/procedure.cpp"],
  [("ordered lists", L + "procedure/procedure_preamble.cpp")], ["returned lists"])

p("B04", "Registries create exactly the registered kinds, under concurrent use too",
  "An instruction or variable registry creates an object of exactly the registered type under its name, reports all and only the registered names, and refuses unknown names and second registrations of a name, which change nothing. Every built-in instruction and variable type is available from the global registries, whichever thread asks first.",
  ["histories", "schedules"], "all registration histories up to a depth and all interleavings of first uses",
  "Tests register one type once.",
  ["instruction_registry.h", "instructions/instruction_registry.cpp", "variable_registry.h", "variables/variable_registry.cpp"],
  [("name to constructor map", L + "instructions/instruction_registry.cpp")], ["created objects, names, exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
