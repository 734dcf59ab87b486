#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  Run by hand when a property or a check is added."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, T = "toffee/asynchronous.py", "toffee/triggers.py"
BA, AG, EX = "toffee/_base_agent.py", "toffee/agent.py", "toffee/executor.py"
EN, MO, CM, BU = "toffee/env.py", "toffee/model.py", "toffee/_compare.py", "toffee/bundle.py"
FC, DE, LO, DB = "toffee/funcov.py", "toffee/delay.py", "toffee/logger.py", "toffee/debug.py"
GEN = "scripts/bundle_code_gen.py"
IGEN = "scripts/bundle_code_intel_gen.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, obs, technique, note):
    P.append(
        dict(
            rec=dict(
                id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(
                    files=files,
                    mechanism=[dict(name=n, where=w) for n, w in mech],
                    observe_at=obs, hook_needed=None,
                ),
            ),
            technique=technique, note=note,
        )
    )


BOUND = "No violation in the executions of this run (counts in the evidence); says nothing about executions that were not generated. "
FAKE = "Trusted: the stand-in DUT (vf/dut.py) has the surface and immediate-write behaviour of a picker DUT, and CPython's asyncio."

prop("C01", "Work of a cycle settles before the next clock edge",
     "Whenever the design is clocked, every task, driver, hook or callback that was able to run in that cycle, directly or through any chain of events, queues, joins, cancellations, spawned tasks, hooks and ports, has run to its next wait for the clock. No wake-up that was caused in a cycle is left to a later cycle, and none is lost or delivered twice.",
     ["schedules", "programs"], "all programs of tasks synchronised by events, queues, joins, spawns, hooks and ports, in all wake-up orders",
     "The tests have a handful of tasks with chains of one or two wake-ups; the guarantee is about arbitrarily long chains in a cycle.",
     [A, EX, BA], [("settling loop before each step", A + ": execute_all_coros, __other_tasks_done, __has_unwait_task"), ("wake-up flag of events, queues and sleeps", A + ": Event, Queue, sleep, task_run"), ("priority tasks with rerun", EX + ": __execute_priority_tasks")],
     ["DUT.Step calls", "task positions recorded by the generated programs"],
     "runtime monitor of quiescence at every clock edge over generated task DAGs",
     BOUND + "An oracle computes the cycle in which each node of the generated DAG has to run; a watched event loop detects hangs by logical progress. " + FAKE)
prop("C02", "Every clock edge is delivered exactly once to whoever waits for it",
     "A task that waits for n clock edges, through the design, a pin or any kind of bundle, resumes after exactly n edges of the clock of its design, in the cycle of the last of them, and a wait for no edge does not block. The design is clocked one edge at a time and every waiting task sees every edge; several designs that are clocked in one test advance together.",
     ["schedules", "inputs"], "all numbers and interleavings of waiting tasks, numbers of edges and ways of referring to the clock",
     "Tests wait for a few edges of a DUT in one task.",
     [A, T, BU], [("clock loop", A + ": __clock_loop"), ("waits", T + ": ClockCycles; " + BU + ": Bundle.step")],
     ["DUT.Step arguments and counts", "cycle at which each wait returns"],
     "online monitor of edge delivery over generated waiting tasks", BOUND + FAKE)
prop("C03", "Triggers fire in exactly the first cycle that satisfies them",
     "A wait for a value, valid signals, a condition, a change, a rising or a falling edge returns in the first clock cycle in which the condition holds, looking once per cycle from the cycle it has to start in, and not before. It does not return while the condition has not held.",
     ["inputs", "schedules"], "all waveforms, start cycles, delays and trigger kinds",
     "No test uses the triggers other than waiting for clock cycles.",
     [T], [("trigger loops", T + ": Value, AllValid, Condition, Change, RisingEdge, FallingEdge")],
     ["cycle at which the wait returns", "waveform recorded at the DUT"],
     "trace-specification oracle over recorded waveforms", BOUND + FAKE)
prop("C04", "A run executes its test completely, returns its result and cleans up",
     "Running a test (as a coroutine, a function or with an environment factory) executes it to its end, returns exactly its result or raises its exception, and the environment factory runs before it. After the test has returned the design sees only the wind-down of the clock, everything that was due in the last cycle is carried out, and background tasks that are left are cancelled, clean up, and do not survive the run.",
     ["programs", "inputs"], "all forms of tests, results, exceptions, lengths and background tasks",
     "Tests only exercise tests that end normally, and never look at what is left of a run.",
     [A], [("entry point", A + ": run, main_coro"), ("wind-down", A + ": execute_all_coros, cancel_all_tasks")],
     ["return value of run", "DUT.Step counts", "tasks left in the loop"],
     "lifecycle monitor over generated runs", BOUND + "The wind-down is allowed one closing and one further edge, as on the original tree. " + FAKE)
prop("C05", "A failure anywhere in a testbench fails the run",
     "An exception or failed assertion raised in a test, driver, hook, monitor, background task, model main loop or executed group, and a mismatch between design and model, makes the run end with an error in the cycle it happens or when it is waited for. It is never silently dropped, and the run does not hang; a run without failure does not report one.",
     ["fault_sequences", "crash_points"], "every place a failure can be raised in, at every cycle",
     "Tests contain passing testbenches, apart from one comparison failure.",
     [A, BA, CM, EX], [("exception handler", A + ": handle_exception"), ("monitor task result", BA + ": Monitor"), ("comparison", CM + ": compare_once"), ("groups", EX + ": Executor")],
     ["exception out of run", "error records of the log"],
     "fault injection at 26 kinds of places, with a liveness monitor", BOUND + FAKE)
prop("C06", "Runs in one process do not influence each other",
     "The behaviour of a run (clock edges, hook and driver calls, values delivered, results) does not depend on runs that took place before it in the same process, however those ended. This includes runs that were aborted with calls, hooks or per-call settings pending, and tests that end normally and are followed by others in the same event loop. Testbenches with designs of their own that run in one test do not influence each other either, nor do runs of testbenches in several threads. The design of a test is not touched after the end of the test.",
     ["histories", "crash_points"], "all sequences of runs that end normally, with an exception, or with work pending",
     "Tests run one after the other but never compare a run with the same run in a fresh process, and none is aborted.",
     [A, EX, BA, DE], [("per-loop state of pending hooks, delayers and executor settings", EX + ": __get_priority_tasks; " + DE + ": delayer_list; " + BA)],
     ["event trace of the run"],
     "differential trace monitor: the same run before and after disturbing runs", BOUND + FAKE)
prop("D01", "A driver call reaches every interested model exactly once with its data",
     "Each call of a driver runs the driver once, and each driver hook and agent hook of every attached model that is interested in it exactly once, with exactly the arguments of the call (defaults filled in), under the right name for agent hooks. Nothing that is not interested in it is called.",
     ["programs", "schedules", "inputs"], "all environments, signatures, hook forms, numbers of models, and ways of calling",
     "Tests have one or two models with a few fixed hooks and signatures.",
     [BA, AG, EN, MO], [("fan-out", BA + ": Driver.process_driver_call"), ("argument mapping", BA + ": Driver.__get_args_dict"), ("hook lookup", MO + ": get_driver_hook; " + EN + ": __inject_driver_method")],
     ["calls recorded in drivers, hooks and agent hooks"],
     "exactly-once monitor over generated environments", BOUND + FAKE)
prop("D02", "Model hooks run in the order their scheduling asks for",
     "With the order model first, a hook has finished before the driver body starts; with the order design first it runs after the driver body has ended; both happen without a clock edge in between. An order given with a call to an executor overrides that of the hook, for exactly that call.",
     ["schedules", "programs"], "all mixes of orders and overriding calls, overlapping in time",
     "Tests use single calls with one order at a time.",
     [BA, EX], [("order of the phases", BA + ": Driver.process_driver_call"), ("overrides", EX + ": Executor.__call__")],
     ["start and end of drivers and hooks"],
     "ordering monitor per (call, hook) pair", BOUND + FAKE)
prop("D03", "Hooks that are due in one cycle run in the order of their priorities",
     "Among all hook calls that are due at the same point of a cycle, over all calls, monitors and models, those with a smaller priority number run before those with a larger one; a hook without a priority counts as the last, one of a monitor as the first. A priority given with a call to an executor replaces that of the hooks for exactly that call.",
     ["schedules", "configurations"], "all sets of simultaneous calls and priorities",
     "One test with two hooks; not many calls of several models.",
     [EX, BA], [("priority queue", EX + ": add_priority_task, __execute_priority_tasks"), ("overrides", EX + ": Executor.__call__; " + BA)],
     ["order of hook calls within a cycle"],
     "ordering monitor over all pairs of hook calls of a cycle", BOUND + FAKE)
prop("D04", "Design and model results are compared exactly when there are two",
     "For each call the result of the driver is compared with the result of every hook that returned one, with the design as the first and the model as the second operand, exactly once; hooks that return nothing are not compared. Equal results of any value pass, and any difference is reported as an error that fails the run.",
     ["inputs", "programs"], "all results, including falsy ones and own comparison methods, of all numbers of hooks",
     "Tests compare a few integers.",
     [CM, BA], [("comparison", CM + ": compare_once"), ("collection of results", BA + ": BaseAgent")],
     ["comparisons seen by the results", "log", "exception out of run"],
     "results that record the comparisons they take part in", BOUND + FAKE)
prop("D05", "Model ports hand over calls in order without loss up to their size",
     "A port of a model receives exactly the calls and monitored values of what it names, in the order they happened, with their data, and each reader gets the oldest first. Values are dropped only when the port is full at the moment of delivery; driver, monitor and agent ports keep to their own sizes.",
     ["histories", "schedules"], "all histories of calls and reads on ports of all sizes",
     "Tests read a port right after one or two calls.",
     [MO, BA, EN], [("bounded queue", MO + ": Port.put"), ("delivery", BA + ": __drive_single_model_ports; " + MO + ": get_driver_port, get_monitor_port")],
     ["values read from ports"],
     "bounded FIFO reference model over recorded deliveries", BOUND + FAKE)
prop("M01", "Every monitored value is delivered once, in order, to all its consumers",
     "Each value a monitor returns that is not None, falsy values included, is delivered exactly once and in order to every hook and port that names the monitor, in the cycle it was returned in. A started monitor queue keeps the values in order, and a value is dropped, with an error in the log, only when the queue is full at that moment.",
     ["histories", "inputs"], "all sequences of returned values, consumers, queue sizes, start times and reads",
     "Tests monitor a few counter values.",
     [BA, AG, MO], [("delivery", BA + ": Monitor.process_monitor_call, __monitor_forever"), ("queue", AG + ": start_monitor, monitor_size")],
     ["values received by hooks, ports and queue readers"],
     "conservation and ordering monitor over recorded deliveries", BOUND + "" + FAKE)
prop("M02", "Monitors look at every cycle, before the drivers of that cycle change it",
     "From the start of the run every monitor is active: it runs in each clock cycle, restarts immediately after it returned a value, and observes the signals as they were after the clock edge, before drivers of the same cycle write to them.",
     ["schedules"], "all numbers of agents, drivers, monitors and callers working in the same cycles",
     "Tests have one monitor and one driver.",
     [AG, BA, A], [("monitor task", BA + ": Monitor.__monitor_forever"), ("start of agents", AG + ": Agent.__init__")],
     ["signal values at each monitor activation", "cycles of activations"],
     "per-cycle activity monitor", BOUND + FAKE)
prop("E01", "A hook or port receives exactly what its names select",
     "A hook or port is connected to exactly the drivers or monitors that its documented form of naming selects (full path, agent and method, own name, own name with separators, agent, lists of agents and methods), and to no other with a similar name. The same holds for models attached to several environments of the same classes. An environment lists exactly its agents, and an agent lists exactly its drivers and monitors and finds them by name, whatever other attributes and properties their classes have.",
     ["configurations", "programs"], "all environments, names and forms of naming",
     "Tests use a few names that do not resemble each other.",
     [MO, EN], [("matching", MO + ": get_driver_hook, get_monitor_hook, get_driver_port, get_monitor_port; " + EN + ": __is_agent_hook_contain_method")],
     ["deliveries when each method is used once"],
     "exact delivery matrix by probing every method of generated environments", BOUND + FAKE)
prop("E02", "A model that does not fit an environment is rejected without a trace",
     "Attaching a model succeeds if and only if every agent, driver, monitor and method it names exists in the environment and no method has two of its hooks, or two of its ports, of one kind. A rejected model raises an error and leaves the environment and other models as they were: it receives nothing.",
     ["configurations", "histories"], "all models with one wrong name or one hook too many, attached in any order after and before valid ones",
     "Tests attach a few wrong models, and never use the environment afterwards.",
     [EN, MO], [("check", EN + ": __ensure_model_match; " + MO + ": ensure_all_matched, clear_matched")],
     ["exception of attach", "deliveries afterwards"],
     "fault injection into model names with delivery probes", BOUND + FAKE)
prop("E03", "Models receive calls exactly while they are attached",
     "A model receives the calls and values of an environment from the moment it is attached until it is detached, once each, however often it is attached and detached. Attaching it to another environment moves it there, and detaching a model that is not attached changes nothing.",
     ["histories"], "all sequences of attach and detach of several models and environments",
     "No test detaches a model.",
     [EN], [("attach and unattach", EN + ": attach, unattach, __inject_all, __uninject_all")],
     ["deliveries after each step"],
     "stateful differential monitor with delivery probes", BOUND + FAKE)
prop("E04", "Misuse of the interface is refused where it happens",
     "Hooks and ports whose names contradict each other or are incomplete, priorities outside 0 to 99, unknown scheduling orders, port sizes that are neither positive nor unbounded, lists without room or placeholder, negative delays, executor settings for what is no driver call, unknown exit conditions, models that are no models and coroutines as hooks raise an error at that place, and what is allowed raises none. What was refused does not run and leaves no trace in what goes on.",
     ["inputs", "configurations"], "all combinations of arguments",
     "Tests declare only what is allowed.",
     [MO, EX, BU, EN, DE, BA], [("argument checks", MO + ": agent_hook, driver_hook, monitor_hook, Port; " + EX + ": Executor.__call__, __execute; " + BU + ": SignalList, BundleList")],
     ["whether a declaration raises", "calls that run afterwards", "results and end of executor blocks"],
     "independent predicate over generated declarations; executions that go on after a refusal", BOUND + FAKE)
prop("X01", "Executed groups run in parallel, their members one after the other",
     "On leaving an executor block all groups of calls start in the same cycle and run in parallel, and the members of one group run one after the other in the order they were added, each exactly once. The results hold for each group exactly the results of its members, in order, under the group's name.",
     ["programs", "schedules"], "all numbers, names, groupings and lengths of calls, and concurrent executors",
     "Tests have a few calls with one named group.",
     [EX], [("grouping and execution", EX + ": Executor.__call__, __get_sche_group, __sequential_execution_all, get_results")],
     ["start and end cycle of each call", "results"],
     "timeline oracle over generated executor plans", BOUND + FAKE)
prop("X02", "An executor block ends when its exit condition says, and loses nothing",
     "A block with the condition all ends in the cycle in which the last group ends, with any in the cycle in which the first group ends, with none at once. The groups that are left keep running to their end with the same timing, and waiting for them later gives all their results.",
     ["schedules", "programs"], "all exit conditions and group lengths, including ties and zero-length groups",
     "Tests use each condition once with fixed lengths.",
     [EX], [("exit conditions", EX + ": Executor.__exit_all, __exit_any, __exit_none, wait_all")],
     ["cycle at which the block ends", "completion of all items", "results"],
     "timeline oracle over generated executor plans", BOUND + FAKE)
prop("X03", "Gathered coroutines, queues, events and components keep their promises",
     "Gathering coroutines starts them all in the same cycle, ends in the cycle in which the last of them ends, and returns their results in the order given. Every item put into a queue is taken exactly once, oldest first, without a clock edge passing while a reader waits and an item is there. An event wakes everyone who waits for it, and lets later waiters pass until it is cleared. The main routine of a component runs exactly once, starting with the next clock edge after it was made.",
     ["schedules", "programs", "histories"], "all trees of gathered coroutines, all interleavings of readers, writers, setters and waiters in a cycle, and components made at any time",
     "Tests gather two coroutines and use one queue with one reader.",
     [A], [("gather, Queue, Event, Component", A + ": gather, Queue, Event, sleep, Component.__main_wrapper")],
     ["start and end cycle of what is gathered", "results", "items put and taken", "wake-ups of waiters between clock edges", "cycles of component mains"],
     "timeline oracle for gather and components; offline FIFO and wake-up checker over the event log", BOUND + FAKE)
prop("B01", "Bundle signals are connected exactly as the rules say",
     "After binding, every signal of a bundle at any depth is connected to exactly the design signal that the prefix, regular expression or dictionary rules on its path determine, and to nothing if there is none. Reads and writes go to that signal only, and instances of the same bundle class are independent. It makes no difference what else the class of a bundle has: methods, properties or other attributes.",
     ["configurations", "inputs"], "all trees of bundles, signal lists and bundle lists, rules and designs",
     "Tests bind a few fixed trees.",
     [BU], [("connection rules", BU + ": PrefixBindMethod, RegexBindMethod, DictBindMethod; Bundle.bind, __bind_from_signal_list")],
     ["identity of the connected pins", "writes that arrive at the DUT"],
     "independent rule interpreter against the real binding, on generated trees and designs", BOUND + FAKE)
prop("B02", "Binding again replaces the previous connection completely",
     "A bundle that is bound again, to the same or another design or with another rule, is connected exactly as a fresh bundle would be, at every level. Nothing of it reads, writes or waits on the design it was bound to before.",
     ["histories", "configurations"], "all sequences of binds with designs in which other signals are present",
     "One test binds twice to designs with the same signals.",
     [BU], [("release and rebind", BU + ": Bundle.bind, __unbind_all")],
     ["identity of the connected pins", "steps and writes at both designs"],
     "differential monitor against a fresh bundle", BOUND + FAKE)
prop("B03", "Missing signals are reported by name and are harmless placeholders",
     "Every signal that could not be connected is reported with a warning that names it, and none that was connected. So is every entry of a connection dictionary that names no signal of the bundle. Reading a placeholder gives nothing and writing to it changes no design signal; with access to unconnected signals switched off, using one is an error. The text of a bundle names all its signals, connected or not.",
     ["configurations"], "all trees and designs with any subset of the signals missing",
     "Tests have one or two missing signals.",
     [BU], [("placeholders and warnings", BU + ": UnconnectedSignal classes, __detect_missing_signals, detect_unconnected_signals, detect_multiple_connections")],
     ["log records", "values and writes"],
     "log and access monitor on generated trees with missing signals", BOUND + FAKE)
prop("B04", "Assigning a dictionary writes exactly the named signals",
     "Assigning a nested or flat dictionary writes each named signal its value and all other signals the default if one is given, otherwise leaves them alone; unknown names are reported and change nothing, and a list of a wrong length for a list of signals or bundles is refused. Reading a bundle as a dictionary gives the current value of every signal, assigning that back restores it, and dictionaries passed in are not changed.",
     ["inputs", "configurations"], "all trees, dictionaries and values",
     "Tests assign a few dictionaries to a two-level bundle.",
     [BU], [("assignment", BU + ": Bundle.assign, as_dict, SignalList.assign, BundleList.assign")],
     ["values and writes at the DUT"],
     "write-set prediction and round-trip monitor", BOUND + FAKE)
prop("B05", "Bulk writes and write modes reach all inputs and only inputs",
     "Setting all signals or randomising a bundle writes every connected signal that can be driven and is not excluded, at any depth, with the value or one in the allowed range that fits its width, and leaves outputs alone. A write mode of a bundle or of a part of it reaches every connected signal below, the last one set counts, also when it is set before binding or the bundle is bound again.",
     ["inputs", "configurations"], "all trees, widths, directions, ranges, exclusions and orders of the calls",
     "Tests do not look at outputs, exclusions or the write mode after binding.",
     [BU], [("bulk operations", BU + ": set_all, randomize_all, set_write_mode")],
     ["writes and mode calls at the DUT"],
     "write-set and range monitor", BOUND + FAKE)
prop("B06", "Request sequences are driven one per accepted cycle, in order, none lost",
     "Processing a list of requests drives each request exactly once, in order, on consecutive clock cycles, waiting in each as long as its acceptance condition does not hold, the last one included. The returned data are those sampled in the cycle each request was accepted in, and the caller's data are not changed.",
     ["inputs", "histories", "schedules"], "all lists of requests, conditions and return specifications",
     "No test processes requests.",
     [BU], [("request engine", BU + ": process_requests, ___dut_call_on_rise__, make_requset_response_for")],
     ["writes per cycle at the DUT", "returned data"],
     "cycle-accurate prediction of writes and samples", BOUND + FAKE)
prop("B07", "Connection queries agree with what binding does",
     "Asking whether a design signal could be connected to a bundle, or to a specific signal of it, is answered with yes exactly if binding to a design that has the signal connects it so, and the design signals that no bundle or several bundles are connected to are listed exactly. The reported rules name every signal of the bundle with its own rule, and asking changes nothing.",
     ["configurations", "inputs"], "all trees and names, including near misses",
     "Tests query a few names of one fixed bundle.",
     [BU], [("queries", BU + ": detect_connectivity, detect_specific_connectivity, all_signals_rule")],
     ["answers compared with real binds"],
     "consistency monitor between queries and real binds", BOUND + FAKE)
prop("B08", "Generated bundle code binds exactly the selected signals",
     "The code generated for a design by prefix, regular expression or dictionary is valid for every number, length and form of names and every line width, and its lines keep to that width where the names allow. The bundle it defines connects exactly the selected signals to the right design signals, without warnings.",
     ["inputs", "configurations"], "all designs, selections and line widths",
     "The generator has no test.",
     [GEN, BU], [("generator", GEN)],
     ["execution of the generated code, identity of the connected pins"],
     "generated code is executed and its binding is checked", BOUND + FAKE)
prop("B09", "Bundle code generated from a signal tree declares every signal",
     "For every tree of design signals, the code that bundle_code_intel_gen writes is valid, and its last class, bound to the design, connects every signal of the tree exactly once, under the path that spells its name, and no other signal, without warnings. That includes signals whose name begins the names of others. Parts of the same structure share one class.",
     ["inputs", "configurations"], "all signal trees",
     "The generator has no test.",
     [IGEN, BU], [("generator", IGEN + ": visit, main")],
     ["execution of the generated code, identity of the connected pins"],
     "generated code is executed and its binding is checked", BOUND + FAKE)
prop("F01", "Coverage counts are exact",
     "Each sample raises the count of exactly those bins whose conditions all hold for the current value of the watched target by one, evaluating each condition once. A point is covered exactly when every one of its bins has been hit; points with duplicate names or unusable bins are refused and change nothing.",
     ["inputs", "histories"], "all groups, conditions and value sequences",
     "Tests sample a few values with a few bins.",
     [FC], [("sampling", FC + ": CovGroup.sample, __check__, add_watch_point; conditions CovEq ... CovIsInRange")],
     ["counts in the report", "evaluations of own conditions"],
     "independent evaluation of the conditions on the same value stream", BOUND + FAKE)
prop("F02", "Coverage sampling stops, resumes and resets exactly as asked",
     "A group stops sampling when it is told to, or when all its points are covered and marked to be checked only once, and samples otherwise. Adding or resetting a point lets it sample again, resetting or deleting a point affects only that point, and the counts of samples and calls tell what happened.",
     ["histories", "configurations"], "all histories of sampling and administration and all stopping options",
     "Tests do not stop, resume, reset or delete.",
     [FC], [("life cycle", FC + ": stop_sample, resume_sample, sample_stoped, reset_point, del_point, clear")],
     ["report and state after each step"],
     "stateful differential monitor against a reference group", BOUND + "What resuming a completed group means is left open. " + FAKE)
prop("F03", "Coverage reports agree with the group",
     "The report of a group, as a dictionary and as JSON, has exactly its points, bins, counts, totals, options and marked functions, and is a copy that later sampling does not change. Marking functions for bins selected by name, wildcard or regular expression records exactly the selected bins, or raises an error if a pattern selects none and then records nothing.",
     ["inputs", "histories"], "all groups, samples and marks",
     "Tests mark a few functions on fixed bins.",
     [FC], [("report", FC + ": as_dict, __str__"), ("marks", FC + ": mark_function, get_func_full_name")],
     ["report and JSON text"],
     "report consistency monitor against a reference", BOUND + FAKE)
prop("T01", "A delayed signal is the settled value a fixed number of cycles ago",
     "A signal delayed by d cycles reads as the value the signal had settled to d full clock cycles before the last completed one, and as nothing while there have not been that many cycles since it was created. It advances by exactly one value per clock cycle, whatever hooks, drivers and tasks do in the cycle.",
     ["schedules", "inputs"], "all waveforms, delays, creation times and reruns of the cycle by hooks",
     "One test with two delays and no hooks.",
     [DE, A], [("sampling once per cycle", DE + ": __process_delayer, Delayer.sample; " + A + ": __execute_callback")],
     ["reads compared with values recorded at the clock edge"],
     "history monitor at the clock edge", BOUND + FAKE)
prop("L01", "Every log record reaches exactly the configured places, once, as formatted",
     "A record at or above the configured level appears exactly once, in order, in each configured place (console, log file) in the configured format with its id and its colour, and nowhere else; a record below the level appears nowhere. Setting up logging again replaces the previous setup, and the summary reports the number of records per severity; records are also counted by id.",
     ["histories", "configurations", "inputs"], "all sequences of setups and messages",
     "No test looks at the log.",
     [LO], [("setup", LO + ": setup_logging, ToffeeFormatter"), ("counts", LO + ": StatsHandler, summary")],
     ["file descriptor 2", "log files"],
     "transcript monitor on the console descriptor and the log files", BOUND)
prop("U01", "The utility generators follow their reference behaviour",
     "The shift register gives the same 64-bit sequence for a seed as a bit-serial register with its taps. The replacement policy gives an existing way, never the one used last, visits all ways when its victims are used and their number is a power of two, and follows the tree rule; the two-bit counter saturates at both ends and predicts by its upper bit.",
     ["inputs", "histories"], "all seeds, numbers of ways, and histories",
     "The utilities have no tests.",
     ["toffee/utils/lfsr_64.py", "toffee/utils/plru.py", "toffee/utils/two_bits_counter.py"],
     [("step functions", "toffee/utils/*.py")], ["returned values"],
     "differential monitor against independent references", BOUND)
prop("G01", "Debugger commands act on exactly the named signal, in order",
     "Each command of the debugger steps, lists, prints, sets, forces or releases exactly what it names with the given value, refreshing the design after the change, and releasing a signal makes it writable again. A malformed command or a signal that does not exist is reported and changes nothing.",
     ["histories", "inputs"], "all sequences of well-formed and malformed commands",
     "The debugger has no test.",
     [DB], [("commands", DB + ": PdbToffee")], ["calls and values at the design", "output"],
     "reference model of forcible signals over random sessions", BOUND + "Trusted: the stand-in for picker's internal-signal interface; whether a plain write changes what a signal is forced to is left open.")
prop("R01", "The same testbench behaves the same each time",
     "A testbench that is run again, in another process or after other work, with the same random seed shows exactly the same: the same calls, hooks and monitor values in the same order and cycles, the same results, messages, reports and generated code. Nothing depends on the seed of Python's string hashes or on what ran before.",
     ["programs", "histories", "environments"], "all testbenches, processes, hash seeds and other runs before them",
     "A test runs each scenario once in one process, and compares with what the test author wrote down, not with another run.",
     [EX, EN, AG, BU, FC, GEN, IGEN], [("ordered collections in place of sets", EX + ": Executor; " + FC + ": mark_function, as_dict; " + IGEN + ": visit"), ("members in order of their names", EN + ": all_agent_names; " + AG + ": all_driver_method; " + BU + ": dut_all_signals"), ("state of a run", A + ": callback_list; " + EX + ": __get_priority_tasks")],
     ["recorded calls, values, messages and texts of each process"],
     "differential monitor over recorded event logs of several processes", BOUND + "Addresses in texts are left out, and so is the order in which background tasks are cancelled, which asyncio leaves open. " + FAKE)
prop("R02", "A long run accumulates nothing",
     "However often a test repeats the same work (calls with hooks and ports, executors, tasks, events, queues, triggers, attaching and detaching models, binding, assigning and asking bundles, sampling coverage, messages), what toffee keeps does not grow with the number of repetitions. After the run nothing of the environment is kept.",
     ["histories"], "all kinds of work, in all mixtures, repeated for any number of times",
     "The tests run for a few cycles; what is left behind shows only in runs of many cycles.",
     [EX, BA, EN, BU, DE, FC, LO, A], [("tasks that are due are forgotten when they are done", EX + ": __execute_priority_tasks"), ("models are taken out of the agents", EN + ": __uninject_all"), ("what a bundle was bound to is released", BU + ": __unbind_all, make_requset_response_for"), ("window of a delayed signal", DE + ": Delayer.sample")],
     ["number of objects and of allocated blocks of memory after equal stretches of a run", "weak references to the parts of the testbench after the run"],
     "leak monitor over repeated random work in one run", BOUND + "What the user keeps on purpose (queues that are not read, new Delayers or bundles on the same design) is not part of it. Growth that is less than one block of memory in a repetition is not seen. " + FAKE)

NOT_APPLICABLE = []

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["rec"]) + "\n")
    checks = []
    for p in P:
        i = p["rec"]["id"]
        checks.append(
            dict(
                property=i,
                quick_cmd=f"/opt/venv/bin/python /verif/run.py {i} --tier quick",
                thorough_cmd=f"/opt/venv/bin/python /verif/run.py {i} --tier thorough",
                evidence_file=f"evidence/{i}.json",
                technique=p["technique"],
                level="exploration",
                level_note=p["note"],
            )
        )
    m = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '/repo'); import toffee\"",
        checks=checks,
        not_applicable=NOT_APPLICABLE,
        notes="Pure Python: nothing to build, the checks import /repo's working tree. No hooks in /repo: everything is observed at the "
        "boundary to the design (a stand-in DUT) and in user code (drivers, hooks, models). See DESIGN.md.",
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
