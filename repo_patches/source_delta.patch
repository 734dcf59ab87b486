From 6c3bb520fd80670391687e040ffe075f6a2bbd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 01/54] fix: keep pending hook calls of an aborted run out of
 the next run

---
 toffee/executor.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 18db891..3cb6f5d 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -1,6 +1,7 @@
 __all__ = ["Executor"]
 
 from .asynchronous import add_callback
+from .asynchronous import asyncio
 from .asynchronous import create_task
 from .asynchronous import Event
 from .asynchronous import gather
@@ -11,7 +12,17 @@ from ._base import MObject
 Priority Task Execution
 """
 
-__priority_tasks = []
+
+def __get_priority_tasks():
+    """
+    Get the priority task list of the running event loop. Tasks left over by a run that was aborted must not be
+    executed in the next run, so the list belongs to the event loop.
+    """
+
+    loop = asyncio.get_event_loop()
+    if not hasattr(loop, "priority_task_list"):
+        loop.priority_task_list = []
+    return loop.priority_task_list
 
 
 def add_priority_task(coro, priority, done_event=None):
@@ -19,7 +30,7 @@ def add_priority_task(coro, priority, done_event=None):
     Add a priority task to the priority task list.
     """
 
-    __priority_tasks.append((coro, priority, done_event))
+    __get_priority_tasks().append((coro, priority, done_event))
 
 
 async def __execute_priority_tasks():
@@ -28,13 +39,14 @@ async def __execute_priority_tasks():
     """
 
     set_event = False
-    for coro, _, done_event in sorted(__priority_tasks, key=lambda x: x[1]):
+    priority_tasks = __get_priority_tasks()
+    for coro, _, done_event in sorted(priority_tasks, key=lambda x: x[1]):
         await coro
         if done_event is not None:
             set_event = True
             done_event.set()
 
-    __priority_tasks.clear()
+    priority_tasks.clear()
     return set_event
 
 
-- 
2.43.0


From ac24de37b02ca940fcd3814376168a903d3fb24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 02/54] fix: sample each Delayer once per clock cycle even if
 hooks make the tasks rerun

---
 toffee/asynchronous.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 79519b4..1f735be 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -38,10 +38,11 @@ async def __execute_callback():
     Execute the callback function. The Callback will be executed between the next clock time after other_task_done.
     """
 
-    need_rerun = False
     for func, args, kwargs in callback_list:
-        need_rerun |= await func(*args, **kwargs)
-    return need_rerun
+        # The tasks are not settled yet, the following callbacks have to wait for the rerun
+        if await func(*args, **kwargs):
+            return True
+    return False
 
 
 def task_run():
-- 
2.43.0


From 9ec10b8805a38e253cf74f47d44150d05495f522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 03/54] fix: let tasks woken up by monitor hooks run before the
 next clock edge

---
 toffee/executor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 3cb6f5d..c6249bb 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -38,16 +38,16 @@ async def __execute_priority_tasks():
     Execute the priority tasks in the priority task list. It will be called every clock cycle.
     """
 
-    set_event = False
     priority_tasks = __get_priority_tasks()
     for coro, _, done_event in sorted(priority_tasks, key=lambda x: x[1]):
         await coro
         if done_event is not None:
-            set_event = True
             done_event.set()
 
+    # Any hook may have made other tasks runnable, even if nothing waits for the hook itself
+    need_rerun = len(priority_tasks) > 0
     priority_tasks.clear()
-    return set_event
+    return need_rerun
 
 
 add_callback(__execute_priority_tasks)
-- 
2.43.0


From 6a29a36ea512d8ddf1618dacb9a7a0932f699530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 04/54] fix: resume tasks that wait for a cancelled task before
 the next clock edge

---
 toffee/asynchronous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 1f735be..398987b 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -63,7 +63,7 @@ def __has_unwait_task():
         if task.get_name() == "__clock_loop":
             continue
 
-        if task._fut_waiter is None or task._fut_waiter._state == "FINISHED":
+        if task._fut_waiter is None or task._fut_waiter.done():
             return True
 
     return False
-- 
2.43.0


From 7ae918729d1a2c8a9935f370d90706af6fcb622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 05/54] fix: apply the executor's priority and sche_order to
 exactly the call they were given for

---
 toffee/_base_agent.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index b48b51e..42cae73 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -65,7 +65,7 @@ class Driver(BaseAgent):
             await model_info["driver_port"].put(args)
 
     def __drive_single_driver_hook(
-        self, driver_hook, model_results, arg_list, kwarg_list
+        self, driver_hook, model_results, arg_list, kwarg_list, priority
     ):
         if inspect.iscoroutinefunction(driver_hook):
             assert False, "driver_hook should not be a coroutine function"
@@ -74,15 +74,13 @@ class Driver(BaseAgent):
             model_results.append((driver_hook, driver_hook(*arg_list, **kwarg_list)))
 
         event = Event()
-        priority = (
-            self.priority if self.priority is not None else driver_hook.__priority__
-        )
+        priority = priority if priority is not None else driver_hook.__priority__
         add_priority_task(driver_hook_wrapper(), priority, event)
 
         return event
 
     def __drive_single_agent_hook(
-        self, agent_hook, model_results, arg_list, kwarg_list
+        self, agent_hook, model_results, arg_list, kwarg_list, priority
     ):
         if inspect.iscoroutinefunction(agent_hook):
             assert False, "agent_hook should not be a coroutine function"
@@ -96,9 +94,7 @@ class Driver(BaseAgent):
             )
 
         event = Event()
-        priority = (
-            self.priority if self.priority is not None else agent_hook.__priority__
-        )
+        priority = priority if priority is not None else agent_hook.__priority__
         add_priority_task(agent_hook_wrapper(), priority, event)
 
         return event
@@ -115,6 +111,13 @@ class Driver(BaseAgent):
             The result of the DUT if imme_ret is False, otherwise None.
         """
 
+        # The settings given by the executor are only valid for this call. Other calls of the same driver may overlap
+        # with this one, so they must not be kept in the driver.
+
+        priority, sche_order = self.priority, self.sche_order
+        self.priority = None
+        self.sche_order = None
+
         # Execute model_first driver hooks and agent hooks
 
         model_results = []
@@ -130,11 +133,11 @@ class Driver(BaseAgent):
                 if driver_hook := model_info["driver_hook"]:
                     if (
                         driver_hook.__sche_order__ == "model_first"
-                        and self.sche_order != "dut_first"
-                    ) or self.sche_order == "model_first":
+                        and sche_order != "dut_first"
+                    ) or sche_order == "model_first":
                         model_first_events.append(
                             self.__drive_single_driver_hook(
-                                driver_hook, model_results, arg_list, kwarg_list
+                                driver_hook, model_results, arg_list, kwarg_list, priority
                             ).wait()
                         )
                     else:
@@ -143,11 +146,11 @@ class Driver(BaseAgent):
                 for agent_hook in model_info["agent_hook"]:
                     if (
                         agent_hook.__sche_order__ == "model_first"
-                        and self.sche_order != "dut_first"
-                    ) or self.sche_order == "model_first":
+                        and sche_order != "dut_first"
+                    ) or sche_order == "model_first":
                         model_first_events.append(
                             self.__drive_single_agent_hook(
-                                agent_hook, model_results, arg_list, kwarg_list
+                                agent_hook, model_results, arg_list, kwarg_list, priority
                             ).wait()
                         )
                     else:
@@ -165,13 +168,13 @@ class Driver(BaseAgent):
             for driver_hook in dut_first_driver_hooks:
                 dut_first_events.append(
                     self.__drive_single_driver_hook(
-                        driver_hook, model_results, arg_list, kwarg_list
+                        driver_hook, model_results, arg_list, kwarg_list, priority
                     ).wait()
                 )
             for agent_hook in dut_first_agent_hooks:
                 dut_first_events.append(
                     self.__drive_single_agent_hook(
-                        agent_hook, model_results, arg_list, kwarg_list
+                        agent_hook, model_results, arg_list, kwarg_list, priority
                     ).wait()
                 )
             await gather(*dut_first_events)
@@ -186,9 +189,6 @@ class Driver(BaseAgent):
                         match_detail=True,
                     )
 
-            self.priority = None
-            self.sche_order = None
-
         create_task(background_exec())
 
         return dut_result
-- 
2.43.0


From 3f7d6565c825bd7c83c97a5f4369ab4499f79963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 06/54] fix: report exceptions raised in monitor methods
 instead of dropping them

---
 toffee/_base_agent.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index 42cae73..c201698 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -206,6 +206,17 @@ class Monitor(BaseAgent):
         self.agent = agent
 
         self.monitor_task = create_task(self.__monitor_forever())
+        self.monitor_task.add_done_callback(Monitor.__raise_exception)
+
+    @staticmethod
+    def __raise_exception(monitor_task):
+        """
+        Report the failure of the monitor to the event loop. Nobody waits for the monitor task, without this the
+        exception would be lost.
+        """
+
+        if not monitor_task.cancelled():
+            monitor_task.result()
 
     def enable_get_queue(self, maxsize):
         self.get_queue = Queue()
-- 
2.43.0


From 50e70cb9e5015b9fb015cc671388daa63e7b5814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 07/54] fix: make Env.unattach work and replace the previous
 env of a model that is attached again

---
 toffee/env.py   | 5 +++--
 toffee/model.py | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 4b5f5ff..e4c98e2 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -52,6 +52,7 @@ class Env(MObject):
         self.__inject_all(model)
         self.__ensure_model_match(model)
         self.attached_models.append(model)
+        model.attached_env = self
 
         return self
 
@@ -66,9 +67,9 @@ class Env(MObject):
             The env itself.
         """
 
-        if model in self.attached_model:
+        if model in self.attached_models:
             self.__uninject_all(model)
-            self.attached_model.remove(model)
+            self.attached_models.remove(model)
             model.clear_matched()
             model.attached_env = None
         else:
diff --git a/toffee/model.py b/toffee/model.py
index 3d7b9ee..ec61b72 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -321,7 +321,7 @@ class Model(Component):
 
     def __init__(self):
         super().__init__()
-        self.attached_agent = None
+        self.attached_env = None
 
         self.all_agent_ports = []
         self.all_driver_ports = []
@@ -384,7 +384,7 @@ class Model(Component):
 
         for agent_hook in self.all_agent_hooks:
             agent_hook.__matched__[0] = False
-            agent_hook.__methods_matched__ = [False] * len(agent_hook.__methods__)
+            agent_hook.__methods_matched__[:] = [False] * len(agent_hook.__methods__)
 
         for agent_port in self.all_agent_ports:
             agent_port.matched = False
@@ -392,10 +392,10 @@ class Model(Component):
 
     def is_attached(self):
         """
-        Check if the model is attached to an agent.
+        Check if the model is attached to an env.
         """
 
-        return self.attached_agent is not None
+        return self.attached_env is not None
 
     def ensure_all_matched(self):
         """
-- 
2.43.0


From b5cbbe936a62be5659ee7788731c6345c3733806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 08/54] fix: do not take over the matched state of hooks from
 previous attachments

---
 toffee/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toffee/model.py b/toffee/model.py
index ec61b72..0760e73 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -365,6 +365,9 @@ class Model(Component):
                 elif hasattr(attr_value, "__is_monitor_hook__"):
                     self.all_monitor_hooks.append(attr_value)
 
+        # The matched flags of hooks are shared by all instances of the model, they must not be left over from others
+        self.clear_matched()
+
     def clear_matched(self):
         """
         Clear the matched status of all driver ports, monitor ports, driver hooks, and agent hooks.
-- 
2.43.0


From 6e8eb39fe6ace92ef2371b037173c9d7c98e1ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 09/54] fix: do not leave the hooks of a rejected model in the
 env

---
 toffee/env.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toffee/env.py b/toffee/env.py
index e4c98e2..9efd660 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -50,7 +50,11 @@ class Env(MObject):
             model.attached_env.unattach(model)
 
         self.__inject_all(model)
-        self.__ensure_model_match(model)
+        try:
+            self.__ensure_model_match(model)
+        except ValueError:
+            self.__uninject_all(model)
+            raise
         self.attached_models.append(model)
         model.attached_env = self
 
-- 
2.43.0


From f166730086d081cf4f21736ad7d3e2c8edfe76dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 10/54] fix: match agent ports by their agent name, agents and
 methods instead of their attribute name

---
 toffee/env.py   | 8 +++++---
 toffee/model.py | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 9efd660..4d58dbe 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -276,11 +276,13 @@ class Env(MObject):
             for agent in agent_port.agents:
                 if not hasattr(self, agent):
                     raise ValueError(
-                        f"Agent port {agent_port.__name__} is not matched to agent {agent}"
+                        f"Agent port {agent_port.name} is not matched to agent {agent}"
                     )
-            if not agent_port.name == "" and not hasattr(self, agent_port.name):
+            if not agent_port.get_path() == "" and not hasattr(
+                self, agent_port.get_path()
+            ):
                 raise ValueError(
-                    f"Agent port {agent_port.name} is not matched to agent {agent_port.name}"
+                    f"Agent port {agent_port.name} is not matched to agent {agent_port.get_path()}"
                 )
 
     def __get_driver(self, agent_name, driver_name):
diff --git a/toffee/model.py b/toffee/model.py
index 0760e73..5f43ff0 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -263,7 +263,10 @@ class AgentPort(Port):
         self.methods_matched = [False] * len(methods)
 
     def get_path(self):
-        return self.agent_name if self.agent_name != "" else self.name
+        if self.agent_name == "" and len(self.agents) == 0 and len(self.methods) == 0:
+            self.agent_name = self.name
+
+        return self.agent_name
 
     async def __call__(self):
         return await self.get()
-- 
2.43.0


From 79257a410e1f524ae4118775701ab65c3a7fd73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:31 +0000
Subject: [PATCH 11/54] fix: do not share the bundles of a BundleList between
 bundle instances

---
 toffee/bundle.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index e76332b..2e7aa07 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -150,7 +150,12 @@ class BundleList:
         bundle_list = cls(old_bundle_list.bundles[0], "#", 1)
         bundle_list.format = old_bundle_list.format
         bundle_list.names = old_bundle_list.names[:]
-        bundle_list.bundles = old_bundle_list.bundles[:]
+        bundle_list.bundles = []
+        for old_bundle in old_bundle_list.bundles:
+            bundle = old_bundle.__class__()
+            bundle.current_level_signals = old_bundle.current_level_signals
+            bundle._Bundle__connect_method = old_bundle._Bundle__connect_method
+            bundle_list.bundles.append(bundle)
         return bundle_list
 
 
-- 
2.43.0


From 7fe871d04c7653b39faceb1a857f5c89202796e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 12/54] fix: let a bundle step that is only connected through a
 BundleList

---
 toffee/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 2e7aa07..e9264fe 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1402,6 +1402,8 @@ class Bundle(MObject):
                     specific_signal,
                     all_signals_rule,
                 )
+                if bundle.__clock_event is not None:
+                    self.__clock_event = bundle.__clock_event
 
         Bundle.__revert_signal_name(matching_signals, all_signals)
         return matching_signals + remain_signals
-- 
2.43.0


From a2875b6e227ed0d5cfe1754af8b8fd8a3f823527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 13/54] fix: release everything of the previous bind when a
 bundle is bound again

---
 toffee/bundle.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index e9264fe..92614df 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1288,11 +1288,21 @@ class Bundle(MObject):
         """
 
         signal = getattr(self, signal_name)
+        if isinstance(signal, UnconnectedSignal):
+            return
+        Bundle.__release_signal(signal)
+        delattr(self, signal_name)
+
+    @staticmethod
+    def __release_signal(signal):
+        """
+        Update the signal info when a signal is disconnected from the bundle.
+        """
+
         if hasattr(signal.xdata, "number_of_bundles_connected_to"):
             signal.xdata.number_of_bundles_connected_to -= 1
             if signal.xdata.number_of_bundles_connected_to == 0:
                 delattr(signal.xdata, "number_of_bundles_connected_to")
-        delattr(self, signal_name)
 
     def __unbind_all(self):
         """
@@ -1302,8 +1312,17 @@ class Bundle(MObject):
         for signal_name in self.current_level_signals:
             if hasattr(self, signal_name):
                 self.__remove_signal_attr(signal_name)
+        for _, signal_list in self.__all_signal_lists():
+            for idx, signal in enumerate(signal_list.signals):
+                if not isinstance(signal, UnconnectedSignal):
+                    Bundle.__release_signal(signal)
+                    signal_list.signals[idx] = Signal()
         for _, sub_bundle in self.__all_sub_bundles():
             sub_bundle.__unbind_all()
+        for _, bundle_list in self.__all_bundle_lists():
+            for bundle in bundle_list.bundles:
+                bundle.__unbind_all()
+        self.__clock_event = None
 
     def __bind_from_signal_list(
         self,
-- 
2.43.0


From e060df4539227b75fac076f67bbd4c772977c888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 14/54] fix: process requests once per cycle and only on the
 bound dut after a bundle is bound again

---
 toffee/bundle.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 92614df..f976da9 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -406,6 +406,7 @@ class Bundle(MObject):
         self.__connect_method = PrefixBindMethod("")
         self.__dut_requests__ = Queue()
         self.__dut_instance__ = None
+        self.__dut_registered__ = []
         self.__blocked_request__ = None
 
         self.__set_current_level_signal()
@@ -504,9 +505,19 @@ class Bundle(MObject):
         """
         if self.__dut_instance__ is not None:
             error("The dut instance is already set")
-        dut.StepRis(self.___dut_call_on_rise__)
         self.__dut_instance__ = dut
 
+        # Callbacks can't be removed from a dut, so register only once and ignore the duts that are no longer bound
+        if any(registered is dut for registered in self.__dut_registered__):
+            return
+        self.__dut_registered__.append(dut)
+
+        def call_on_rise(cycle):
+            if self.__dut_instance__ is dut:
+                self.___dut_call_on_rise__(cycle)
+
+        dut.StepRis(call_on_rise)
+
     def process_requests(self, request: Optional[Union[Dict, List[Dict]]]):
         """
         Process the requests.
-- 
2.43.0


From 6bad06d3bad6a971484431d769c3a019ce805a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 15/54] fix: process_requests has to wait for the condition of
 the last request

---
 toffee/bundle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index f976da9..d9234dd 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -542,7 +542,9 @@ class Bundle(MObject):
             request = [request]
         for req in request:
             self.__dut_requests__.put(req)
-        while not self.__dut_requests__.empty():
+        while (
+            not self.__dut_requests__.empty() or self.__blocked_request__ is not None
+        ):
             self.__dut_instance__.Step(1)
         ret = []
         for req in request:
-- 
2.43.0


From ab4e38683781dca72bb4883b1417d3bbf9561a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 16/54] fix: do not change the dictionaries passed to assign
 and process_requests

---
 toffee/bundle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index d9234dd..7a3ba1f 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -456,7 +456,7 @@ class Bundle(MObject):
             data = request(cycle, self)
             if data is None:
                 return
-            request = data
+            request = dict(data)
         # check condition
         if "__condition_func__" in request:
             if not request["__condition_func__"](
@@ -540,6 +540,8 @@ class Bundle(MObject):
             )
         if not isinstance(request, list):
             request = [request]
+        # The requests are consumed while being processed, the ones of the caller must not be changed
+        request = [dict(req) if isinstance(req, dict) else req for req in request]
         for req in request:
             self.__dut_requests__.put(req)
         while (
@@ -859,7 +861,7 @@ class Bundle(MObject):
 
         if "*" in item:
             self.set_all(item["*"])
-            del item["*"]
+            item = {key: value for key, value in item.items() if key != "*"}
 
         if multilevel:
             for signal, value in item.items():
-- 
2.43.0


From c3de2224c64c8ae8e127601accaff945311061ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 17/54] fix: name the missing signal of a SignalList correctly
 in the warning

---
 toffee/bundle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 7a3ba1f..7b842c7 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1283,11 +1283,11 @@ class Bundle(MObject):
             for idx, signal in enumerate(signal_list.names):
                 if signal not in connected_signals:
                     rule_string = Bundle.__get_rule_string(rule_stack, signal)
-                    level_string = Bundle.__appended_level_string(
+                    full_signal_name = Bundle.__appended_level_string(
                         level_string, f"{signal_list_name}[{idx}]"
                     )
                     warning(
-                        f'The signal that can be connected to "{level_string}" '
+                        f'The signal that can be connected to "{full_signal_name}" '
                         f'is not found in dut, it should satisfy rule "{rule_string}"'
                     )
 
-- 
2.43.0


From 0892ff7ae8d79d77ca977d2efc0611a593aa6aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 18/54] fix: accept the keys of as_dict(multilevel=False) for
 bundle lists in assign(multilevel=False)

---
 toffee/bundle.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 7b842c7..519037b 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -919,6 +919,16 @@ class Bundle(MObject):
                         for bundle_list in self.__all_bundle_lists()
                     ):
                         getattr(self, signal).assign(value, multilevel)
+                    elif (
+                        element := self.__get_bundle_list_element(sub_bundle_name)
+                    ) is not None:
+                        element.assign(
+                            {sub_bundle_signal: value},
+                            multilevel,
+                            Bundle.__appended_level_string(
+                                level_string, sub_bundle_name
+                            ),
+                        )
                     else:
                         full_signal_name = Bundle.__appended_level_string(
                             level_string, signal
@@ -1252,6 +1262,23 @@ class Bundle(MObject):
             if isinstance(getattr(self, attr), BundleList):
                 yield (attr, getattr(self, attr))
 
+    def __get_bundle_list_element(self, name):
+        """
+        Get the bundle of a bundle list by its name in flat dictionaries.
+
+        Args:
+            name: The name of the bundle, format such as "bundle_list[0]".
+
+        Returns:
+            The bundle if it is found in the bundle lists, None otherwise.
+        """
+
+        for bundle_list_name, bundle_list in self.__all_bundle_lists():
+            for idx, bundle in enumerate(bundle_list.bundles):
+                if name == f"{bundle_list_name}[{idx}]":
+                    return bundle
+        return None
+
     def __detect_missing_signals(
         self, connected_signals, level_string, rule_stack, unconnected_signal_access
     ):
-- 
2.43.0


From a9588757b7836ce62c5dfd87f7921ccc2a46ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 19/54] fix: let detect_specific_connectivity tell apart the
 signals of the bundle

---
 toffee/bundle.py | 59 +++++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 519037b..841d8b7 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -237,7 +237,7 @@ class PrefixBindMethod(BindMethod):
                                 level_string, name_no_prefix
                             ),
                         )
-                        connected_signals.append(name_no_prefix)
+                    connected_signals.append(name_no_prefix)
                 elif signal_list_name_and_inst := self.get_matching_signal_list(
                     bundle, name_no_prefix
                 ):
@@ -251,7 +251,7 @@ class PrefixBindMethod(BindMethod):
                                 level_string, signal_list_name_and_inst[0]
                             ),
                         )
-                        connected_signals.append(name_no_prefix)
+                    connected_signals.append(name_no_prefix)
                 else:
                     matching_signals.append(
                         {
@@ -983,11 +983,12 @@ class Bundle(MObject):
 
         all_signals = [{"name": signal_name, "org_name": signal_name, "signal": None}]
 
-        all_signals = self.__bind_from_signal_list(
-            all_signals, "", [], False, True, specific_signal, None
+        connected_paths = []
+        self.__bind_from_signal_list(
+            all_signals, "", [], False, True, connected_paths, None
         )
 
-        return len(all_signals) == 0
+        return specific_signal in connected_paths
 
     @classmethod
     def from_prefix(cls, prefix="", dut=None):
@@ -1373,7 +1374,7 @@ class Bundle(MObject):
         rule_stack,
         unconnected_signal_access,
         detection_mode,
-        specific_signal,
+        connected_paths,
         all_signals_rule,
     ):
         """
@@ -1386,8 +1387,9 @@ class Bundle(MObject):
             unconnected_signal_access: Whether unconnected signals could be accessed.
             detection_mode: Whether the method is in detection mode. if it is, the bundle
                             will not be connected to the signals.
-            specific_signal: It is only valid in detection mode. If it is not None, only
-                             the specific signal will be connected.
+            connected_paths: It is only valid in detection mode. If it is not None, the
+                             paths of all bundle signals that could be connected will be
+                             appended to this list.
             all_signals_rule: It is only valid in detection mode. If it is not None, the
                               rule of all signals will be stored in this dictionary.
 
@@ -1404,21 +1406,14 @@ class Bundle(MObject):
             self.__detect_missing_signals(
                 connected_signals, level_string, rule_stack, unconnected_signal_access
             )
-
-            if specific_signal is not None:
-                error("specific signal could only be used in detection mode")
         else:
-            if specific_signal is not None:
-                remain_signals += connected_signals
-                connected_signals = []
-
-                for signal in remain_signals:
-                    full_signal_name = Bundle.__appended_level_string(
-                        level_string, signal["name"]
+            if connected_paths is not None:
+                for signal in connected_signals:
+                    connected_paths.append(
+                        Bundle.__appended_level_string(
+                            level_string, self.__get_signal_path(signal)
+                        )
                     )
-                    if full_signal_name == specific_signal:
-                        connected_signals.append(signal)
-                        remain_signals.remove(signal)
 
             if all_signals_rule is not None:
                 for signal in self.current_level_signals:
@@ -1444,7 +1439,7 @@ class Bundle(MObject):
                 rule_stack,
                 unconnected_signal_access,
                 detection_mode,
-                specific_signal,
+                connected_paths,
                 all_signals_rule,
             )
             if sub_bundle.__clock_event is not None:
@@ -1460,7 +1455,7 @@ class Bundle(MObject):
                     rule_stack,
                     unconnected_signal_access,
                     detection_mode,
-                    specific_signal,
+                    connected_paths,
                     all_signals_rule,
                 )
                 if bundle.__clock_event is not None:
@@ -1469,6 +1464,24 @@ class Bundle(MObject):
         Bundle.__revert_signal_name(matching_signals, all_signals)
         return matching_signals + remain_signals
 
+    def __get_signal_path(self, signal_name):
+        """
+        Get the path of a signal in the current level.
+
+        Args:
+            signal_name: The name of the signal or of an item of a signal list.
+
+        Returns:
+            The path of the signal, the items of signal lists are formatted as "signal_list[0]".
+        """
+
+        if signal_name in self.current_level_signals:
+            return signal_name
+        signal_list_name, signal_list = BindMethod.get_matching_signal_list(
+            self, signal_name
+        )
+        return f"{signal_list_name}[{signal_list.names.index(signal_name)}]"
+
     def __check_dict_value(self, dict):
         """
         Check if the values of the dictionary are valid.
-- 
2.43.0


From 5a4a0221fae0e5c5290c180dd435ddfc0a3ff7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 20/54] fix: find the rules of nested signals in the connection
 dictionary

---
 toffee/bundle.py | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 841d8b7..f84bd7c 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1695,28 +1695,44 @@ class Bundle(MObject):
 
         filtered_dict = {}
         for key, value in dict.items():
-            if self.detect_specific_connectivity(key, could_connected_to):
+            if self.detect_specific_connectivity(value, could_connected_to):
                 filtered_dict[key] = value
         return filtered_dict
 
     @staticmethod
-    def __get_path_from_rule_stack(rule_stack, signal=""):
+    def __get_path_from_rule_stack(rule_stack):
         """
         Get siganl path from the rule stack.
 
         Args:
-            rule_stack: The stack of rules, this is a list of bundles.
-            signal: The signal to get the path.
+            rule_stack: The stack of rules, this is a list of bundles, followed by the name of the signal.
         """
 
         path = ""
-        if signal != "":
-            rule_stack = rule_stack + [signal]
+        for bundle, child in zip(rule_stack[:-2], rule_stack[1:-1]):
+            path = Bundle.__appended_level_string(
+                path, bundle.__get_sub_bundle_path(child)
+            )
 
-        for rule in rule_stack[1:]:
-            if rule is rule_stack[-1]:
-                path += rule
-            else:
-                path += rule.name + "."
+        return Bundle.__appended_level_string(
+            path, rule_stack[-2].__get_signal_path(rule_stack[-1])
+        )
 
-        return path
+    def __get_sub_bundle_path(self, bundle):
+        """
+        Get the path of a sub-bundle or of a bundle in a bundle list.
+
+        Args:
+            bundle: The bundle to get the path of.
+
+        Returns:
+            The path of the bundle, the bundles of bundle lists are formatted as "bundle_list[0]".
+        """
+
+        for sub_bundle_name, sub_bundle in self.__all_sub_bundles():
+            if sub_bundle is bundle:
+                return sub_bundle_name
+        for bundle_list_name, bundle_list in self.__all_bundle_lists():
+            for idx, element in enumerate(bundle_list.bundles):
+                if element is bundle:
+                    return f"{bundle_list_name}[{idx}]"
-- 
2.43.0


From fc0ed99af3e1cd2a5e131aa43ddc1aaa25d153a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 21/54] fix: make CovGroup.stop_sample callable

---
 toffee/funcov.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index d2bbe7c..71f32f7 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -254,7 +254,7 @@ class CovGroup(object):
         self.cov_points = OrderedDict()
         self.hinted = False
         self.all_once = False
-        self.stop_sample = False
+        self._sample_stopped = False
         self.sample_count = 0
         self.sample_calln = 0
         return self
@@ -465,7 +465,7 @@ class CovGroup(object):
         sample the group
         """
         self.sample_calln += 1
-        if self.stop_sample:
+        if self._sample_stopped:
             return
         if self.hinted and self.all_once:
             return
@@ -485,7 +485,7 @@ class CovGroup(object):
         """
         check if the group is stoped
         """
-        if self.stop_sample:
+        if self._sample_stopped:
             return True
         return self.hinted and self.all_once
 
@@ -493,14 +493,14 @@ class CovGroup(object):
         """
         stop sampling
         """
-        self.stop_sample = True
+        self._sample_stopped = True
         return self
 
     def resume_sample(self):
         """
         resume sampling
         """
-        self.stop_sample = False
+        self._sample_stopped = False
         self.all_once = False
         return self
 
@@ -565,7 +565,7 @@ class CovGroup(object):
         )
         ret["__sample_count__"] = self.sample_count
         ret["__sample_calln__"] = self.sample_calln
-        ret["__stop_sample__"] = self.stop_sample
+        ret["__stop_sample__"] = self._sample_stopped
         return ret
 
     def __str__(self) -> str:
-- 
2.43.0


From 11cce00b6a252ccb4b122c04fe234e0fdd953304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 22/54] fix: name watch points that have a single bin and no
 name

---
 toffee/funcov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index 71f32f7..3abd4f2 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -275,7 +275,8 @@ class CovGroup(object):
         """
         key = name
         if not key:
-            key = "%s:%s" % (target, bins.keys())
+            bin_names = bins.keys() if isinstance(bins, dict) else ["anonymous"]
+            key = "%s:%s" % (target, bin_names)
         if key in self.cov_points:
             raise ValueError("Duplicated key %s" % key)
         if not isinstance(bins, dict):
-- 
2.43.0


From 12c93834568d1744e322125e695cdf76461c51ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 23/54] fix: show the log id in the same way on all handlers

---
 toffee/logger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toffee/logger.py b/toffee/logger.py
index 8d49fd7..d641979 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 
 __all__ = [
@@ -60,6 +61,9 @@ class ToffeeFormatter(logging.Formatter):
     """
 
     def format(self, record):
+        # The record is shared by all handlers
+        record = copy.copy(record)
+
         if not hasattr(record, "log_id") or record.log_id == "":
             record.log_id = ""
         else:
-- 
2.43.0


From dc598f7caec7e79a73433131f869e68d059f30ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 24/54] fix: apply the format passed to setup_logging

---
 toffee/logger.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/toffee/logger.py b/toffee/logger.py
index d641979..3858d6b 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -106,7 +106,6 @@ screen_handler = logging.StreamHandler()
 default_format = (
     "%(name)s_%(levelname)s @%(filename)s:%(lineno)d%(log_id)s:\t%(message)s"
 )
-default_formatter = ToffeeFormatter(default_format)
 
 # log levels
 INFO = logging.INFO
@@ -138,15 +137,17 @@ def setup_logging(
 
     toffee_logger.addHandler(stats_handler)
 
+    formatter = ToffeeFormatter(format)
+
     if console_display:
         screen_handler.setLevel(log_level)
-        screen_handler.setFormatter(default_formatter)
+        screen_handler.setFormatter(formatter)
         toffee_logger.addHandler(screen_handler)
 
     if log_file:
         fh = logging.FileHandler(log_file, mode="w")
         fh.setLevel(log_level)
-        fh.setFormatter(default_formatter)
+        fh.setFormatter(formatter)
         toffee_logger.addHandler(fh)
 
 
-- 
2.43.0


From cbfd6cd646f6bec1c223cae9324e5582eb637199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 25/54] fix: do not wait forever in Executor(exit="any") if a
 group of coroutines fails

---
 toffee/executor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/toffee/executor.py b/toffee/executor.py
index c6249bb..56001d7 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -157,8 +157,16 @@ class Executor(MObject):
                     )
                 )
             )
+        # A group of coroutines that fails doesn't set the event by itself
+        for task in self.__uncompleted:
+            task.add_done_callback(lambda _: self.__exit_any_event.set())
         await self.__exit_any_event.wait()
 
+        # Report the failure if a group of coroutines has failed
+        for task in self.__uncompleted:
+            if task.done():
+                task.result()
+
     async def wait_all(self):
         """
         Wait for all the coroutines to complete. This function should be called after execute.
-- 
2.43.0


From 647fe6503bb1191b6b528f4b86e298e45e9029bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 26/54] fix: drivers whose first parameter is not called self
 could not be watched by agent hooks

---
 toffee/_base_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index c201698..df212dc 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -51,7 +51,7 @@ class Driver(BaseAgent):
         bound_args = signature.bind(None, *arg_list, **kwarg_list)
         bound_args.apply_defaults()
         arguments = bound_args.arguments
-        del arguments["self"]
+        del arguments[next(iter(signature.parameters))]
         return arguments
 
     async def __drive_single_model_ports(self, model_info, arg_list, kwarg_list):
-- 
2.43.0


From e0497cebe613b18737efd72504ae0a3973381824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 27/54] fix: a driver with a parameter called agent could not
 be called with it as a keyword

---
 toffee/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/agent.py b/toffee/agent.py
index b686d8a..0509e4a 100644
--- a/toffee/agent.py
+++ b/toffee/agent.py
@@ -127,7 +127,7 @@ def __driver_wrapped_func(func):
     func.__is_driver_decorated__ = True
 
     @functools.wraps(func)
-    async def wrapper(agent, *args, **kwargs):
+    async def wrapper(agent, /, *args, **kwargs):
         driver = agent.drivers[func.__name__]
         return await driver.process_driver_call(agent, args, kwargs)
 
-- 
2.43.0


From b51fef2702168187a7425b726057cc195cd4c264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 28/54] fix: drivers and monitors that call the ones they
 override recursed without end

---
 toffee/agent.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/toffee/agent.py b/toffee/agent.py
index 0509e4a..61c22ff 100644
--- a/toffee/agent.py
+++ b/toffee/agent.py
@@ -129,6 +129,9 @@ def __driver_wrapped_func(func):
     @functools.wraps(func)
     async def wrapper(agent, /, *args, **kwargs):
         driver = agent.drivers[func.__name__]
+        # The driver of a base class that is called by the one which overrides it is a part of that call
+        if driver.func is not func:
+            return await func(agent, *args, **kwargs)
         return await driver.process_driver_call(agent, args, kwargs)
 
     wrapper.__original_func__ = func
@@ -155,6 +158,9 @@ def __monitor_wrapped_func(func):
     @functools.wraps(func)
     async def wrapper(agent, *args, **kwargs):
         monitor = agent.monitors[func.__name__]
+        # The monitor of a base class that is called by the one which overrides it is a part of that monitor
+        if monitor.func is not func:
+            return await func(agent, *args, **kwargs)
         return await monitor.get_queue.get()
 
     wrapper.__original_func__ = func
-- 
2.43.0


From ac49b50ccb5a4268fcdf92be25c4858497df5400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 29/54] fix: Executor failed on coroutines that have a local
 variable called agent

---
 toffee/executor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 56001d7..3ce20da 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -277,5 +277,10 @@ class Executor(MObject):
         agent = coro.cr_frame.f_locals.get("agent", None)
         driver_name = coro.__name__
 
-        if agent is not None:
+        # Any coroutine can have an "agent", only those of driver methods belong to a driver
+        driver_method = getattr(agent, driver_name, None)
+        if (
+            hasattr(driver_method, "__is_driver_decorated__")
+            and driver_method.__code__ is coro.cr_code
+        ):
             return agent.drivers.get(driver_name, None)
-- 
2.43.0


From 578be286d355aa9f3fcd15a0505ef9389729cbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 30/54] fix: an empty Executor(exit="any") block never ended

---
 toffee/executor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toffee/executor.py b/toffee/executor.py
index 3ce20da..b70cec7 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -148,6 +148,9 @@ class Executor(MObject):
         Execute all coroutines and wait for any of them to complete.
         """
 
+        if len(self.__coros) == 0:
+            return
+
         self.__exit_any_event.clear()
         for tasks in self.__coros.items():
             self.__uncompleted.append(
-- 
2.43.0


From ff01c7f30dc986568dec4cc5a8c3ffc4de6cdb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 31/54] fix: the clock did not wait for waits that a callback
 completes, such as asyncio.gather

---
 toffee/asynchronous.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 398987b..9652947 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -69,6 +69,15 @@ def __has_unwait_task():
     return False
 
 
+def __has_pending_callback():
+    """
+    Detects whether the event loop still has callbacks to run. Some waits, such as the one for asyncio.gather, are only
+    completed by a callback that is called after the task they wait for has finished.
+    """
+
+    return len(getattr(asyncio.get_event_loop(), "_ready", ())) > 0
+
+
 async def __run_once():
     """
     The event loop executes one round.
@@ -86,7 +95,11 @@ async def __other_tasks_done():
     """
 
     await __run_once()
-    while __has_unwait_task() or asyncio.get_event_loop().new_task_run:
+    while (
+        __has_unwait_task()
+        or __has_pending_callback()
+        or asyncio.get_event_loop().new_task_run
+    ):
         await __run_once()
 
 
-- 
2.43.0


From 9f74500d0c743a81a2718325301da9da30f2413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:44 +0000
Subject: [PATCH 32/54] fix: agent hooks and ports that name a method twice,
 also through its agent, could not be attached

---
 toffee/env.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 4d58dbe..a92242a 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -118,37 +118,33 @@ class Env(MObject):
     def __is_agent_hook_contain_method(
         agent_hook, agent_name_of_method: str, method_name: str
     ) -> bool:
-        if (
+        contain = (
             agent_name_of_method == agent_hook.__agent_name__
             or agent_name_of_method in agent_hook.__agents__
-        ):
+        )
+        for idx, method in enumerate(agent_hook.__methods__):
+            if method == f"{agent_name_of_method}.{method_name}":
+                agent_hook.__methods_matched__[idx] = True
+                contain = True
+        if contain:
             agent_hook.__matched__[0] = True
-            return True
-        elif f"{agent_name_of_method}.{method_name}" in agent_hook.__methods__:
-            agent_hook.__matched__[0] = True
-            agent_hook.__methods_matched__[
-                agent_hook.__methods__.index(f"{agent_name_of_method}.{method_name}")
-            ] = True
-            return True
-        return False
+        return contain
 
     @staticmethod
     def __is_agent_port_contain_method(
         agent_port, agent_name_of_method: str, method_name: str
     ) -> bool:
-        if (
+        contain = (
             agent_name_of_method == agent_port.get_path()
             or agent_name_of_method in agent_port.agents
-        ):
-            agent_port.matched = True
-            return True
-        elif f"{agent_name_of_method}.{method_name}" in agent_port.methods:
+        )
+        for idx, method in enumerate(agent_port.methods):
+            if method == f"{agent_name_of_method}.{method_name}":
+                agent_port.methods_matched[idx] = True
+                contain = True
+        if contain:
             agent_port.matched = True
-            agent_port.methods_matched[
-                agent_port.methods.index(f"{agent_name_of_method}.{method_name}")
-            ] = True
-            return True
-        return False
+        return contain
 
     @staticmethod
     def __all_agent_hooks_contain_method(
-- 
2.43.0


From 1fa461c3078913c3e3f6be8ce299c4084682a400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 33/54] fix: models could name attributes of the env that are
 no agents

---
 toffee/env.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index a92242a..f930099 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -254,15 +254,17 @@ class Env(MObject):
         """
 
         model.ensure_all_matched()
+        agent_names = list(self.all_agent_names())
 
         for agent_hook in model.all_agent_hooks:
             for agent in agent_hook.__agents__:
-                if not hasattr(self, agent):
+                if agent not in agent_names:
                     raise ValueError(
                         f"Agent hook {agent_hook.__name__} is not matched to agent {agent}"
                     )
-            if not agent_hook.__agent_name__ == "" and not hasattr(
-                self, agent_hook.__agent_name__
+            if (
+                not agent_hook.__agent_name__ == ""
+                and agent_hook.__agent_name__ not in agent_names
             ):
                 raise ValueError(
                     f"Agent hook {agent_hook.__name__} is not matched to agent {agent_hook.__agent_name__}"
@@ -270,12 +272,13 @@ class Env(MObject):
 
         for agent_port in model.all_agent_ports:
             for agent in agent_port.agents:
-                if not hasattr(self, agent):
+                if agent not in agent_names:
                     raise ValueError(
                         f"Agent port {agent_port.name} is not matched to agent {agent}"
                     )
-            if not agent_port.get_path() == "" and not hasattr(
-                self, agent_port.get_path()
+            if (
+                not agent_port.get_path() == ""
+                and agent_port.get_path() not in agent_names
             ):
                 raise ValueError(
                     f"Agent port {agent_port.name} is not matched to agent {agent_port.get_path()}"
-- 
2.43.0


From a369fa9ca9e6dbedcb4ca940d472bb7e09456969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:51 +0000
Subject: [PATCH 34/54] fix: bundle_code_gen generated invalid code for signal
 names that are Python keywords or no identifiers

---
 scripts/bundle_code_gen.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/scripts/bundle_code_gen.py b/scripts/bundle_code_gen.py
index 66b24fe..93f9464 100644
--- a/scripts/bundle_code_gen.py
+++ b/scripts/bundle_code_gen.py
@@ -1,3 +1,4 @@
+import keyword
 import re
 
 from toffee import Bundle
@@ -24,6 +25,19 @@ def __gen_bundle_code(bundle_name: str, signals, max_width: int):
         end_code = f" = Signals({signals_num})"
 
     code = f"from toffee import Bundle\nfrom toffee import Signals, Signal\n\nclass {bundle_name}(Bundle):\n"
+
+    # Names that cannot be assigned in the class body are listed in "signals" instead
+    if not all(
+        signal.isidentifier()
+        and not keyword.iskeyword(signal)
+        and not signal.startswith("__")
+        for signal in signals
+    ):
+        code += "\tsignals = [\n"
+        code += "".join(f"\t\t{signal!r},\n" for signal in signals)
+        code += "\t]\n"
+        return code
+
     code_line = "\t"
     index = 0
 
-- 
2.43.0


From 472e683f6d0a4927af4d5ed822f83c2f436ca794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 35/54] fix: bundle_code_intel_gen lost signals below a
 signal's name and generated invalid code for keywords

---
 scripts/bundle_code_intel_gen.py | 35 +++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/scripts/bundle_code_intel_gen.py b/scripts/bundle_code_intel_gen.py
index c4d2950..f824fbb 100644
--- a/scripts/bundle_code_intel_gen.py
+++ b/scripts/bundle_code_intel_gen.py
@@ -1,5 +1,6 @@
 import argparse
 import json
+import keyword
 import os
 
 
@@ -11,6 +12,20 @@ def set_hash(set_in):
     return hash(str_res)
 
 
+# a sub-bundle can be stored under any name, its signals are found by its prefix
+def attr_name(name):
+    if keyword.iskeyword(name) or not name.isidentifier():
+        return f"{name}_"
+    return name
+
+
+# names that cannot be assigned in the class body
+def is_special(name):
+    return (
+        keyword.iskeyword(name) or not name.isidentifier() or name.startswith("__")
+    )
+
+
 class MProxy:
     stored = ""
     leaf = None
@@ -70,7 +85,7 @@ def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
                 # else:
                 # logs[son_hash] = (False, inside_hash, son_name, whole_name, grandsons)
             if inside_hash not in insides.keys():
-                insides[inside_hash] = [son_leaf, [], "", []]
+                insides[inside_hash] = [son_leaf, [], "", [], []]
                 if son_leaf & 2:
                     # new bundle appears
                     insides[inside_hash][2] = bundle_names_counter[0]
@@ -99,6 +114,7 @@ def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
                             if prefix != "":
                                 name = f"_{name}"
                             insides[inside_hash][3].append(f"{name}")
+                            insides[inside_hash][4].append(f"{name}")
 
                     for bundle_hash in son_bundles.keys():
                         bundle_cls = bundle_names_counter[1][insides[bundle_hash][2]]
@@ -106,17 +122,22 @@ def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
                             tprefix_name = prefix_name
                             if len(prefix) > 0:
                                 tprefix_name = f"_{tprefix_name}"
+                            # the signals on all levels below the son
+                            son_leaves = [
+                                f"{tprefix_name}{_son_leaf}"
+                                for _son_leaf in insides[bundle_hash][4]
+                            ]
+                            insides[inside_hash][4].extend(son_leaves)
                             if boths[prefix_name]:
-                                son_leaves = insides[bundle_hash][3]
-                                for _son_leaf in son_leaves:
-                                    leaf_name = f"{tprefix_name}{_son_leaf}"
-                                    insides[inside_hash][3].append(leaf_name)
+                                insides[inside_hash][3].extend(son_leaves)
                             else:
                                 rp.print(
-                                    f'\t{tprefix_name} = {bundle_cls}.from_prefix("{tprefix_name}")'
+                                    f'\t{attr_name(tprefix_name)} = {bundle_cls}.from_prefix("{tprefix_name}")'
                                 )
 
-                    if len(insides[inside_hash][3]) > 0:
+                    if any(is_special(name) for name in insides[inside_hash][3]):
+                        rp.print(f"\tsignals = {insides[inside_hash][3]}")
+                    elif len(insides[inside_hash][3]) > 0:
                         leaves_str = ", ".join(insides[inside_hash][3])
                         after_str = (
                             f"Signals({len(insides[inside_hash][3])})"
-- 
2.43.0


From d07f93f195e3cf5c3ea16e1b6c48b1787ffa00b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 36/54] fix: bundle_code_intel_gen mixed up signals of the same
 structure named 2 and 3

---
 scripts/bundle_code_intel_gen.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/scripts/bundle_code_intel_gen.py b/scripts/bundle_code_intel_gen.py
index f824fbb..0a936fc 100644
--- a/scripts/bundle_code_intel_gen.py
+++ b/scripts/bundle_code_intel_gen.py
@@ -4,7 +4,7 @@ import keyword
 import os
 
 
-# calculate hash of a number set, so as to distinct between two sets
+# calculate hash of an ordered set, so as to distinct between two sets
 def set_hash(set_in):
     str_res = "_"
     for num in set_in:
@@ -64,13 +64,9 @@ def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
                 bundle_names_counter,
                 rp,
             )
-            inside_hash = set_hash(grandsons)
-            cur_hashes = set()
-            cur_hashes.add(son_name)
-            cur_hashes.add(inside_hash)
-            # to distinguish between leaf and both and node
-            cur_hashes.add(son_leaf)
-            son_hash = set_hash(cur_hashes)
+            inside_hash = set_hash(sorted(grandsons))
+            # son_leaf to distinguish between leaf and both and node
+            son_hash = set_hash((son_name, inside_hash, son_leaf))
             if son_hash not in logs.keys():
                 # if son_leaf & 1:
                 # son hash as outsiders with name added to hash
-- 
2.43.0


From c7fbec0e19f7ab5d07246b5ee70d7263ee566c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 37/54] fix: a coverage point without bins made a group stop
 that is not to be checked only once

---
 toffee/funcov.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index 3abd4f2..92470f3 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -401,7 +401,6 @@ class CovGroup(object):
     @staticmethod
     def __check__(points) -> bool:
         hinted = True
-        onece = True
         for k, b in points["bins"].items():
             hints = points["hints"][k]
             checked = False
@@ -420,10 +419,9 @@ class CovGroup(object):
             hints += 1 if checked else 0
             if hints == 0:
                 hinted = False
-            if not (hinted and points["once"] == True):
-                onece = False
             points["hints"][k] = hints
         points["hinted"] = hinted
+        onece = hinted and points["once"] == True
         return hinted, onece
 
     def cover_points(self):
-- 
2.43.0


From 8dc246f18723eff28816d68683e68d3abb926a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:57 +0000
Subject: [PATCH 38/54] fix: PLRU named ways that do not exist if their number
 is no power of two

---
 toffee/utils/plru.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toffee/utils/plru.py b/toffee/utils/plru.py
index 2c1b3df..4fb0fae 100644
--- a/toffee/utils/plru.py
+++ b/toffee/utils/plru.py
@@ -21,4 +21,7 @@ class PLRU:
         pos = 0
         for i in range(self.bits_layer_num):
             pos = pos * 2 + self.bits[i][pos]
+            # There may be no ways in the upper half
+            if pos << (self.bits_layer_num - i - 1) >= self.ways_num:
+                pos -= 1
         return pos
-- 
2.43.0


From daba89a08f514e104607597b34a313e0cc26026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 39/54] fix: wait for the clock through a bundle that has a
 signal called event

---
 toffee/triggers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/toffee/triggers.py b/toffee/triggers.py
index dd93e99..1fb4c63 100644
--- a/toffee/triggers.py
+++ b/toffee/triggers.py
@@ -20,16 +20,16 @@ async def ClockCycles(item, ncycles=1):
         ncycles: The number of clock cycles to be waited for.
     """
 
-    # item is xpin
-    if hasattr(item, "event"):
+    # item is Bundle, which may have a signal named "event"
+    if isinstance(item, Bundle):
+        await item.step(ncycles)
+
+    # item is xpin or dut
+    elif hasattr(item, "event"):
         for _ in range(ncycles):
             await item.event.wait()
 
-    # item is Bundle
-    elif isinstance(item, Bundle):
-        await item.step(ncycles)
-
-    # item is dut
+    # item is event
     else:
         for _ in range(ncycles):
             await item.wait()
-- 
2.43.0


From 92702feb0bc2ded558db7cf399827051bedac25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 40/54] fix: report a failure in gathered tasks and executed
 groups even if others never end

---
 toffee/asynchronous.py | 7 ++-----
 toffee/executor.py     | 4 +---
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 9652947..c9b7fc4 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -315,11 +315,8 @@ async def gather(*coros):
     for coro in coros:
         all_tasks.append(create_task(coro))
 
-    results = []
-    for task in all_tasks:
-        results.append(await task)
-
-    return results
+    # A failure is reported at once, even if other tasks never end
+    return await asyncio.gather(*all_tasks)
 
 
 """
diff --git a/toffee/executor.py b/toffee/executor.py
index b70cec7..4c986c3 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -178,9 +178,7 @@ class Executor(MObject):
         if len(self.__uncompleted) == 0:
             return
 
-        results = []
-        for task in self.__uncompleted:
-            results.append(await task)
+        results = await asyncio.gather(*self.__uncompleted)
         self.__set_results(results)
 
     def get_results(self):
-- 
2.43.0


From 831c42ae92e7e8eaf3970857bf3daff6c4279169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 41/54] fix: hook decorators that are used for several
 functions gave all of them the name of the first

---
 toffee/model.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/toffee/model.py b/toffee/model.py
index 5f43ff0..b128054 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -45,13 +45,13 @@ def agent_hook(
     ], "sche_order must be 'model_first' or 'dut_first'"
 
     def decorator(func):
-        nonlocal agent_name
-
+        # The decorator may be used for several functions, each of them has its own name
         if agent_name == "" and agents == [] and methods == []:
-            agent_name = func.__name__
+            func.__agent_name__ = func.__name__
+        else:
+            func.__agent_name__ = agent_name
 
         func.__is_agent_hook__ = True
-        func.__agent_name__ = agent_name
         func.__agents__ = agents
         func.__methods__ = methods
         func.__matched__ = [False]
@@ -101,19 +101,19 @@ def driver_hook(
     ], "sche_order must be 'model_first' or 'dut_first'"
 
     def decorator(func):
-        nonlocal driver_path, agent_name, driver_name
-
-        if driver_path == "":
+        # The decorator may be used for several functions, each of them has its own path
+        path = driver_path
+        if path == "":
             if agent_name != "":
                 if driver_name != "":
-                    driver_path = f"{agent_name}.{driver_name}"
+                    path = f"{agent_name}.{driver_name}"
                 else:
-                    driver_path = f"{agent_name}.{func.__name__}"
+                    path = f"{agent_name}.{func.__name__}"
             else:
-                driver_path = func.__name__.replace("__", ".")
+                path = func.__name__.replace("__", ".")
 
         func.__is_driver_hook__ = True
-        func.__driver_path__ = driver_path
+        func.__driver_path__ = path
         func.__matched__ = [False]
         func.__priority__ = priority
         func.__sche_order__ = sche_order
@@ -154,20 +154,20 @@ def monitor_hook(
     assert priority in range(0, 100), "priority should be between 0 and 99"
 
     def decorator(func):
-        nonlocal monitor_path, agent_name, monitor_name
-
-        if monitor_path == "":
+        # The decorator may be used for several functions, each of them has its own path
+        path = monitor_path
+        if path == "":
             if agent_name != "":
                 if monitor_name != "":
-                    monitor_path = f"{agent_name}.{monitor_name}"
+                    path = f"{agent_name}.{monitor_name}"
                 else:
-                    monitor_path = f"{agent_name}.{func.__name__}"
+                    path = f"{agent_name}.{func.__name__}"
             else:
-                monitor_path = func.__name__.replace("__", ".")
+                path = func.__name__.replace("__", ".")
 
         func.__is_monitor_hook__ = True
         func.__priority__ = priority
-        func.__monitor_path__ = monitor_path
+        func.__monitor_path__ = path
         func.__matched__ = [False]
 
         return func
-- 
2.43.0


From 83723fc890d021be52d9df0aab518553d18ef38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:35 +0000
Subject: [PATCH 42/54] fix: Executor keeps no empty group of a coroutine that
 was refused

---
 toffee/executor.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 4c986c3..ec7a7c0 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -212,9 +212,6 @@ class Executor(MObject):
             if driver is not None:
                 sche_group = f"{driver.agent_name}.{sche_group}"
 
-        if sche_group not in self.__coros:
-            self.__coros[sche_group] = []
-
         if priority is not None:
             assert 0 <= priority <= 99, "Priority should be between 0 and 99"
 
@@ -233,7 +230,8 @@ class Executor(MObject):
                 driver is not None
             ), f"{coro_name} is not a driver function, cannot set sche_order"
 
-        self.__coros[sche_group].append((coro, sche_order, priority))
+        # A coroutine that is refused must not leave an empty group behind
+        self.__coros.setdefault(sche_group, []).append((coro, sche_order, priority))
 
     @staticmethod
     async def __sequential_execution_all(*tasks, complete_event=None):
-- 
2.43.0


From 9d88b1ce3f2e9a9d435a89bb2aa2ccc3f4ab4a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:59 +0000
Subject: [PATCH 43/54] fix: report a coroutine that is hooked to a monitor
 instead of dropping it

---
 toffee/_base_agent.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index df212dc..ca23758 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -237,11 +237,17 @@ class Monitor(BaseAgent):
                 await model_info["monitor_port"].put(ret)
 
             for agent_hook in model_info["agent_hook"]:
+                if inspect.iscoroutinefunction(agent_hook):
+                    assert False, "agent_hook should not be a coroutine function"
+
                 add_priority_task(
                     async_wrapper(agent_hook, self.path, ret), agent_hook.__priority__
                 )
 
             if monitor_hook := model_info["monitor_hook"]:
+                if inspect.iscoroutinefunction(monitor_hook):
+                    assert False, "monitor_hook should not be a coroutine function"
+
                 add_priority_task(
                     async_wrapper(monitor_hook, ret), monitor_hook.__priority__
                 )
-- 
2.43.0


From 9752c182a3f02ce35db02f383e90c4bf8ff3a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 44/54] fix: call the hooks of a model that also has ports for
 the driver

---
 toffee/_base_agent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index ca23758..6762e60 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -129,7 +129,9 @@ class Driver(BaseAgent):
         for _, model_info in self.model_infos.items():
             if model_info["driver_port"] or model_info["agent_port"]:
                 await self.__drive_single_model_ports(model_info, arg_list, kwarg_list)
-            else:
+
+            # A model may have ports and hooks for the same driver
+            if model_info["driver_hook"] or model_info["agent_hook"]:
                 if driver_hook := model_info["driver_hook"]:
                     if (
                         driver_hook.__sche_order__ == "model_first"
-- 
2.43.0


From 98abd5258ae73c2dbde5ee26249a553e422b6230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:20 +0000
Subject: [PATCH 45/54] fix: refuse a list of a wrong length for a bundle list

---
 toffee/bundle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index f84bd7c..c09b3d9 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -133,6 +133,9 @@ class BundleList:
             self.bundles.append(bundle.from_prefix(name))
 
     def assign(self, value, multilevel=True):
+        assert len(value) == len(
+            self.bundles
+        ), "value length must match bundle list length"
         for i, bundle in enumerate(self.bundles):
             bundle.assign(value[i], multilevel)
 
-- 
2.43.0


From f26f9c7687c2457b6a0ad7aafcaf897608161e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:06 +0000
Subject: [PATCH 46/54] fix: the text of a bundle with unconnected signals of a
 signal list

---
 toffee/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index c09b3d9..b71e36c 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1194,7 +1194,7 @@ class Bundle(MObject):
 
         signals = ", ".join(
             [
-                f"{signal}: {getattr(self, signal)}"
+                f"{signal}: {getattr(self, signal, UnconnectedSignal())}"
                 for signal in self.current_level_signals
             ]
         )
-- 
2.43.0


From 89afe96868b5153be387990f85936088d1b529bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:07 +0000
Subject: [PATCH 47/54] fix: report the functions of a bin in the same order in
 every run

---
 toffee/funcov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index 92470f3..d68c67f 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -378,7 +378,7 @@ class CovGroup(object):
                 bins = [bin_key for bin_key in available_bins if pattern.match(bin_key)]
             assert len(bins) > 0, "No bin matched for pattern: %s" % b_name
             matched_bins.extend(bins)
-        for b_name in list(set(matched_bins)):
+        for b_name in dict.fromkeys(matched_bins):
             if b_name not in point["functions"]:
                 point["functions"][b_name] = set()
             if not isinstance(func, (list, tuple)):
@@ -533,7 +533,7 @@ class CovGroup(object):
         def collect_functions(v):
             ret = {}
             for k, d in v["functions"].items():
-                ret[k] = list(d)
+                ret[k] = sorted(d)
             return ret
 
         ret["points"] = [
-- 
2.43.0


From 3220a96e8a7856722f95e52bf906c27de89fdeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:07 +0000
Subject: [PATCH 48/54] fix: generate the same code for the same tree in every
 run

---
 scripts/bundle_code_intel_gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/bundle_code_intel_gen.py b/scripts/bundle_code_intel_gen.py
index 0a936fc..d94d53c 100644
--- a/scripts/bundle_code_intel_gen.py
+++ b/scripts/bundle_code_intel_gen.py
@@ -50,7 +50,7 @@ class MProxy:
 # bundle_names_counter: store the bundle name, which might be useful in the future
 def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
     leaf = 0
-    sons = set()
+    sons = {}
     for son_name in node:
 
         if type(node[son_name]) == dict:
@@ -147,7 +147,7 @@ def visit(node, logs, insides, prefix, bundle_names_counter, rp: MProxy):
                     bundle_names_counter[0] += 1
 
             insides[inside_hash][1].append(whole_name)
-            sons.add(son_hash)
+            sons[son_hash] = None
         else:
 
             leaf |= 1  # leaf
-- 
2.43.0


From 91016b03f033af27060456b5fd24872686523705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 49/54] fix: no error is reported when a bundle is bound again

---
 toffee/bundle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index b71e36c..d5ba846 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1369,6 +1369,7 @@ class Bundle(MObject):
             for bundle in bundle_list.bundles:
                 bundle.__unbind_all()
         self.__clock_event = None
+        self.__dut_instance__ = None
 
     def __bind_from_signal_list(
         self,
-- 
2.43.0


From c1d992f2d5bb12bfaf1b003d568f7ce3abc8df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:38 +0000
Subject: [PATCH 50/54] fix: clock several designs of a test together and stop
 the clock with the test

---
 toffee/asynchronous.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index c9b7fc4..968fca2 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -172,7 +172,7 @@ Using the asynchronous event logic defined above, the external asynchronous inte
 """
 
 
-async def __clock_loop(dut):
+async def __clock_loop(duts):
     """
     The clock loop function, which is the main loop of the asynchronous event.
     """
@@ -181,11 +181,16 @@ async def __clock_loop(dut):
     while not hasattr(asyncio.get_event_loop(), "test_done"):
         await asyncio.sleep(0)
 
-    while True:
+    # The clock ends with the test, the event loop may be used for further tests
+    test_done = False
+    while not test_done:
         await execute_all_coros()
-        dut.Step(1)
-        dut.event.set()
-        dut.event.clear()
+        test_done = asyncio.get_event_loop().test_done
+        for dut in duts:
+            dut.Step(1)
+        for dut in duts:
+            dut.event.set()
+            dut.event.clear()
 
 
 create_task = asyncio.create_task
@@ -199,7 +204,14 @@ def start_clock(dut):
     loop = asyncio.get_event_loop()
     loop.global_clock_event = dut.event
 
-    task = create_task(__clock_loop(dut))
+    # All DUTs of a test share one clock loop, several of them would wait for each other
+    if any(task.get_name() == "__clock_loop" for task in asyncio.all_tasks()):
+        if all(dut is not clocked_dut for clocked_dut in loop.clocked_duts):
+            loop.clocked_duts.append(dut)
+        return
+
+    loop.clocked_duts = [dut]
+    task = create_task(__clock_loop(loop.clocked_duts))
     task.set_name("__clock_loop")
 
 
@@ -269,6 +281,7 @@ async def main_coro(test, env_handle=None):
     loop = asyncio.get_event_loop()
     if hasattr(loop, "global_clock_event"):
         await loop.global_clock_event.wait()
+        del loop.global_clock_event
 
     summary()
 
-- 
2.43.0


From bfff5660667cfb2e668b079622ea3f3dc4458ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:38 +0000
Subject: [PATCH 51/54] fix: stop sampling delayed signals when the test has
 ended

---
 toffee/asynchronous.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 968fca2..db10e6c 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -283,6 +283,9 @@ async def main_coro(test, env_handle=None):
         await loop.global_clock_event.wait()
         del loop.global_clock_event
 
+    # The signals of this test must not be sampled by further tests of the event loop
+    loop.delayer_list.clear()
+
     summary()
 
     return ret
-- 
2.43.0


From 5729c1bc88f904e2504a9e59625f753ad5a688ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:17 +0000
Subject: [PATCH 52/54] fix: keep the write mode of sub-bundles that is set
 before they are bound

---
 toffee/bundle.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index d5ba846..867453b 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -158,6 +158,7 @@ class BundleList:
             bundle = old_bundle.__class__()
             bundle.current_level_signals = old_bundle.current_level_signals
             bundle._Bundle__connect_method = old_bundle._Bundle__connect_method
+            bundle.write_mode = old_bundle.write_mode
             bundle_list.bundles.append(bundle)
         return bundle_list
 
@@ -419,6 +420,7 @@ class Bundle(MObject):
             new_sub_bundle = sub_bundle.__class__()
             new_sub_bundle.current_level_signals = sub_bundle.current_level_signals
             new_sub_bundle.__connect_method = sub_bundle.__connect_method
+            new_sub_bundle.write_mode = sub_bundle.write_mode
             setattr(self, sub_bundle_name, new_sub_bundle)
 
         # Recreate signal lists for each instance
@@ -635,8 +637,25 @@ class Bundle(MObject):
         self.write_mode = write_mode
         self.__set_all_signals_write_mode(write_mode)
 
+        # The last setting counts, also for the sub-bundles when they are bound again
+        for sub_bundle in self.__all_bundles_below():
+            sub_bundle.write_mode = write_mode
+
         return self
 
+    def __all_bundles_below(self):
+        """
+        Yield the bundles of all levels below this bundle, each after the one it belongs to.
+        """
+
+        for _, sub_bundle in self.__all_sub_bundles():
+            yield sub_bundle
+            yield from sub_bundle.__all_bundles_below()
+        for _, bundle_list in self.__all_bundle_lists():
+            for bundle in bundle_list.bundles:
+                yield bundle
+                yield from bundle.__all_bundles_below()
+
     def __set_all_signals_write_mode(self, write_mode: WriteMode):
         """
         Set the write mode of all signals in the bundle.
@@ -732,8 +751,9 @@ class Bundle(MObject):
         )
 
         self.bound = True
-        if self.write_mode is not None:
-            self.__set_all_signals_write_mode(self.write_mode)
+        for bundle in [self, *self.__all_bundles_below()]:
+            if bundle.write_mode is not None:
+                bundle.__set_all_signals_write_mode(bundle.write_mode)
         self.make_requset_response_for(dut)
         return self
 
-- 
2.43.0


From a3aedfc98fec6a9040fb7675cb8e430ffa8587d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:37 +0000
Subject: [PATCH 53/54] fix: do not evaluate the properties of bundles, agents,
 envs and models

---
 toffee/_base.py  | 15 +++++++++++++++
 toffee/agent.py  |  5 +++--
 toffee/bundle.py |  9 +++++----
 toffee/env.py    |  3 ++-
 toffee/model.py  |  3 ++-
 5 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/toffee/_base.py b/toffee/_base.py
index fd5a6e5..acf969f 100644
--- a/toffee/_base.py
+++ b/toffee/_base.py
@@ -1,5 +1,20 @@
 __all__ = ["MObject"]
 
+from functools import cached_property
+
 
 class MObject(object):
     pass
+
+
+def attribute_names(obj):
+    """
+    List the names of the attributes of an object. Properties are left out, they are defined by the user on top of the
+    other attributes and must not be evaluated before those are ready.
+    """
+
+    return [
+        name
+        for name in dir(obj)
+        if not isinstance(getattr(type(obj), name, None), (property, cached_property))
+    ]
diff --git a/toffee/agent.py b/toffee/agent.py
index 61c22ff..970ab00 100644
--- a/toffee/agent.py
+++ b/toffee/agent.py
@@ -4,6 +4,7 @@ __all__ = [
     "monitor_method",
 ]
 
+from ._base import attribute_names
 from ._base_agent import Driver
 from ._base_agent import Monitor
 from .logger import warning
@@ -85,7 +86,7 @@ class Agent:
             A generator that yields all driver method in the agent.
         """
 
-        for attr in dir(self):
+        for attr in attribute_names(self):
             if hasattr(getattr(self, attr), "__is_driver_decorated__"):
                 yield getattr(self, attr)
 
@@ -97,7 +98,7 @@ class Agent:
             A generator that yields all monitor method in the agent.
         """
 
-        for attr in dir(self):
+        for attr in attribute_names(self):
             if hasattr(getattr(self, attr), "__is_monitor_decorated__"):
                 yield getattr(self, attr)
 
diff --git a/toffee/bundle.py b/toffee/bundle.py
index 867453b..e952252 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -18,6 +18,7 @@ from typing import Optional
 from typing import Union
 
 from ._base import MObject
+from ._base import attribute_names
 from .logger import *
 
 
@@ -1132,7 +1133,7 @@ class Bundle(MObject):
 
         self.current_level_signals = [signal for signal in self.signals]
 
-        for signal in dir(self):
+        for signal in attribute_names(self):
             if isinstance(getattr(self, signal), Signal):
                 self.current_level_signals.append(signal)
 
@@ -1256,7 +1257,7 @@ class Bundle(MObject):
             sub-bundle and sub_bundle is the sub-bundle itself.
         """
 
-        for attr in dir(self):
+        for attr in attribute_names(self):
             if isinstance(getattr(self, attr), Bundle):
                 yield (attr, getattr(self, attr))
 
@@ -1269,7 +1270,7 @@ class Bundle(MObject):
             signal list and signal_list is the signal list itself.
         """
 
-        for attr in dir(self):
+        for attr in attribute_names(self):
             if isinstance(getattr(self, attr), SignalList):
                 yield (attr, getattr(self, attr))
 
@@ -1282,7 +1283,7 @@ class Bundle(MObject):
             bundle list and bundle_list is the bundle list itself.
         """
 
-        for attr in dir(self):
+        for attr in attribute_names(self):
             if isinstance(getattr(self, attr), BundleList):
                 yield (attr, getattr(self, attr))
 
diff --git a/toffee/env.py b/toffee/env.py
index f930099..6f4dd2d 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -2,6 +2,7 @@ __all__ = ["Env"]
 
 from .agent import Agent
 from ._base import MObject
+from ._base import attribute_names
 from .logger import error
 from .logger import warning
 from .model import Model
@@ -89,7 +90,7 @@ class Env(MObject):
             A generator that yields all agent names in the env.
         """
 
-        for attr in dir(self):
+        for attr in attribute_names(self):
             if isinstance(getattr(self, attr), Agent):
                 yield attr
 
diff --git a/toffee/model.py b/toffee/model.py
index b128054..11ff1c7 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -8,6 +8,7 @@ __all__ = [
     "MonitorPort",
 ]
 
+from ._base import attribute_names
 from .asynchronous import Component
 from .asynchronous import Queue
 from .logger import warning, error
@@ -346,7 +347,7 @@ class Model(Component):
         self.all_driver_hooks.clear()
         self.all_monitor_hooks.clear()
 
-        for attr in dir(self):
+        for attr in attribute_names(self):
             attr_value = getattr(self, attr)
 
             if isinstance(attr_value, Port):
-- 
2.43.0


From 2d70dd66b90b34ab0452dc39c0983b599bb2f361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:00 +0000
Subject: [PATCH 54/54] fix: keep the bins of a watch point apart from the dict
 of the caller

---
 toffee/funcov.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index d68c67f..8ca2a0f 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -283,6 +283,8 @@ class CovGroup(object):
             if not callable(bins):
                 raise ValueError("Invalid value %s for key %s" % (bins, key))
             bins = {"anonymous": bins}
+        # The caller may go on to use its dict, for example for the bins of another point
+        bins = dict(bins)
         for k, v in bins.items():
             if not isinstance(v, (list, tuple)):
                 if not callable(v):
-- 
2.43.0

