From d010fb96069f4286b9c439f41077864347f08424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 01/84] fix: MemoryFallback forgets its memory once it has a
 result

The memory survived SUCCEEDED/FAILED when the node was unticked before its next
tick, so a later run skipped children although the documentation limits the
memory to the time until a result.
---
 ros_bt_py/ros_bt_py/nodes/fallback.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/nodes/fallback.py b/ros_bt_py/ros_bt_py/nodes/fallback.py
index 9366cff..dfe6557 100644
--- a/ros_bt_py/ros_bt_py/nodes/fallback.py
+++ b/ros_bt_py/ros_bt_py/nodes/fallback.py
@@ -287,6 +287,8 @@ class MemoryFallback(FlowControl):
                 if state == BTNodeState.RUNNING:
                     self.last_running_child = index
                 elif state == BTNodeState.SUCCEEDED:
+                    # The memory only lasts until a result is reached
+                    self.last_running_child = 0
                     # untick all children after the one that triggered this
                     # condition
                     for untick_child in self.children[index + 1 :]:
@@ -297,6 +299,7 @@ class MemoryFallback(FlowControl):
                                 pass
                 return Ok(state)
         # If all children failed, we too fail
+        self.last_running_child = 0
         return Ok(BTNodeState.FAILED)
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
-- 
2.43.0


From 53efed1094c64a0feb6f041444f78bf444c4a533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 02/84] fix: NameSwitch and EnumSwitch stop their children when
 nothing matches

Both returned FAILED for an unmatched case while the child selected before kept
running in the background.
---
 ros_bt_py/ros_bt_py/nodes/fallback.py        | 7 +++++++
 ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py | 9 ++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/fallback.py b/ros_bt_py/ros_bt_py/nodes/fallback.py
index dfe6557..3d5901f 100644
--- a/ros_bt_py/ros_bt_py/nodes/fallback.py
+++ b/ros_bt_py/ros_bt_py/nodes/fallback.py
@@ -63,6 +63,13 @@ class NameSwitch(FlowControl):
                 name = n
         if name not in self.child_map:
             self.logwarn("Ticking without children. Is this really what you want?")
+            # Don't leave a previously selected child running
+            for child in self.children:
+                match child.untick():
+                    case Err(e):
+                        return Err(e)
+                    case Ok(_):
+                        pass
             return Ok(BTNodeState.FAILED)
 
         # If we've previously succeeded or failed, reset all children
diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
index 888ea4a..e3c51e1 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
@@ -123,12 +123,19 @@ class EnumSwitch(FlowControl):
             e_name = self.pchild_dict[case]
         else:
             self.logwarn("Input did not match possible children.")
-            return Ok(BTNodeState.FAILED)
+            e_name = None
 
         if e_name not in self.child_map:
             self.logwarn(
                 "Ticking without matching child. Is this really what you want?"
             )
+            # Don't leave a previously selected child running
+            for child in self.children:
+                match child.untick():
+                    case Err(e):
+                        return Err(e)
+                    case Ok(_):
+                        pass
             return Ok(BTNodeState.FAILED)
 
         # If we've previously succeeded or failed, reset all children
-- 
2.43.0


From 5a2e38aef1b4401c46f77a17a78820f43466b07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 03/84] fix: EnumSwitch finds children named after an aliased
 constant

Message constants can share a value (NodeState.SUCCEEDED and NodeState.SUCCESS).
Only the alphabetically last alias was considered, so a child named after any
other one was never ticked.
---
 ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
index e3c51e1..0f6d75a 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
@@ -97,11 +97,14 @@ class EnumSwitch(FlowControl):
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         # Create possible child dict
         self.msg = self._message_class()
-        self.pchild_dict = {
-            getattr(self.msg, entry): entry for entry in self.possible_children
-        }
-
         self.child_map = {child.name.split(".")[-1]: child for child in self.children}
+        self.pchild_dict = {}
+        for entry in self.possible_children:
+            # Multiple constants can share a value, prefer the one that names a child
+            value = getattr(self.msg, entry)
+            if value not in self.pchild_dict or entry in self.child_map:
+                self.pchild_dict[value] = entry
+
         for child in self.children:
             if child.name.split(".")[-1] not in self.possible_children:
                 self.logerr("Unwanted child detected please fix name")
-- 
2.43.0


From db41de485fd4f7abcd052e9d5d246f6eeb16ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 04/84] fix: ThrottleSuccess forwards the result of its child

The Result of the child's tick was compared with plain states, so the decorator
always returned FAILED, even for a RUNNING or broken child.
---
 ros_bt_py/ros_bt_py/ros_nodes/throttle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
index e1f5162..363b0db 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
@@ -140,9 +140,9 @@ class ThrottleSuccess(Decorator):
         ):
             for child in self.children:
                 result = child.tick()
-                if result == BTNodeState.RUNNING:
+                if result.is_err() or result.ok() == BTNodeState.RUNNING:
                     return result
-                if result == BTNodeState.SUCCEEDED:
+                if result.ok() == BTNodeState.SUCCEEDED:
                     self._last_success_tick = current_time
                     return result
         return Ok(BTNodeState.FAILED)
-- 
2.43.0


From 89ac74242f0f1f67eaaebeeb81c8cca303aa9ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 05/84] fix: Node.shutdown() skips _do_shutdown of
 uninitialized nodes and always descends

As documented, _do_shutdown is not called before setup: nodes that create their
resources in _do_setup raised AttributeError when a tree whose setup had failed
was shut down. An error in one node's _do_shutdown also no longer keeps its
children from being shut down.
---
 ros_bt_py/ros_bt_py/node.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 04179e1..1d16864 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -668,22 +668,24 @@ class Node(abc.ABC):
         with report_state:
             error = None
 
-            if self.state != BTNodeState.SHUTDOWN:
+            if self.state == BTNodeState.UNINITIALIZED:
+                # Nothing was set up, so there's nothing to clean up
+                self.state = BTNodeState.SHUTDOWN
+            elif self.state != BTNodeState.SHUTDOWN:
                 match self._do_shutdown():
                     case Err(e):
                         self.state = BTNodeState.BROKEN
                         error = e
                     case Ok(s):
                         self.state = s
-
-                match self.check_if_in_invalid_state(
-                    allowed_states=[BTNodeState.SHUTDOWN],
-                    action_name="shutdown()",
-                ):
-                    case Err(e):
-                        return Err(e)
-                    case Ok(None):
-                        pass
+                        match self.check_if_in_invalid_state(
+                            allowed_states=[BTNodeState.SHUTDOWN],
+                            action_name="shutdown()",
+                        ):
+                            case Err(e):
+                                error = e
+                            case Ok(None):
+                                pass
 
             for child in self.children:
                 match child.shutdown():
-- 
2.43.0


From b2939b6f886b9b981286be6b7efc38ec127d24e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 06/84] fix: DataContainer.set_value keeps a pending update
 flag

Assigning the current value again cleared the flag of an update that nobody had
processed yet, e.g. the one raised by Node.reset(), so wired nodes that act on
updated inputs (TopicPublisher, Watch, Action...) missed it.
---
 ros_bt_py/ros_bt_py/data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 5b6e54a..24735ee 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -263,8 +263,9 @@ class DataContainer(Generic[ANY], abc.ABC):
         #   returing an iterable of bools rather than a single bool
         if isinstance(has_changed, Iterable):
             has_changed = any(has_changed)
-        self._updated = has_changed
         if has_changed:
+            # Never clear the flag here, an earlier update may not be processed yet
+            self._updated = True
             self._value = deepcopy(value)
         return Ok(None)
 
-- 
2.43.0


From 35891c3e6399e57622a7fc9febdfd6518e3f89e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 07/84] fix: Parallel nodes can calculate their utility before
 setup

Optional and FindBestExecutor-style callers ask for the utility of nodes that
have not been set up; both Parallel classes raised AttributeError then.
---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index 8c528ec..7bdd3e7 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -161,10 +161,16 @@ class Parallel(FlowControl):
         return Ok(BTNodeState.IDLE)
 
     def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
-        if len(self.children) < self._needed_successes:
+        # This can be called before setup()
+        match self.inputs.get_value_as("needed_successes", int):
+            case Err(_):
+                return Err(BehaviorTreeException("needed_successes is not set"))
+            case Ok(i):
+                needed_successes = i
+        if len(self.children) < needed_successes:
             return Err(
                 BehaviorTreeException(
-                    f"Option value needed_successes ({self._needed_successes}) "
+                    f"Option value needed_successes ({needed_successes}) "
                     " cannot be larger than "
                     f"the number of children ({len(self.children)})"
                 )
@@ -209,7 +215,7 @@ class Parallel(FlowControl):
         if not bounds.can_execute:
             return Ok(bounds)
 
-        success_threshold = self._needed_successes
+        success_threshold = needed_successes
 
         best_success_group = sorted(child_bounds, key=lambda b: b.lower_bound_success)[
             :success_threshold
@@ -395,10 +401,16 @@ class ParallelFailureTolerance(FlowControl):
         return Ok(BTNodeState.IDLE)
 
     def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
-        if len(self.children) < self._needed_successes:
+        # This can be called before setup()
+        match self.inputs.get_value_as("needed_successes", int):
+            case Err(_):
+                return Err(BehaviorTreeException("needed_successes is not set"))
+            case Ok(i):
+                needed_successes = i
+        if len(self.children) < needed_successes:
             return Err(
                 BehaviorTreeException(
-                    f"Option value needed_successes ({self._needed_successes})"
+                    f"Option value needed_successes ({needed_successes})"
                     " cannot be larger than "
                     f"the number of children ({len(self.children)})"
                 )
@@ -442,7 +454,7 @@ class ParallelFailureTolerance(FlowControl):
         if not bounds.can_execute:
             return Ok(bounds)
 
-        success_threshold = self._needed_successes
+        success_threshold = needed_successes
 
         best_success_group = sorted(child_bounds, key=lambda b: b.lower_bound_success)[
             :success_threshold
-- 
2.43.0


From 858bb35af5c1a9c8172630367adc1bae471b9412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 08/84] fix: ParallelFailureTolerance bases its utility on
 tolerate_failures

Its failure bounds were those of Parallel, i.e. for N - needed_successes
tolerated failures instead of the configured number.
---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index 7bdd3e7..613c71e 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -407,6 +407,11 @@ class ParallelFailureTolerance(FlowControl):
                 return Err(BehaviorTreeException("needed_successes is not set"))
             case Ok(i):
                 needed_successes = i
+        match self.inputs.get_value_as("tolerate_failures", int):
+            case Err(_):
+                return Err(BehaviorTreeException("tolerate_failures is not set"))
+            case Ok(i):
+                tolerate_failures = i
         if len(self.children) < needed_successes:
             return Err(
                 BehaviorTreeException(
@@ -481,13 +486,13 @@ class ParallelFailureTolerance(FlowControl):
         # Now we do the same for the failures - the only difference
         # here is that failure_threshold is
         #
-        # 1 + (num_children - success_threshold)
+        # 1 + tolerate_failures
         #
-        # because of the semantics of Parallel explained in the class
-        # docstring
+        # because of the semantics of ParallelFailureTolerance explained
+        # in the class docstring
 
-        # The minimum number of child failures for an overall Parallel failure
-        failure_threshold = 1 + (len(self.children) - success_threshold)
+        # The minimum number of child failures for an overall failure
+        failure_threshold = 1 + tolerate_failures
 
         best_failure_group = sorted(child_bounds, key=lambda b: b.lower_bound_failure)[
             :failure_threshold
-- 
2.43.0


From eee372a8ae7bfb70b16c1a9b34327f90b045415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 09/84] fix: nested iterable types survive serialization

---
 ros_bt_py/ros_bt_py/data_types.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 24735ee..8aaa455 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -782,17 +782,18 @@ class IterableContainer(BuiltinContainer[ITER]):
                 f"Message {msg} is for an iterable but doesn't specify proper constraints"
             )
         inner_msg = deepcopy(msg)
-        inner_msg.type_identifier = msg.value_type_identifier[0]
-        inner_msg.value_type_identifier = msg.value_type_identifier[1:]
-        inner_msg.iterable_max_length = msg.iterable_max_length[1:]
-        inner_msg.iterable_strict_length = msg.iterable_strict_length[1:]  # type: ignore
+        # The constraints of the outermost iterable are appended last
+        inner_msg.type_identifier = msg.value_type_identifier[-1]
+        inner_msg.value_type_identifier = msg.value_type_identifier[:-1]
+        inner_msg.iterable_max_length = msg.iterable_max_length[:-1]
+        inner_msg.iterable_strict_length = msg.iterable_strict_length[:-1]  # type: ignore
         match get_iotype_for_msg(inner_msg):
             case Err(e):
                 return Err(e)
             case Ok(c):
                 config["element_type"] = c
-        config["max_length"] = msg.iterable_max_length[0]
-        config["strict_length"] = msg.iterable_strict_length[0]  # type: ignore
+        config["max_length"] = msg.iterable_max_length[-1]
+        config["strict_length"] = msg.iterable_strict_length[-1]  # type: ignore
         return Ok(config)
 
     def is_compatible(
-- 
2.43.0


From 560b643284b824d5cd6b758a1c6ae136585d5485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 10/84] fix: malformed serialized types and values are reported
 as Err

---
 ros_bt_py/ros_bt_py/data_types.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 8aaa455..38a3f49 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -179,11 +179,14 @@ class DataContainer(Generic[ANY], abc.ABC):
             raise NotImplementedError("Called on abstract base class")
         if msg.type_identifier != cls.type_identifier:
             return Err("Wrong type identifier")
-        match cls._dict_from_msg(msg):
-            case Err(e):
-                return Err(e)
-            case Ok(d):
-                obj = cls(**d)
+        try:
+            match cls._dict_from_msg(msg):
+                case Err(e):
+                    return Err(e)
+                case Ok(d):
+                    obj = cls(**d)
+        except Exception as e:
+            return Err(f"Message {msg} doesn't describe a valid type: {e}")
         return Ok(obj)
 
     @abc.abstractmethod
@@ -347,9 +350,17 @@ class DataContainer(Generic[ANY], abc.ABC):
         First pass the given serialized value to :obj:`json.loads`,
         then to the :obj:`self._deserialize_value` helper function,
         and finally to :obj:`self.set_value`.
+
+        Serialized values come from files and requests, so everything that is wrong with them
+        is reported as an :obj:`Err`.
         """
-        value = json.loads(ser_value)
-        return self._deserialize_value(value).and_then(lambda val: self.set_value(val))
+        try:
+            value = json.loads(ser_value)
+            return self._deserialize_value(value).and_then(
+                lambda val: self.set_value(val)
+            )
+        except Exception as e:
+            return Err(f"Value {ser_value} can't be deserialized: {e}")
 
     @typechecked
     def _deserialize_value(self, value: Any) -> Result[ANY, str]:
@@ -1010,8 +1021,8 @@ def get_iotype_for_dict(value_dict: dict) -> Result[DataContainer, str]:
                     args_dict[ELEMENT_KEY] = c
         io_instance = io_class(**args_dict)
         return Ok(io_instance)
-    except (KeyError, TypeError) as e:
-        return Err(str(e))
+    except Exception as e:
+        return Err(f"Dict {value_dict} doesn't describe a valid type: {e}")
 
 
 @typechecked
-- 
2.43.0


From 224e43f0b50f079160d4e2ad25492deeb813bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 11/84] fix: string compatibility requires the valid values to
 be at least as narrow

---
 ros_bt_py/ros_bt_py/data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 38a3f49..0b66d2f 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -663,8 +663,8 @@ class StringContainer(BuiltinContainer[STRING]):
         if self.valid_values is not None:
             if other.valid_values is None:
                 return False
-            for val in self.valid_values:
-                if val not in other.valid_values:
+            for val in other.valid_values:
+                if val not in self.valid_values:
                     return False
         return True
 
-- 
2.43.0


From 4ed3f0e4e0ad636b006cf46074dbc5d77015117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 12/84] fix: GenericType.set_value reports a value that wasn't
 assigned

---
 ros_bt_py/ros_bt_py/data_types.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 0b66d2f..03c2d5a 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -1154,8 +1154,7 @@ class GenericType(TypeContainerMixin, BuiltinContainer[dict]):
             case Err(e):
                 return Err(e)
             case Ok(None):
-                super().set_value(value)
-                return Ok(None)
+                return super().set_value(value)
 
     def is_compatible(
         self, other: DataContainer
-- 
2.43.0


From 36cbb33bee848bebed81fb702c4e24a80e7ac799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 13/84] fix: numeric sequences of ROS messages can be
 serialized and assigned

---
 ros_bt_py/ros_bt_py/data_types.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 03c2d5a..8ed30e4 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -859,9 +859,12 @@ class ListType(IterableContainer[list[Any]]):
     _value = []
 
     @typechecked
-    def set_value(self, value: list | array.array) -> Result[None, str]:
-        if isinstance(value, array.array):
-            value = list(value)
+    def set_value(self, value: Any) -> Result[None, str]:
+        if isinstance(value, array.array) or hasattr(value, "tolist"):
+            # Numeric sequences in ROS messages are either `array.array` or numpy arrays
+            value = value.tolist()
+        if not isinstance(value, list):
+            return Err(f"Given value {value} isn't of type {self._type}")
         for item in value:
             match self._element_type.set_value(item):
                 case Err(e):
@@ -871,7 +874,10 @@ class ListType(IterableContainer[list[Any]]):
         return super().set_value(value)
 
     @typechecked
-    def _serialize_value(self, value: list[Any]) -> list[Any]:
+    def _serialize_value(self, value: Any) -> list[Any]:
+        if isinstance(value, array.array) or hasattr(value, "tolist"):
+            # Numeric sequences in ROS messages are either `array.array` or numpy arrays
+            value = value.tolist()
         serialized_list = []
         for item in value:
             serialized_list.append(self._element_type._serialize_value(item))
-- 
2.43.0


From 78bf59f8e14b2f6a0f346d2bc6ec0b07adbdbec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 14/84] fix: DictType can serialize values that aren't strings

---
 ros_bt_py/ros_bt_py/data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 8ed30e4..ef88ffe 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -918,8 +918,8 @@ class DictType(IterableContainer[dict[str, Any]]):
         return super().set_value(cleaned_keys)
 
     @typechecked
-    def _serialize_value(self, value: dict[str, Any]) -> dict[str, str]:
-        serialized_dict: dict[str, str] = {}
+    def _serialize_value(self, value: dict[str, Any]) -> dict[str, Any]:
+        serialized_dict: dict[str, Any] = {}
         for key, item in value.items():
             serialized_dict[key] = self._element_type._serialize_value(item)
         return serialized_dict
-- 
2.43.0


From 325c964fd158fce68c98b07d0939a0a97d58ffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 15/84] fix: Node.from_msg reports every error of node
 construction

---
 ros_bt_py/ros_bt_py/node.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 1d16864..f4e631a 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1066,6 +1066,10 @@ class Node(abc.ABC):
             )
         except BehaviorTreeException as ex:
             return Err(ex)
+        except Exception as ex:
+            return Err(
+                BehaviorTreeException(f"Failed to instantiate node from message: {ex}")
+            )
 
         return Ok(node_instance)
 
-- 
2.43.0


From 7b7c2ef99ea57bfe454afb1886989b0a8ed47454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 16/84] fix: element types of iterables ignore the static flag
 of the iterable

---
 ros_bt_py/ros_bt_py/data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index ef88ffe..0d793b6 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -767,7 +767,9 @@ class IterableContainer(BuiltinContainer[ITER]):
             self._element_type = element_type
 
         # Force element_type to accept dynamic values
+        #   and keep its flags out of compatibility checks
         self._element_type.allow_dynamic = True
+        self._element_type.allow_static = True
         self._element_type.is_static = False
 
         if max_length is not None:
-- 
2.43.0


From 4dfcbd3f811dcac797f49c06642ca89749575023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 17/84] fix: nested dicts with keys that aren't strings can be
 serialized

---
 ros_bt_py/ros_bt_py/data_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 0d793b6..6edffa3 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -920,10 +920,11 @@ class DictType(IterableContainer[dict[str, Any]]):
         return super().set_value(cleaned_keys)
 
     @typechecked
-    def _serialize_value(self, value: dict[str, Any]) -> dict[str, Any]:
+    def _serialize_value(self, value: dict) -> dict[str, Any]:
         serialized_dict: dict[str, Any] = {}
         for key, item in value.items():
-            serialized_dict[key] = self._element_type._serialize_value(item)
+            # Keys are only coerced on the outermost dict when the value is assigned
+            serialized_dict[str(key)] = self._element_type._serialize_value(item)
         return serialized_dict
 
     @typechecked
-- 
2.43.0


From 6c8730ff0092bfd1cfd669221ee5d110c4a335f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 18/84] fix: Node.add_child clamps negative indices to the
 front

---
 ros_bt_py/ros_bt_py/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index f4e631a..da818dd 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -812,7 +812,7 @@ class Node(abc.ABC):
             at_index = len(self.children)
 
         if at_index < 0:
-            at_index += len(self.children) + 1
+            at_index = max(0, at_index + len(self.children) + 1)
         # Use array slicing to efficiently insert child at the correct position
         # (the value we assign needs to be a list for this to work)
         self.children[at_index:at_index] = [child]
-- 
2.43.0


From 18be2dfc9c7a08319cd5f0a1cf4f0d0433e105b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 19/84] fix: load_node_module reports empty and relative module
 names

---
 ros_bt_py/ros_bt_py/node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index da818dd..3b6eee8 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1294,8 +1294,8 @@ def load_node_module(package_name: str) -> Optional[ModuleType]:
     """
     try:
         return importlib.import_module(package_name)
-    except (ImportError, ValueError) as exc:
-        rclpy.logging.get_logger(package_name).error(
+    except (ImportError, ValueError, TypeError) as exc:
+        rclpy.logging.get_logger(package_name or __name__).error(
             f'Could not load node module "{package_name}": {repr(exc)}',
             throttle_duration_sec=30,
         )
-- 
2.43.0


From 3624803a5c64353522ac422f48a0ab0d31abd007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 20/84] fix: edits that fail leave the tree as it was

---
 ros_bt_py/ros_bt_py/subtree_manager.py   | 21 +++++++++++-
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 43 +++++++++++++++++++++++-
 2 files changed, 62 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/subtree_manager.py b/ros_bt_py/ros_bt_py/subtree_manager.py
index 32f2ff4..8cca04d 100644
--- a/ros_bt_py/ros_bt_py/subtree_manager.py
+++ b/ros_bt_py/ros_bt_py/subtree_manager.py
@@ -28,7 +28,7 @@
 
 from copy import deepcopy
 from threading import Lock
-from typing import Any, Dict
+from typing import Any, Callable, Dict
 import uuid
 
 from typeguard import typechecked
@@ -137,6 +137,25 @@ class SubtreeManager(object):
             self.subtree_data.clear()
             self.nested_subtree_managers.clear()
 
+    def remember_subtrees(self) -> Callable[[], None]:
+        """Return a function that restores the subtrees as they are now."""
+        dicts = (
+            self.subtree_structures,
+            self.subtree_states,
+            self.subtree_data,
+            self.nested_subtree_managers,
+        )
+        with self._lock:
+            copies = [dict(d) for d in dicts]
+
+        def restore() -> None:
+            with self._lock:
+                for current, copy in zip(dicts, copies):
+                    current.clear()
+                    current.update(copy)
+
+        return restore
+
     def remove_subtree(self, node_id: uuid.UUID):
 
         def query_dict(node_id: uuid.UUID, dict: dict[uuid.UUID, Any]):
diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 609a4fb..5bac42f 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -115,7 +115,11 @@ def is_edit_service(func):
             return response
         try:
             with self._edit_lock:
-                return func(self, request, response, **kwds)
+                restore = self._remember_tree()
+                response = func(self, request, response, **kwds)
+                if not response.success:
+                    restore()
+                return response
         finally:
             # TODO Find a way to check if we're the outermost level
             #   to reduce repeating publish calls
@@ -471,6 +475,43 @@ class TreeExecManager:
             for node_id, node in self.nodes.items()
         }
 
+    def _remember_tree(self) -> Callable[[], None]:
+        """Return a function that restores the tree as it is now."""
+        nodes = dict(self.nodes)
+        links = {n_id: (n.parent, list(n.children)) for n_id, n in nodes.items()}
+        old = self._tree_structure
+        structure = {
+            field: getattr(old, field)
+            for field in (
+                "name",
+                "path",
+                "root_id",
+                "tick_frequency_hz",
+                "public_inputs",
+                "public_outputs",
+            )
+        }
+        wirings = list(self.wirings)
+        node_states = self._tree_state.node_states
+        wiring_data = self._tree_data.wiring_data
+        restore_subtrees = self.subtree_manager.remember_subtrees()
+
+        def restore() -> None:
+            self.nodes = nodes
+            for n_id, (parent, children) in links.items():
+                nodes[n_id].parent = parent
+                nodes[n_id].children = children
+            self._sync_children()
+            self.name = structure["name"]
+            for field, value in structure.items():
+                setattr(self._tree_structure, field, value)
+            self.wirings = wirings
+            self._tree_state.node_states = node_states
+            self._tree_data.wiring_data = wiring_data
+            restore_subtrees()
+
+        return restore
+
     def set_diagnostics_name(self) -> None:
         """
         Set the tree name for ROS diagnostics.
-- 
2.43.0


From 365a76e9f70eac024fb50d6811ec9ceed4c9893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 21/84] fix: add_node reports the id of the new node

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 35b67db..76a4f54 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -122,6 +122,7 @@ class TreeEditManager(TreeExecManager):
 
         response.success = internal_response.success
         response.error_message = internal_response.error_message
+        response.node_id = internal_response.node_id
         return response
 
     @is_edit_service
-- 
2.43.0


From 6eda988bd24f7970637dcbc4a8bef3e1075fafd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 22/84] fix: add_node_at_index finds the children it was asked
 to adopt

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 40 +++++++++++++-----------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 76a4f54..91700dd 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -192,16 +192,27 @@ class TreeEditManager(TreeExecManager):
 
         # Add children from msg to node
         missing_children = []
+        ancestors = {instance.node_id}
+        ancestor = instance.parent
+        while ancestor is not None and ancestor.node_id not in ancestors:
+            ancestors.add(ancestor.node_id)
+            ancestor = ancestor.parent
         for child_id in request.node.child_ids:
-            if child_id in self.nodes:
-                match instance.add_child(self.nodes[child_id]):
-                    case Err(e):
-                        self.get_logger().warn(f"Could not add child: {str(e)}")
-                        missing_children.append(child_id)
-                    case Ok(_):
-                        pass
-            else:
+            child = self.nodes.get(ros_to_uuid(child_id).unwrap_or(uuid.UUID(int=0)))
+            # Only nodes without a parent can be adopted without breaking the tree
+            if (
+                child is None
+                or child.parent is not None
+                or child.node_id in ancestors
+            ):
                 missing_children.append(child_id)
+                continue
+            match instance.add_child(child):
+                case Err(e):
+                    self.get_logger().warn(f"Could not add child: {str(e)}")
+                    missing_children.append(child_id)
+                case Ok(_):
+                    pass
         if missing_children:
             response.success = False
             response.error_message = (
@@ -215,6 +226,8 @@ class TreeEditManager(TreeExecManager):
                 ),
                 response=RemoveNode.Response(),
             )
+            response.node_id = ""
+            return response
 
         nodes_in_cycles = self.find_nodes_in_cycles()
         if nodes_in_cycles:
@@ -241,16 +254,7 @@ class TreeEditManager(TreeExecManager):
             )
             return response
 
-        if parent_node_id != uuid.UUID(int=0):
-            if parent_node_id not in self._children:
-                self._children[parent_node_id] = []
-            self._children[parent_node_id].append(instance.node_id)
-        if instance.node_id not in self._children:
-            self._children[instance.node_id] = []
-        for child_id in request.node.child_ids:
-            if child_id in self.nodes:
-                self._children[instance.node_id].append(child_id)
-
+        self._sync_children()
         return response
 
     @is_edit_service
-- 
2.43.0


From c5d8a997216aec3cf28244ff6c580152978ac254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 23/84] fix: move_node refuses moving a node below itself and
 allows reordering

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 91700dd..7b3980c 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -704,6 +704,7 @@ class TreeEditManager(TreeExecManager):
         if (
             new_parent.node_config.max_children is not None
             and len(new_parent.children) == new_parent.node_config.max_children
+            and node.parent is not new_parent
         ):
             response.success = False
             response.error_message = (
@@ -716,7 +717,8 @@ class TreeEditManager(TreeExecManager):
         # If the new parent is in the moved node's descendant set, attaching
         # it would create a cycle.  Use the editable adjacency graph rather
         # than recursive Node serialization so malformed graphs stay bounded.
-        descendants = set()
+        self._sync_children()
+        descendants = {node_id}
         pending = list(self._children.get(node_id, []))
         while pending:
             descendant_id = pending.pop()
-- 
2.43.0


From 37774f225658a69dce254f8f75d8e16b4655ab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 24/84] fix: replace_node refuses ancestors and accepts any
 descendant

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 25 +++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 7b3980c..0db8c89 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -805,9 +805,32 @@ class TreeEditManager(TreeExecManager):
         old_node = self.nodes[old_node_id]
         new_node = self.nodes[new_node_id]
 
+        if new_node is old_node:
+            response.success = True
+            return response
+
+        ancestor = old_node.parent
+        while ancestor is not None:
+            if ancestor is new_node:
+                response.success = False
+                response.error_message = (
+                    f"Replacement node ({new_node.name}) is an ancestor of "
+                    f"the node to be replaced ({old_node.name})."
+                )
+                return response
+            ancestor = ancestor.parent
+
+        # The replacement can be anywhere below the node it replaces
+        ancestor = new_node.parent
+        while ancestor is not None and ancestor is not old_node:
+            ancestor = ancestor.parent
+        if ancestor is old_node and new_node.parent is not None:
+            new_node.parent.remove_child(new_node.node_id)
+
         if (
             new_node.node_config.max_children is not None
-            and len(old_node.children) > new_node.node_config.max_children
+            and len(old_node.children) + len(new_node.children)
+            > new_node.node_config.max_children
         ):
             response.success = False
             response.error_message = (
-- 
2.43.0


From b867b786c7ff3bb245bdc95da0b48f7108d21d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 25/84] fix: wiring the same data twice is the same as wiring
 it once

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 6 ++++--
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 0db8c89..7ba4f2e 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -972,7 +972,8 @@ class TreeEditManager(TreeExecManager):
                     )
                     return response
                 case Ok(None):
-                    successful_wirings.append(wiring)
+                    if wiring not in self.wirings + successful_wirings:
+                        successful_wirings.append(wiring)
 
         # only actually wire any data if there were no errors
         # We made it here, so all the Wirings should be valid. Time to save
@@ -1006,7 +1007,8 @@ class TreeEditManager(TreeExecManager):
                     f'Failed to remove wiring "{wiring}": This wiring does not exist'
                 )
                 return response
-            successful_unwirings.append(wiring)
+            if wiring not in successful_unwirings:
+                successful_unwirings.append(wiring)
 
         for wiring in successful_unwirings:
             self.wirings.remove(wiring)
diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 5bac42f..c3cc9b5 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -935,7 +935,8 @@ class TreeExecManager:
                     response.error_message = str(e)
                     return response
                 case Ok(None):
-                    updated_wirings.append(wiring)
+                    if wiring not in updated_wirings:
+                        updated_wirings.append(wiring)
 
         self.name = tree.name
         self._tree_structure.path = tree.path
-- 
2.43.0


From 1d66cda0fd5ab5de700bb3eeb0c643e5df2f1385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 26/84] fix: load_tree refuses messages that don't describe a
 tree

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 29 ++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index c3cc9b5..e85b16f 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -893,6 +893,12 @@ class TreeExecManager:
             return response
         # First just add all nodes to the tree, then restore tree structure
         for node in tree.nodes:
+            if ros_to_uuid(node.node_id).ok() in (None, *self.nodes):
+                response.success = False
+                response.error_message = (
+                    f"Node {node.name} has an invalid or duplicate id: {node.node_id}"
+                )
+                return response
             match self.instantiate_node_from_msg(
                 node_msg=node,
                 ros_node=self.ros_node,
@@ -915,6 +921,16 @@ class TreeExecManager:
                         return response
                     case Ok(u):
                         child_id = u
+                if (
+                    child_id not in self.nodes
+                    or self.nodes[child_id].parent is not None
+                ):
+                    response.success = False
+                    response.error_message = (
+                        f"Child {c_id} of node {node.name} is missing "
+                        "or already has another parent."
+                    )
+                    return response
                 match self.nodes[node_id].add_child(self.nodes[child_id]):
                     case Err(e):
                         response.success = False
@@ -926,6 +942,19 @@ class TreeExecManager:
         for n in self.nodes.values():
             self._children[n.node_id] = [c.node_id for c in n.children]
 
+        # Every node has at most one parent, so anything that can't be reached
+        # from a node without parent is part of a cycle.
+        reachable = sum(
+            1
+            for n in self.nodes.values()
+            if n.parent is None
+            for _ in n.get_children_recursive()
+        )
+        if reachable != len(self.nodes):
+            response.success = False
+            response.error_message = f"The nodes of tree {tree.name} form a cycle."
+            return response
+
         # All nodes are added, now do the wiring
         updated_wirings = []
         for wiring in tree.data_wirings:
-- 
2.43.0


From 0b63d6d353dc81392e476d07b4834272dfc6ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:32 +0000
Subject: [PATCH 27/84] fix: trees keep their public data, reloading keeps the
 tree

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index e85b16f..7fad649 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -26,6 +26,7 @@
 # ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 # POSSIBILITY OF SUCH DAMAGE.
 
+from copy import deepcopy
 from importlib import metadata
 import os
 import uuid
@@ -828,7 +829,8 @@ class TreeExecManager:
         """Reload the currently loaded tree."""
         load_response = LoadTree.Response()
         load_response = self.load_tree(
-            request=LoadTree.Request(tree=self.structure_to_msg()),
+            # Loading clears the live message
+            request=LoadTree.Request(tree=deepcopy(self.structure_to_msg())),
             response=load_response,
         )
 
@@ -1512,8 +1514,6 @@ class TreeExecManager:
                 else:
                     subtree = get_subtree_msg_result.unwrap()[0]
                     self._tree_structure.nodes = subtree.nodes
-                    self._tree_structure.public_inputs = subtree.public_inputs
-                    self._tree_structure.public_outputs = subtree.public_outputs
             else:
                 self._tree_structure.nodes = []
         else:
-- 
2.43.0


From b64248c10cbcff82f9929be918d2d55e40005f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 28/84] fix: get_subtree includes the wirings of the subtree

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 7ba4f2e..675c7c0 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -1034,12 +1034,25 @@ class TreeEditManager(TreeExecManager):
 
         match self.nodes[root_id].get_subtree_msg():
             case Err(e):
+                response.success = False
                 response.error_message = (
                     f"Error retrieving subtree rooted at {request.root_id}: {str(e)}"
                 )
                 return response
             case Ok((s, _, _)):
                 response.subtree = s
+        # Nodes don't know how they are wired, only the tree does
+        node_ids = {node.node_id for node in response.subtree.nodes}
+        response.subtree.data_wirings = []
+        response.subtree.public_inputs = []
+        response.subtree.public_outputs = []
+        for wiring in self.wirings:
+            if wiring.source.node_id in node_ids and wiring.target.node_id in node_ids:
+                response.subtree.data_wirings.append(wiring)
+            elif wiring.source.node_id in node_ids:
+                response.subtree.public_outputs.append(wiring.source)
+            elif wiring.target.node_id in node_ids:
+                response.subtree.public_inputs.append(wiring.target)
         response.success = True
         return response
 
-- 
2.43.0


From b6963f900ec4f6bd1ec7cb1baa14dc769bb305a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 29/84] fix: the structure of trees without a unique root names
 no root

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 7fad649..0cc928d 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -637,6 +637,7 @@ class TreeExecManager:
         root nodes (nodes not in any child's list).
         """
         self._sync_children()
+        self.root_id = uuid.UUID(int=0)
         if not self.nodes:
             return Ok(None)
         all_child_ids: set[uuid.UUID] = set()
-- 
2.43.0


From cf46101f75a84119dd915d371a8de0550df8fa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 30/84] fix: loading tree files that don't contain a tree fails
 with a reason

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 48 +++++++++++++++---------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 0cc928d..019ca32 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -176,7 +176,7 @@ def load_tree_from_file(
 ) -> MigrateTree.Response:
     """Load a tree file from disk."""
     tree = request.tree
-    while not tree.nodes:
+    if not tree.nodes:
         file_path = ""
         if not tree.path:
             response.success = False
@@ -191,9 +191,14 @@ def load_tree_from_file(
 
         elif tree.path.startswith("package://"):
             package_name = tree.path[len("package://") :].split("/", 1)[0]
-            package_path = ament_index_python.get_package_share_directory(
-                package_name=package_name
-            )
+            try:
+                package_path = ament_index_python.get_package_share_directory(
+                    package_name=package_name
+                )
+            except (LookupError, ValueError) as ex:
+                response.success = False
+                response.error_message = f"Error finding package: {str(ex)}"
+                return response
             file_path = (
                 package_path + tree.path[len("package://") + len(package_name) :]
             )
@@ -208,24 +213,31 @@ def load_tree_from_file(
 
         # load tree file and parse yaml, then convert to Tree message
         try:
-            tree_file = open(file_path, "r")
-        except IOError as ex:
+            with open(file_path, "r") as tree_file:
+                tree_yaml = tree_file.read()
+        except (IOError, ValueError) as ex:
             response.success = False
             response.error_message = f"Error opening file {file_path}: {str(ex)}"
             return response
 
-        with tree_file:
-            tree_yaml = tree_file.read()
-            try:
-                response = parse_tree_yaml(tree_yaml=tree_yaml)
-            except yaml.scanner.ScannerError as ex:
-                response.success = False
-                response.error_message = (
-                    f"Encountered a ScannerError while parsing the tree yaml: {str(ex)}"
-                )
-                return response
-            tree = response.tree
-            tree.path = request.tree.path
+        try:
+            parse_response = parse_tree_yaml(tree_yaml=tree_yaml)
+        except Exception as ex:
+            # Files can contain anything, not just trees
+            response.success = False
+            response.error_message = (
+                f"Encountered a {type(ex).__name__} while parsing the tree yaml: "
+                f"{str(ex)}"
+            )
+            return response
+        if not parse_response.success:
+            return parse_response
+        tree = parse_response.tree
+        tree.path = request.tree.path
+        if not tree.nodes:
+            response.success = False
+            response.error_message = f"Found no nodes in file {file_path}"
+            return response
 
     response.success = True
     response.tree = tree
-- 
2.43.0


From 9d350f7e6f7f4af900dbd6718deb8f2bf41ab4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 31/84] fix: tick frequencies that aren't usable as rate are
 replaced

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 019ca32..5915a36 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -461,7 +461,8 @@ class TreeExecManager:
     @typechecked
     def tick_frequency_hz(self, frequency: float) -> None:
         with self._tree_lock:
-            if frequency == 0.0:
+            # Rates need a finite, positive period
+            if not 1e-6 <= frequency < float("inf"):
                 self.get_logger().warn(
                     f"Tick frequency of {frequency} is invalid. Setting to 10.0"
                 )
-- 
2.43.0


From 5c06b0978e8a743593c8f0cd5be362d6fb40ab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 32/84] fix: EnumFields checks the types of the constants, not
 their names

---
 ros_bt_py/ros_bt_py/ros_nodes/enum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum.py b/ros_bt_py/ros_bt_py/ros_nodes/enum.py
index 3e0fcfb..2cfe1c1 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum.py
@@ -74,7 +74,7 @@ class EnumFields(Leaf):
         node_outputs = {}
         for field in self._constants:
             field_type = type(getattr(self._message_class, field))
-            if field not in GENERIC_TYPE_MAP.keys():
+            if field_type not in GENERIC_TYPE_MAP.keys():
                 return Err(NodeConfigError(f"Field {field} has an incompatible type"))
             match get_iotype_for_dict(GENERIC_TYPE_MAP[field_type]):
                 case Err(e):
-- 
2.43.0


From a5d614c5386d427f04d6621f70e801a7e41bf5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 33/84] fix: subtrees that contain themselves are refused

---
 ros_bt_py/ros_bt_py/ros_nodes/subtree.py | 30 +++++++++++++++++-------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/subtree.py b/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
index b22efdd..9fc79bc 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
@@ -28,6 +28,7 @@
 
 """BT node to encapsulate a part of a tree in a reusable subtree."""
 
+from contextvars import ContextVar
 from typing import Optional
 import uuid
 
@@ -56,6 +57,9 @@ from ros_bt_py.helpers import BTNodeState
 # Type alias for ros uuids
 ROS_UUID = str
 
+# Paths of the subtrees that are being loaded, outermost first
+LOADING_PATHS: ContextVar[tuple[str, ...]] = ContextVar("LOADING_PATHS", default=())
+
 
 @define_bt_node(
     NodeConfig(
@@ -142,15 +146,23 @@ class Subtree(Leaf):
                 return Err(e)
             case Ok(s):
                 subtree_path = s
-        response = self.manager.load_tree(
-            request=LoadTree.Request(
-                tree=TreeStructure(
-                    path=subtree_path,
-                    name=self.name,
-                )
-            ),
-            response=LoadTree.Response(),
-        )
+        if subtree_path in LOADING_PATHS.get():
+            return Err(
+                NodeConfigError(f"Subtree {self.name} ({subtree_path}) contains itself")
+            )
+        token = LOADING_PATHS.set((*LOADING_PATHS.get(), subtree_path))
+        try:
+            response = self.manager.load_tree(
+                request=LoadTree.Request(
+                    tree=TreeStructure(
+                        path=subtree_path,
+                        name=self.name,
+                    )
+                ),
+                response=LoadTree.Response(),
+            )
+        finally:
+            LOADING_PATHS.reset(token)
 
         if not response.success:
             error_msg = f"Failed to load subtree {self.name}: {response.error_message}"
-- 
2.43.0


From bf0a7d2e79d530557d56a46518199a55cebda378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:48 +0000
Subject: [PATCH 34/84] fix: ids that aren't strings are reported as invalid

---
 ros_bt_py/ros_bt_py/ros_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_helpers.py b/ros_bt_py/ros_bt_py/ros_helpers.py
index 2f551ea..fdbf976 100644
--- a/ros_bt_py/ros_bt_py/ros_helpers.py
+++ b/ros_bt_py/ros_bt_py/ros_helpers.py
@@ -44,7 +44,7 @@ ROS_UUID = str
 def ros_to_uuid(ros_uuid_msg: ROS_UUID) -> Result[uuid.UUID, str]:
     try:
         return Ok(uuid.UUID(ros_uuid_msg))
-    except ValueError:
+    except (ValueError, AttributeError):
         return Err(f"String {ros_uuid_msg} doesn't represent a valid uuid")
 
 
-- 
2.43.0


From 818da6b3ad27750fdacc0db22d4ed97566c09f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 35/84] fix: data can't be wired to static inputs

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 5915a36..7c1a462 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1504,6 +1504,13 @@ class TreeExecManager:
                     f"an output key {wiring_msg.target.data_key}"
                 )
             )
+        if target_container.is_static:
+            return Err(
+                BehaviorTreeException(
+                    f"Input {wiring_msg.target.data_key} of target node "
+                    f"({target_node_id}) is static, so it can't receive data"
+                )
+            )
         if not target_container.get_runtime_type().is_compatible(
             source_container.get_runtime_type()
         ):
-- 
2.43.0


From 11c25c9ddd65134a6a536f4a451fc38ec46a30ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 36/84] fix: exceptions raised in a tick put the tree into the
 error state

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 7c1a462..7e259b3 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -678,7 +678,12 @@ class TreeExecManager:
 
     def tick_report_exceptions(self) -> None:
         """Wrap :meth:`TreeManager.tick()` and catch *all* errors."""
-        tick_result = self.tick()
+        try:
+            tick_result = self.tick()
+        except Exception as e:
+            tick_result = Err(
+                BehaviorTreeException(f"Tick raised {type(e).__name__}: {e}")
+            )
 
         if tick_result.is_err():
             self.get_logger().error(
-- 
2.43.0


From b2fd27ec385dc7186838488b3065d8bfe74f6875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 37/84] fix: stopping a tree that waits for a tick leaves it in
 the reported state

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 7e259b3..324edc6 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1380,9 +1380,12 @@ class TreeExecManager:
                     root.untick()
                     state = root.state
                     if state in [BTNodeState.IDLE, BTNodeState.PAUSED]:
+                        self.state = TreeState.IDLE
                         response.tree_state = TreeState.IDLE
                         response.success = True
                     else:
+                        self.state = TreeState.ERROR
+                        self.publish_state()
                         response.tree_state = TreeState.ERROR
                         response.success = False
                         self.get_logger().error(
-- 
2.43.0


From 61aac794f0479b8694ef5e57e33c2b9fce04b649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 38/84] fix: stopping a tree just as it stops on its own
 doesn't get stuck

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 324edc6..bef86f8 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1323,7 +1323,10 @@ class TreeExecManager:
             ControlTreeExecution.Request.SHUTDOWN,
         ]:
             if tree_state == TreeState.TICKING:
-                self.state = TreeState.STOP_REQUESTED
+                with self._tree_lock:
+                    # The tick thread may have stopped on its own by now
+                    if self._tree_state.state == TreeState.TICKING:
+                        self._tree_state.state = TreeState.STOP_REQUESTED
                 # Four times the allowed period should be plenty of time to
                 # finish the current tick, if the tree has not stopped by then
                 # we're in deep trouble.
@@ -1356,6 +1359,9 @@ class TreeExecManager:
                     response.success = False
                     self.get_logger().error(response.error_message)
                     return response
+                elif state_after_joining == TreeState.WAITING_FOR_TICK:
+                    # That was a single tick, its nodes still have to be stopped
+                    tree_state = state_after_joining
                 else:
                     response.error_message = (
                         f"Successfully stopped ticking, but tree state is "
@@ -1365,7 +1371,12 @@ class TreeExecManager:
                     self.get_logger().error(response.error_message)
                     return response
 
-            elif tree_state == TreeState.WAITING_FOR_TICK:
+            elif tree_state != TreeState.WAITING_FOR_TICK:
+                self.get_logger().info(
+                    "Received stop command, but tree was not running"
+                )
+
+            if tree_state == TreeState.WAITING_FOR_TICK:
                 find_root_result = self.find_root()
 
                 if find_root_result.is_err():
@@ -1399,11 +1410,6 @@ class TreeExecManager:
                     response.tree_state = TreeState.IDLE
                     response.success = True
 
-            else:
-                self.get_logger().info(
-                    "Received stop command, but tree was not running"
-                )
-
             self.publish_state()
 
             # actually shut down the tree
-- 
2.43.0


From c952b6cebc9d0eb50640585a0a7c582aecb30a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:19 +0000
Subject: [PATCH 39/84] fix: edits and execution commands of concurrent clients
 exclude each other

The check that nothing is ticking and what depends on it (editing, starting a
tick thread, resetting, unticking, shutting down) were separate steps, so an
edit could run while the tree was already ticking, two ticks could start, or
a finished thread be started again. Also publish states in their order.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 450 ++++++++++++-----------
 1 file changed, 243 insertions(+), 207 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index bef86f8..c613afc 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -107,24 +107,24 @@ def is_edit_service(func):
 
     @wraps(func)
     def service_handler(self: "TreeExecManager", request: Any, response: Any, **kwds):
-        if self.state != TreeState.EDITABLE:
-            response.success = False
-            response.error_message = (
-                f"Cannot edit tree in state {self.state}."
-                f"You need to shut down the tree to enable editing."
-            )
-            return response
-        try:
-            with self._edit_lock:
+        with self._edit_lock:
+            if self.state != TreeState.EDITABLE:
+                response.success = False
+                response.error_message = (
+                    f"Cannot edit tree in state {self.state}."
+                    f"You need to shut down the tree to enable editing."
+                )
+                return response
+            try:
                 restore = self._remember_tree()
                 response = func(self, request, response, **kwds)
                 if not response.success:
                     restore()
                 return response
-        finally:
-            # TODO Find a way to check if we're the outermost level
-            #   to reduce repeating publish calls
-            self.publish_structure()
+            finally:
+                # TODO Find a way to check if we're the outermost level
+                #   to reduce repeating publish calls
+                self.publish_structure()
 
     return service_handler
 
@@ -376,6 +376,7 @@ class TreeExecManager:
         self._children: Dict[uuid.UUID, list[uuid.UUID]] = {}
 
         self._edit_lock = RLock()
+        self._publish_lock = RLock()
         # Stop the tick thread after a single tick
         self._once: bool = False
         # Stop the tick thread after the tree returns something other than
@@ -612,10 +613,12 @@ class TreeExecManager:
         topic.
         """
         if self.publish_tree_state:
-            state_list = TreeStateList()
-            state_list.tree_states = self.subtree_manager.get_subtree_states()
-            state_list.tree_states.append(self.state_to_msg())
-            self.publish_tree_state(state_list)
+            # Client and tick thread both get here, the newest state must go last
+            with self._publish_lock:
+                state_list = TreeStateList()
+                state_list.tree_states = self.subtree_manager.get_subtree_states()
+                state_list.tree_states.append(self.state_to_msg())
+                self.publish_tree_state(state_list)
 
     def publish_data(
         self,
@@ -1050,157 +1053,171 @@ class TreeExecManager:
         request: ControlTreeExecution.Request,
         response: ControlTreeExecution.Response,
     ) -> ControlTreeExecution.Response:
-
-        find_root_result = self.find_root()
-        if find_root_result.is_err():
-            # A malformed editable/error tree has no runtime root to shut down.
-            # Recovery must still be possible, so discard derived links and
-            # return to the editable state.
-            self.get_logger().warn(
-                f"Could not determine tree root during shutdown: "
-                f"{find_root_result.unwrap_err()}"
-            )
-            for node in self.nodes.values():
-                node.parent = None
-                node.children = []
-            self.state = TreeState.EDITABLE
-            response.tree_state = self.state
-            response.success = True
-            return response
-        root = find_root_result.unwrap()
-        if root:
-            shutdown_result = root.shutdown()
-            if shutdown_result.is_err():
+        with self._edit_lock:
+            if self._tick_thread is not None and self._tick_thread.is_alive():
                 response.success = False
                 response.error_message = (
-                    f"Failed to shutdown: {str(shutdown_result.unwrap_err())}"
+                    "Tried to shut down tree while it is running, aborting"
                 )
+                response.tree_state = self.state
+                self.get_logger().warn(response.error_message)
                 return response
-        else:
-            self.get_logger().info("Shutting down a tree with no nodes.")
-        self.state = TreeState.EDITABLE
-        response.tree_state = self.state
-        response.success = True
-        return response
-
-    @typechecked
-    def _control_execution_tick_once(
-        self,
-        request: ControlTreeExecution.Request,
-        response: ControlTreeExecution.Response,
-    ) -> ControlTreeExecution.Response:
-        if self._tick_thread and self._tick_thread.is_alive():
-            response.success = False
-            response.error_message = (
-                "Tried to tick when tree is already running, aborting"
-            )
-            self.get_logger().warn(response.error_message)
-            return response
 
-        else:
-            if not self._tick_thread:
-                self._tick_thread = Thread(target=self.tick_report_exceptions)
             find_root_result = self.find_root()
             if find_root_result.is_err():
-                response.success = False
-                response.error_message = (
-                    "Failed to detrmine tree root: "
-                    f"{str(find_root_result.unwrap_err())}"
+                # A malformed editable/error tree has no runtime root to shut down.
+                # Recovery must still be possible, so discard derived links and
+                # return to the editable state.
+                self.get_logger().warn(
+                    f"Could not determine tree root during shutdown: "
+                    f"{find_root_result.unwrap_err()}"
                 )
+                for node in self.nodes.values():
+                    node.parent = None
+                    node.children = []
+                self.state = TreeState.EDITABLE
                 response.tree_state = self.state
-                return response
-            root = find_root_result.unwrap()
-            if not root:
                 response.success = True
-                response.tree_state = self.state
                 return response
-
-            self._once = True
-            self._stop_after_result = False
-            self.state = TreeState.TICKING
-
-            self._tick_thread.start()
-            # Give the tick thread some time to finish
-            self._tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
-            # If we're debugging or setting up (and ROS is not
-            # shutting down), keep sleepin until the thread
-            # finishes
-            while self._tick_thread.is_alive() and ok():
-                self._tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
-            if self._tick_thread.is_alive():
-                response.success = False
-                response.error_message = (
-                    "Tried to join tick thread after single tick, but failed!"
-                )
-                response.tree_state = self.state
-                return response
-
-            state_after_joining = self.state
-            if state_after_joining == TreeState.WAITING_FOR_TICK:
-                response.tree_state = TreeState.WAITING_FOR_TICK
-                response.success = True
-            elif state_after_joining == TreeState.ERROR:
-                response.error_message = (
-                    f"Error during single tick: {str(self._last_error)}"
-                )
-                response.success = False
-                self.get_logger().error(response.error_message)
+            root = find_root_result.unwrap()
+            if root:
+                shutdown_result = root.shutdown()
+                if shutdown_result.is_err():
+                    response.success = False
+                    response.error_message = (
+                        f"Failed to shutdown: {str(shutdown_result.unwrap_err())}"
+                    )
+                    return response
             else:
-                response.error_message = (
-                    f"Successfully stopped ticking, but tree state "
-                    f"is {state_after_joining}, not IDLE"
-                )
-                response.success = False
-                self.get_logger().error(response.error_message)
+                self.get_logger().info("Shutting down a tree with no nodes.")
+            self.state = TreeState.EDITABLE
+            response.tree_state = self.state
+            response.success = True
             return response
 
     @typechecked
-    def _control_execution_tick_multiple(
+    def _control_execution_tick_once(
         self,
         request: ControlTreeExecution.Request,
         response: ControlTreeExecution.Response,
     ) -> ControlTreeExecution.Response:
-        if self._tick_thread and self._tick_thread.is_alive():
+        with self._edit_lock:
+            if self._tick_thread and self._tick_thread.is_alive():
+                response.success = False
+                response.error_message = (
+                    "Tried to tick when tree is already running, aborting"
+                )
+                self.get_logger().warn(response.error_message)
+                return response
+
+            else:
+                find_root_result = self.find_root()
+                if find_root_result.is_err():
+                    response.success = False
+                    response.error_message = (
+                        "Failed to detrmine tree root: "
+                        f"{str(find_root_result.unwrap_err())}"
+                    )
+                    response.tree_state = self.state
+                    return response
+                root = find_root_result.unwrap()
+                if not root:
+                    response.success = True
+                    response.tree_state = self.state
+                    return response
+
+                self._once = True
+                self._stop_after_result = False
+                self.state = TreeState.TICKING
+
+                # Always a new one: the last one may have finished just now
+                tick_thread = Thread(target=self.tick_report_exceptions)
+                self._tick_thread = tick_thread
+                tick_thread.start()
+
+        # Give the tick thread some time to finish
+        tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
+        # If we're debugging or setting up (and ROS is not
+        # shutting down), keep sleepin until the thread
+        # finishes
+        while tick_thread.is_alive() and ok():
+            tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
+        if tick_thread.is_alive():
             response.success = False
             response.error_message = (
-                "Tried to start periodic ticking when tree is already running, aborting"
+                "Tried to join tick thread after single tick, but failed!"
             )
             response.tree_state = self.state
-            self.get_logger().warn(response.error_message)
             return response
 
+        state_after_joining = self.state
+        if state_after_joining == TreeState.WAITING_FOR_TICK:
+            response.tree_state = TreeState.WAITING_FOR_TICK
+            response.success = True
+        elif state_after_joining == TreeState.ERROR:
+            response.error_message = (
+                f"Error during single tick: {str(self._last_error)}"
+            )
+            response.success = False
+            self.get_logger().error(response.error_message)
         else:
-            if not self._tick_thread:
-                self._tick_thread = Thread(target=self.tick_report_exceptions)
+            response.error_message = (
+                f"Successfully stopped ticking, but tree state "
+                f"is {state_after_joining}, not IDLE"
+            )
+            response.success = False
+            self.get_logger().error(response.error_message)
+        return response
 
-            find_root_result = self.find_root()
-            if find_root_result.is_err():
+    @typechecked
+    def _control_execution_tick_multiple(
+        self,
+        request: ControlTreeExecution.Request,
+        response: ControlTreeExecution.Response,
+    ) -> ControlTreeExecution.Response:
+        with self._edit_lock:
+            if self._tick_thread and self._tick_thread.is_alive():
                 response.success = False
                 response.error_message = (
-                    "Failed to detrmine tree root: "
-                    f"{str(find_root_result.unwrap_err())}"
+                    "Tried to start periodic ticking when tree is already running, aborting"
                 )
                 response.tree_state = self.state
+                self.get_logger().warn(response.error_message)
                 return response
-            root = find_root_result.unwrap()
-            if not root:
+
+            else:
+                find_root_result = self.find_root()
+                if find_root_result.is_err():
+                    response.success = False
+                    response.error_message = (
+                        "Failed to detrmine tree root: "
+                        f"{str(find_root_result.unwrap_err())}"
+                    )
+                    response.tree_state = self.state
+                    return response
+                root = find_root_result.unwrap()
+                if not root:
+                    response.success = True
+                    response.tree_state = self.state
+                    return response
+                self.state = TreeState.TICKING
+                self._once = False
+                self._stop_after_result = False
+                if request.command == ControlTreeExecution.Request.TICK_UNTIL_RESULT:
+                    self._stop_after_result = True
+                # Use provided tick frequency, if any
+                if request.tick_frequency_hz != 0:
+                    self.tick_frequency_hz = request.tick_frequency_hz
+                    self.rate = self.ros_node.create_rate(
+                        frequency=self.tick_frequency_hz
+                    )
+                # Always a new one: the last one may have finished just now
+                self._tick_thread = Thread(target=self.tick_report_exceptions)
+                self._tick_thread.start()
                 response.success = True
+                response.tree_state = TreeState.TICKING
                 response.tree_state = self.state
                 return response
-            self.state = TreeState.TICKING
-            self._once = False
-            self._stop_after_result = False
-            if request.command == ControlTreeExecution.Request.TICK_UNTIL_RESULT:
-                self._stop_after_result = True
-            # Use provided tick frequency, if any
-            if request.tick_frequency_hz != 0:
-                self.tick_frequency_hz = request.tick_frequency_hz
-                self.rate = self.ros_node.create_rate(frequency=self.tick_frequency_hz)
-            self._tick_thread.start()
-            response.success = True
-            response.tree_state = TreeState.TICKING
-            response.tree_state = self.state
-            return response
 
     @typechecked
     def _control_execution_reset(
@@ -1208,42 +1225,45 @@ class TreeExecManager:
         request: ControlTreeExecution.Request,
         response: ControlTreeExecution.Response,
     ) -> ControlTreeExecution.Response:
-        if self._tick_thread and self._tick_thread.is_alive():
-            response.success = False
-            response.error_message = "Tried to reset tree while it is running, aborting"
-            response.tree_state = self.state
-            self.get_logger().warn(response.error_message)
-            return response
-        else:
-            find_root_result = self.find_root()
-            if find_root_result.is_err():
+        with self._edit_lock:
+            if self._tick_thread and self._tick_thread.is_alive():
                 response.success = False
                 response.error_message = (
-                    "Failed to determine tree root: "
-                    f"{str(find_root_result.unwrap_err())}"
+                    "Tried to reset tree while it is running, aborting"
                 )
                 response.tree_state = self.state
+                self.get_logger().warn(response.error_message)
                 return response
-            root = find_root_result.unwrap()
-            if not root:
-                self.get_logger().info("Resetting a tree with no root.")
+            else:
+                find_root_result = self.find_root()
+                if find_root_result.is_err():
+                    response.success = False
+                    response.error_message = (
+                        "Failed to determine tree root: "
+                        f"{str(find_root_result.unwrap_err())}"
+                    )
+                    response.tree_state = self.state
+                    return response
+                root = find_root_result.unwrap()
+                if not root:
+                    self.get_logger().info("Resetting a tree with no root.")
+                    self.state = TreeState.IDLE
+                    response.success = True
+                    response.tree_state = self.state
+                    return response
+                reset_result = root.reset()
+                if reset_result.is_err():
+                    response.success = False
+                    response.error_message = (
+                        f"Failed to reset tree:{str(reset_result.unwrap_err())}"
+                    )
+                    response.tree_state = self.state
+                    return response
+
                 self.state = TreeState.IDLE
                 response.success = True
                 response.tree_state = self.state
                 return response
-            reset_result = root.reset()
-            if reset_result.is_err():
-                response.success = False
-                response.error_message = (
-                    f"Failed to reset tree:{str(reset_result.unwrap_err())}"
-                )
-                response.tree_state = self.state
-                return response
-
-            self.state = TreeState.IDLE
-            response.success = True
-            response.tree_state = self.state
-            return response
 
     @typechecked
     def control_execution(  # noqa: C901
@@ -1262,24 +1282,28 @@ class TreeExecManager:
 
         """
         response.success = False
-        if self._tick_thread is not None:
-            is_idle = self.state == TreeState.IDLE
-            if is_idle and self._tick_thread.is_alive():
-                self._tick_thread.join(0.5)
-                if self._tick_thread.is_alive():
+        tick_thread = self._tick_thread
+        if tick_thread is not None:
+            is_finishing = self.state in [
+                TreeState.IDLE,
+                TreeState.WAITING_FOR_TICK,
+                TreeState.ERROR,
+            ]
+            if is_finishing and tick_thread.is_alive():
+                tick_thread.join(0.5)
+                if tick_thread.is_alive():
                     response.success = False
                     response.error_message = (
-                        "Tried to join tick thread with Tree state IDLE, but failed!"
+                        f"Tried to join tick thread with Tree state {self.state}, "
+                        "but failed!"
                     )
                     self.publish_state()
                     return response
 
-        # Make a new tick thread if there isn't one or the old one has been
-        # successfully joined.
-        if self._tick_thread is None or not self._tick_thread.is_alive():
-            self._tick_thread = Thread(target=self.tick_report_exceptions)
-
-        tree_state = self.state
+        with self._edit_lock:
+            tree_state = self.state
+            tick_thread = self._tick_thread
+        is_ticking = tick_thread is not None and tick_thread.is_alive()
 
         # Check for error state and abort if command is not SHUTDOWN -
         # if it is, we fall through to the if below and shut down the
@@ -1294,7 +1318,7 @@ class TreeExecManager:
             return response
 
         if request.command == ControlTreeExecution.Request.SETUP_AND_SHUTDOWN:
-            if self._tick_thread.is_alive() or tree_state == TreeState.TICKING:
+            if is_ticking or tree_state == TreeState.TICKING:
                 response.success = False
                 response.error_message = (
                     "Tried to setup tree while it is running, aborting"
@@ -1322,7 +1346,9 @@ class TreeExecManager:
             ControlTreeExecution.Request.STOP,
             ControlTreeExecution.Request.SHUTDOWN,
         ]:
-            if tree_state == TreeState.TICKING:
+            if tree_state == TreeState.TICKING or (
+                is_ticking and tree_state != TreeState.ERROR
+            ):
                 with self._tree_lock:
                     # The tick thread may have stopped on its own by now
                     if self._tree_state.state == TreeState.TICKING:
@@ -1330,16 +1356,16 @@ class TreeExecManager:
                 # Four times the allowed period should be plenty of time to
                 # finish the current tick, if the tree has not stopped by then
                 # we're in deep trouble.
-                if self._tick_thread.is_alive():
+                if tick_thread is not None and tick_thread.is_alive():
                     # Give the tick thread some time to finish
-                    self._tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
+                    tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
 
                     # If we're debugging or setting up (and ROS is not
                     # shutting down), keep sleeping until the thread
                     # finishes
-                    while self._tick_thread.is_alive() and ok():
-                        self._tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
-                    if self._tick_thread.is_alive():
+                    while tick_thread.is_alive() and ok():
+                        tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
+                    if tick_thread.is_alive():
                         response.success = False
                         response.error_message = (
                             "Tried to join tick thread after requesting "
@@ -1377,38 +1403,48 @@ class TreeExecManager:
                 )
 
             if tree_state == TreeState.WAITING_FOR_TICK:
-                find_root_result = self.find_root()
+                with self._edit_lock:
+                    # The tree may be ticking again, or shut down, by now
+                    if self.state != TreeState.WAITING_FOR_TICK:
+                        response.success = False
+                        response.error_message = (
+                            "Tried to stop a tree waiting for its next tick, "
+                            f"but its state is now {self.state}"
+                        )
+                        response.tree_state = self.state
+                        return response
+                    find_root_result = self.find_root()
 
-                if find_root_result.is_err():
-                    response.success = False
-                    response.error_message = (
-                        "Could not determine tree root: "
-                        f"{str(find_root_result.unwrap_err())}"
-                    )
-                    return response
-                root = find_root_result.unwrap()
-                if root:
-                    root.untick()
-                    state = root.state
-                    if state in [BTNodeState.IDLE, BTNodeState.PAUSED]:
-                        self.state = TreeState.IDLE
-                        response.tree_state = TreeState.IDLE
-                        response.success = True
-                    else:
-                        self.state = TreeState.ERROR
-                        self.publish_state()
-                        response.tree_state = TreeState.ERROR
+                    if find_root_result.is_err():
                         response.success = False
-                        self.get_logger().error(
-                            f"Root node ({str(root)}) state after unticking is neither "
-                            f"IDLE nor PAUSED, but {state}"
+                        response.error_message = (
+                            "Could not determine tree root: "
+                            f"{str(find_root_result.unwrap_err())}"
                         )
-                        response.error_message = "Failed to untick root node."
                         return response
-                else:
-                    self.get_logger().info("Unticking a tree with no nodes.")
-                    response.tree_state = TreeState.IDLE
-                    response.success = True
+                    root = find_root_result.unwrap()
+                    if root:
+                        root.untick()
+                        state = root.state
+                        if state in [BTNodeState.IDLE, BTNodeState.PAUSED]:
+                            self.state = TreeState.IDLE
+                            response.tree_state = TreeState.IDLE
+                            response.success = True
+                        else:
+                            self.state = TreeState.ERROR
+                            self.publish_state()
+                            response.tree_state = TreeState.ERROR
+                            response.success = False
+                            self.get_logger().error(
+                                f"Root node ({str(root)}) state after unticking is neither "
+                                f"IDLE nor PAUSED, but {state}"
+                            )
+                            response.error_message = "Failed to untick root node."
+                            return response
+                    else:
+                        self.get_logger().info("Unticking a tree with no nodes.")
+                        response.tree_state = TreeState.IDLE
+                        response.success = True
 
             self.publish_state()
 
-- 
2.43.0


From d7132d0134e8747fbf72b3e1023f47358a984f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:53 +0000
Subject: [PATCH 40/84] fix: shutting down a tree with several roots keeps its
 structure

SHUTDOWN is no edit, but cut the links between all nodes as soon as there was
more than one node without a parent, which is common while editing. Do so for
cycles only, and publish it.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index c613afc..a53d7a2 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1066,15 +1066,17 @@ class TreeExecManager:
             find_root_result = self.find_root()
             if find_root_result.is_err():
                 # A malformed editable/error tree has no runtime root to shut down.
-                # Recovery must still be possible, so discard derived links and
-                # return to the editable state.
+                # Recovery must still be possible, so return to the editable state.
                 self.get_logger().warn(
                     f"Could not determine tree root during shutdown: "
                     f"{find_root_result.unwrap_err()}"
                 )
-                for node in self.nodes.values():
-                    node.parent = None
-                    node.children = []
+                if all(node.parent is not None for node in self.nodes.values()):
+                    # Links that form a cycle cannot be kept
+                    for node in self.nodes.values():
+                        node.parent = None
+                        node.children = []
+                    self.publish_structure()
                 self.state = TreeState.EDITABLE
                 response.tree_state = self.state
                 response.success = True
-- 
2.43.0


From c383c3c218eb145412de89b3c7147fb635e9ac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:05 +0000
Subject: [PATCH 41/84] fix: publishing and finding the root wait for edits to
 finish

Both walk the tree, and raised or saw half an edit when another client's edit
was under way.
---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 72 ++++++++++++------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index a53d7a2..2ee7da4 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -376,7 +376,6 @@ class TreeExecManager:
         self._children: Dict[uuid.UUID, list[uuid.UUID]] = {}
 
         self._edit_lock = RLock()
-        self._publish_lock = RLock()
         # Stop the tick thread after a single tick
         self._once: bool = False
         # Stop the tick thread after the tree returns something other than
@@ -595,12 +594,13 @@ class TreeExecManager:
         topic.
         """
         if self.publish_tree_structure:
-            structure_list = TreeStructureList()
-            structure_list.tree_structures = (
-                self.subtree_manager.get_subtree_structures()
-            )
-            structure_list.tree_structures.append(self.structure_to_msg())
-            self.publish_tree_structure(structure_list)
+            with self._edit_lock:
+                structure_list = TreeStructureList()
+                structure_list.tree_structures = (
+                    self.subtree_manager.get_subtree_structures()
+                )
+                structure_list.tree_structures.append(self.structure_to_msg())
+                self.publish_tree_structure(structure_list)
         self.publish_state()
 
     def publish_state(
@@ -614,7 +614,7 @@ class TreeExecManager:
         """
         if self.publish_tree_state:
             # Client and tick thread both get here, the newest state must go last
-            with self._publish_lock:
+            with self._edit_lock:
                 state_list = TreeStateList()
                 state_list.tree_states = self.subtree_manager.get_subtree_states()
                 state_list.tree_states.append(self.state_to_msg())
@@ -633,10 +633,11 @@ class TreeExecManager:
         topic.
         """
         if self.publish_tree_data and self.enable_publish_data:
-            data_list = TreeDataList()
-            data_list.tree_data = self.subtree_manager.get_subtree_data()
-            data_list.tree_data.append(self.data_to_msg())
-            self.publish_tree_data(data_list)
+            with self._edit_lock:
+                data_list = TreeDataList()
+                data_list.tree_data = self.subtree_manager.get_subtree_data()
+                data_list.tree_data.append(self.data_to_msg())
+                self.publish_tree_data(data_list)
         self.publish_state()
 
     @typechecked
@@ -652,32 +653,33 @@ class TreeExecManager:
         Uses the manager-owned _children adjacency list to determine
         root nodes (nodes not in any child's list).
         """
-        self._sync_children()
-        self.root_id = uuid.UUID(int=0)
-        if not self.nodes:
-            return Ok(None)
-        all_child_ids: set[uuid.UUID] = set()
-        for child_list in self._children.values():
-            all_child_ids.update(child_list)
-        possible_roots = [
-            node for node in self.nodes.values() if node.node_id not in all_child_ids
-        ]
+        with self._edit_lock:
+            self._sync_children()
+            self.root_id = uuid.UUID(int=0)
+            if not self.nodes:
+                return Ok(None)
+            all_child_ids: set[uuid.UUID] = set()
+            for child_list in self._children.values():
+                all_child_ids.update(child_list)
+            possible_roots = [
+                node for node in self.nodes.values() if node.node_id not in all_child_ids
+            ]
 
-        if len(possible_roots) > 1:
-            return Err(
-                TreeTopologyError(
-                    f'Tree "{self.name}" has multiple nodes without parents.'
+            if len(possible_roots) > 1:
+                return Err(
+                    TreeTopologyError(
+                        f'Tree "{self.name}" has multiple nodes without parents.'
+                    )
                 )
-            )
-        if not possible_roots:
-            return Err(
-                TreeTopologyError(
-                    f'All nodes in tree "{self.name}" have parents. You have '
-                    "made a cycle, which makes the tree impossible to run!"
+            if not possible_roots:
+                return Err(
+                    TreeTopologyError(
+                        f'All nodes in tree "{self.name}" have parents. You have '
+                        "made a cycle, which makes the tree impossible to run!"
+                    )
                 )
-            )
-        self.root_id = possible_roots[0].node_id
-        return Ok(possible_roots[0])
+            self.root_id = possible_roots[0].node_id
+            return Ok(possible_roots[0])
 
     def tick_report_exceptions(self) -> None:
         """Wrap :meth:`TreeManager.tick()` and catch *all* errors."""
-- 
2.43.0


From 2a718a3d505ec0bd40ce85e592241f8bd1f6da56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 42/84] fix: get_subtree and generate_subtree work on one
 consistent, current tree

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 67 ++++++++++++------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 675c7c0..d563b14 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -1027,32 +1027,33 @@ class TreeEditManager(TreeExecManager):
             case Ok(n_id):
                 root_id = n_id
 
-        if root_id not in self.nodes:
-            response.success = False
-            response.error_message = f'Node "{request.root_id}" does not exist!'
-            return response
-
-        match self.nodes[root_id].get_subtree_msg():
-            case Err(e):
+        with self._edit_lock:
+            if root_id not in self.nodes:
                 response.success = False
-                response.error_message = (
-                    f"Error retrieving subtree rooted at {request.root_id}: {str(e)}"
-                )
+                response.error_message = f'Node "{request.root_id}" does not exist!'
                 return response
-            case Ok((s, _, _)):
-                response.subtree = s
-        # Nodes don't know how they are wired, only the tree does
-        node_ids = {node.node_id for node in response.subtree.nodes}
-        response.subtree.data_wirings = []
-        response.subtree.public_inputs = []
-        response.subtree.public_outputs = []
-        for wiring in self.wirings:
-            if wiring.source.node_id in node_ids and wiring.target.node_id in node_ids:
-                response.subtree.data_wirings.append(wiring)
-            elif wiring.source.node_id in node_ids:
-                response.subtree.public_outputs.append(wiring.source)
-            elif wiring.target.node_id in node_ids:
-                response.subtree.public_inputs.append(wiring.target)
+
+            match self.nodes[root_id].get_subtree_msg():
+                case Err(e):
+                    response.success = False
+                    response.error_message = (
+                        f"Error retrieving subtree rooted at {request.root_id}: {str(e)}"
+                    )
+                    return response
+                case Ok((s, _, _)):
+                    response.subtree = s
+            # Nodes don't know how they are wired, only the tree does
+            node_ids = {node.node_id for node in response.subtree.nodes}
+            response.subtree.data_wirings = []
+            response.subtree.public_inputs = []
+            response.subtree.public_outputs = []
+            for wiring in self.wirings:
+                if wiring.source.node_id in node_ids and wiring.target.node_id in node_ids:
+                    response.subtree.data_wirings.append(wiring)
+                elif wiring.source.node_id in node_ids:
+                    response.subtree.public_outputs.append(wiring.source)
+                elif wiring.target.node_id in node_ids:
+                    response.subtree.public_inputs.append(wiring.target)
         response.success = True
         return response
 
@@ -1066,15 +1067,15 @@ class TreeEditManager(TreeExecManager):
         This also adds all relevant parents to the tree message, resulting in a tree that is
         executable and does not contain any orpahned nodes.
         """
-        whole_tree = deepcopy(self._tree_structure)
-
-        match self.find_root():
-            case Err(e):
-                response.success = False
-                response.error_message = f"Could not determine tree root: {str(e)}"
-                return response
-            case Ok(r):
-                root = r
+        with self._edit_lock:
+            match self.find_root():
+                case Err(e):
+                    response.success = False
+                    response.error_message = f"Could not determine tree root: {str(e)}"
+                    return response
+                case Ok(r):
+                    root = r
+            whole_tree = deepcopy(self.structure_to_msg())
 
         if not root:
             response.success = False
-- 
2.43.0


From a94521c7a6ac685d250b393f2b3d84fb21525584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 43/84] fix: bytes in place of an id are refused, not raised

---
 ros_bt_py/ros_bt_py/ros_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_helpers.py b/ros_bt_py/ros_bt_py/ros_helpers.py
index fdbf976..bc30d4d 100644
--- a/ros_bt_py/ros_bt_py/ros_helpers.py
+++ b/ros_bt_py/ros_bt_py/ros_helpers.py
@@ -44,7 +44,7 @@ ROS_UUID = str
 def ros_to_uuid(ros_uuid_msg: ROS_UUID) -> Result[uuid.UUID, str]:
     try:
         return Ok(uuid.UUID(ros_uuid_msg))
-    except (ValueError, AttributeError):
+    except (ValueError, AttributeError, TypeError):
         return Err(f"String {ros_uuid_msg} doesn't represent a valid uuid")
 
 
-- 
2.43.0


From d0f61e646a34255cd022aee0e8084d70b7146c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 44/84] fix: Convert reads its type inputs and can be set up

---
 ros_bt_py/ros_bt_py/nodes/maths.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/maths.py b/ros_bt_py/ros_bt_py/nodes/maths.py
index 3afb7e8..ee7bd43 100644
--- a/ros_bt_py/ros_bt_py/nodes/maths.py
+++ b/ros_bt_py/ros_bt_py/nodes/maths.py
@@ -37,6 +37,7 @@ from ros_bt_py.vendor.result import Result, Ok, Err, do
 from ros_bt_py.data_types import (
     GenericType,
     ReferenceType,
+    RosMessageType,
     StringType,
 )
 from ros_bt_py.exceptions import BehaviorTreeException
@@ -89,19 +90,31 @@ class Convert(Leaf):
     Useful in many cases indeed.
     """
 
+    def _get_python_type(self, key: str) -> Result[type, BehaviorTreeException]:
+        container = self.node_config.inputs[key]
+        if not isinstance(container, GenericType):
+            return Err(BehaviorTreeException(f"Input {key} doesn't hold a type"))
+        match container.get_value_field():
+            case Err(_):
+                return Err(
+                    BehaviorTreeException(f"Input {key} isn't set to a valid type")
+                )
+            case Ok(field):
+                if isinstance(field, RosMessageType):
+                    return Ok(field.message_type)
+                return Ok(field._type)
+
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         match do(
-            Ok((i, o, c))
-            for i in self.inputs.get_value_as("input_type", type)
-            for o in self.inputs.get_value_as("output_type", type)
-            for c in self.inputs.get_value_as("clamp", bool)
+            Ok((i, o))
+            for i in self._get_python_type("input_type")
+            for o in self._get_python_type("output_type")
         ):
             case Err(e):
                 return Err(e)
-            case Ok((i, o, c)):
+            case Ok((i, o)):
                 self.in_type = i
                 self.out_type = o
-                self.clamp = c
 
         match get_conversion(self.in_type, self.out_type):
             case Err(e):
-- 
2.43.0


From 3a8bfa2194e6bcf75b018b86c4b5d9e316d3d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 45/84] fix: math nodes report undefined results as errors
 instead of raising

---
 ros_bt_py/ros_bt_py/nodes/maths.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/maths.py b/ros_bt_py/ros_bt_py/nodes/maths.py
index ee7bd43..989a532 100644
--- a/ros_bt_py/ros_bt_py/nodes/maths.py
+++ b/ros_bt_py/ros_bt_py/nodes/maths.py
@@ -46,6 +46,17 @@ from ros_bt_py.node import Leaf, define_bt_node
 from ros_bt_py.node_config import NodeConfig
 
 
+@typechecked
+def apply_function(
+    function: Callable[..., Any], *args: Any
+) -> Result[Any, BehaviorTreeException]:
+    """Apply `function`, report arguments it isn't defined for as an error."""
+    try:
+        return Ok(function(*args))
+    except (ArithmeticError, TypeError, ValueError) as ex:
+        return Err(BehaviorTreeException(f"Can't compute result for {args}: {ex}"))
+
+
 @typechecked
 def get_conversion(
     in_type: type, out_type: type
@@ -135,7 +146,7 @@ class Convert(Leaf):
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         return (
             self.inputs.get_value_as("in", self.in_type)
-            .map(lambda val: self.conversion(val))
+            .and_then(lambda val: apply_function(self.conversion, val))
             .and_then(lambda val: self.outputs.set_value("out", val))
             .map(lambda _: BTNodeState.SUCCEEDED)
         )
@@ -219,10 +230,11 @@ class Operation(Leaf):
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         return (
             do(
-                Ok(BINARY_OPERATIONS[s](a, b))
+                Ok(res)
                 for s in self.inputs.get_value_as("operator", str)
                 for a in self.inputs.get_value("a")
                 for b in self.inputs.get_value("b")
+                for res in apply_function(BINARY_OPERATIONS[s], a, b)
             )
             .and_then(lambda val: self.outputs.set_value("result", val))
             .map(lambda _: BTNodeState.SUCCEEDED)
@@ -319,9 +331,10 @@ class UnaryOperation(Leaf):
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         return (
             do(
-                Ok(UNARY_OPERATIONS[s](i))
+                Ok(res)
                 for s in self.inputs.get_value_as("operator", str)
                 for i in self.inputs.get_value("in")
+                for res in apply_function(UNARY_OPERATIONS[s], i)
             )
             .and_then(lambda val: self.outputs.set_value("result", val))
             .map(lambda _: BTNodeState.SUCCEEDED)
-- 
2.43.0


From 74f5b414af0b52cd03b59fe3941992319be21d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 46/84] fix: format strings apply the default conversions

---
 ros_bt_py/ros_bt_py/nodes/format.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/format.py b/ros_bt_py/ros_bt_py/nodes/format.py
index eff1a1e..144476a 100644
--- a/ros_bt_py/ros_bt_py/nodes/format.py
+++ b/ros_bt_py/ros_bt_py/nodes/format.py
@@ -66,10 +66,7 @@ class ExtendedFormatter(Formatter):
             return str(value).capitalize()
 
         # Do the default conversion or raise error if no matching conversion found
-        super(ExtendedFormatter, self).convert_field(value, conversion)
-
-        # return for None case
-        return value
+        return super(ExtendedFormatter, self).convert_field(value, conversion)
 
 
 myformatter = ExtendedFormatter()
-- 
2.43.0


From 3d7997182f94b44451875f607fbeeea248c651a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 47/84] fix: FormatStringList reads its list of format strings

---
 ros_bt_py/ros_bt_py/nodes/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/format.py b/ros_bt_py/ros_bt_py/nodes/format.py
index 144476a..f6f2b24 100644
--- a/ros_bt_py/ros_bt_py/nodes/format.py
+++ b/ros_bt_py/ros_bt_py/nodes/format.py
@@ -189,7 +189,7 @@ class FormatStringList(Leaf):
             return (
                 do(
                     Ok([myformatter.format(s, **d) for s in s_l])
-                    for s_l in self.inputs.get_value_as("format_strings", list[str])
+                    for s_l in self.inputs.get_value_as("format_strings", list)
                     for d in self.inputs.get_value_as("dict", dict)
                 )
                 .and_then(lambda val: self.outputs.set_value("formatted_strings", val))
-- 
2.43.0


From 8decb6131c82a5515f641ee4b6e795ddf4ed5200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 48/84] fix: SetAttr reads its declared value input

---
 ros_bt_py/ros_bt_py/nodes/setters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/setters.py b/ros_bt_py/ros_bt_py/nodes/setters.py
index 28ef75c..8e6e063 100644
--- a/ros_bt_py/ros_bt_py/nodes/setters.py
+++ b/ros_bt_py/ros_bt_py/nodes/setters.py
@@ -110,7 +110,7 @@ class SetAttr(Leaf):
                 Ok(set_and_return(o, n, v))
                 for o in self.inputs.get_value("object")
                 for n in self.inputs.get_value_as("attr_name", str)
-                for v in self.inputs.get_value("value")
+                for v in self.inputs.get_value("attr_value")
             )
             .and_then(lambda val: self.outputs.set_value("new_object", val))
             .map(lambda _: BTNodeState.SUCCEEDED)
-- 
2.43.0


From 236e79e56bcc13c97074809f95a3396d831ea309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 49/84] fix: InsertInList accepts every index its input accepts

---
 ros_bt_py/ros_bt_py/nodes/list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/list.py b/ros_bt_py/ros_bt_py/nodes/list.py
index 95bc03e..3390256 100644
--- a/ros_bt_py/ros_bt_py/nodes/list.py
+++ b/ros_bt_py/ros_bt_py/nodes/list.py
@@ -93,7 +93,8 @@ class InsertInList(Leaf):
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         def insert_and_return(li: list, index: int, val):
-            li.insert(index, val)
+            # `list.insert` rejects integers beyond the size of an index
+            li.insert(min(index, len(li)), val)
             return li
 
         return (
-- 
2.43.0


From d75e6532869be3a7dbd7a505d448cf55dc510db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 50/84] fix: SetAttr reports unknown attributes as an error
 instead of raising

---
 ros_bt_py/ros_bt_py/nodes/setters.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/setters.py b/ros_bt_py/ros_bt_py/nodes/setters.py
index 8e6e063..2ebe655 100644
--- a/ros_bt_py/ros_bt_py/nodes/setters.py
+++ b/ros_bt_py/ros_bt_py/nodes/setters.py
@@ -27,7 +27,7 @@
 # POSSIBILITY OF SUCH DAMAGE.
 
 
-from ros_bt_py.vendor.result import Result, Ok, do
+from ros_bt_py.vendor.result import Result, Ok, Err, do
 
 from ros_bt_py.data_types import (
     GenericType,
@@ -102,15 +102,19 @@ class SetAttr(Leaf):
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         def set_and_return(obj, attr, val):
-            rsetattr(obj, attr, val)
-            return obj
+            try:
+                rsetattr(obj, attr, val)
+            except AttributeError as ex:
+                return Err(BehaviorTreeException(f"Can't set attribute {attr}: {ex}"))
+            return Ok(obj)
 
         return (
             do(
-                Ok(set_and_return(o, n, v))
+                Ok(res)
                 for o in self.inputs.get_value("object")
                 for n in self.inputs.get_value_as("attr_name", str)
                 for v in self.inputs.get_value("attr_value")
+                for res in set_and_return(o, n, v)
             )
             .and_then(lambda val: self.outputs.set_value("new_object", val))
             .map(lambda _: BTNodeState.SUCCEEDED)
-- 
2.43.0


From 7f337485672218474427ba0e1f8daf31109ceb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 51/84] fix: SetAttr reports values an attribute rejects as an
 error instead of raising

---
 ros_bt_py/ros_bt_py/nodes/setters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/setters.py b/ros_bt_py/ros_bt_py/nodes/setters.py
index 2ebe655..7bb0f7d 100644
--- a/ros_bt_py/ros_bt_py/nodes/setters.py
+++ b/ros_bt_py/ros_bt_py/nodes/setters.py
@@ -104,7 +104,7 @@ class SetAttr(Leaf):
         def set_and_return(obj, attr, val):
             try:
                 rsetattr(obj, attr, val)
-            except AttributeError as ex:
+            except (AssertionError, AttributeError) as ex:
                 return Err(BehaviorTreeException(f"Can't set attribute {attr}: {ex}"))
             return Ok(obj)
 
-- 
2.43.0


From eb7e2317b5f37fc7efa4e093aec91167097248a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 52/84] fix: node outputs report values of a wrong type as an
 error instead of raising

---
 ros_bt_py/ros_bt_py/node_config.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node_config.py b/ros_bt_py/ros_bt_py/node_config.py
index 22c859d..610dbda 100644
--- a/ros_bt_py/ros_bt_py/node_config.py
+++ b/ros_bt_py/ros_bt_py/node_config.py
@@ -29,7 +29,7 @@
 from copy import deepcopy
 from typing import Any, Optional, TypeVar
 
-from typeguard import typechecked
+from typeguard import TypeCheckError, typechecked
 
 import itertools
 
@@ -112,7 +112,11 @@ class NodeOutputMap(NodeDataMap):
                 return Err(e)
             case Ok(c):
                 container = c
-        match container.set_value(value):
+        try:
+            result = container.set_value(value)
+        except TypeCheckError as ex:
+            result = Err(str(ex))
+        match result:
             case Err(s):
                 return Err(
                     NodeConfigError(
-- 
2.43.0


From f1b541fb539461f5f5abf6b5fb0694bcaac95450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 53/84] fix: feedback outputs of Action are those of its
 feedback message

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 015af54..c441332 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -510,7 +510,7 @@ class Action(ActionBase):
         for (
             field_name,
             field_type,
-        ) in self._result_type.get_fields_and_field_types().items():
+        ) in self._feedback_type.get_fields_and_field_types().items():
             combined_fields[f"feedback.{field_name}"] = field_type
         outputs = {}
         for field_name, field_type in combined_fields.items():
-- 
2.43.0


From 398c6a7919dcf13b0323e51b77f600717b4f3d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 54/84] fix: Action fails if its goal is rejected

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index c441332..3bde2a6 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -288,7 +288,11 @@ class ActionBase(Leaf):
             self._running_goal_handle = self._new_goal_request_future.result()
             self._new_goal_request_future = None
 
-            if self._running_goal_handle is None:
+            if (
+                self._running_goal_handle is None
+                or not self._running_goal_handle.accepted
+            ):
+                self._running_goal_handle = None
                 self.logwarn("Action goal was rejeced by the server!")
                 self._internal_state = ActionStates.FINISHED
                 return Ok(BTNodeState.FAILED)
-- 
2.43.0


From c52ff608763fb80a2f849d613c906fb5a145b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 55/84] fix: Action sends its goal again after untick

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 3bde2a6..985c72f 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -145,6 +145,7 @@ class ActionBase(Leaf):
         self._feedback = None
 
         self._internal_state = ActionStates.IDLE
+        self._input_goal = None
 
         self._new_goal_request_future = None
         self._running_goal_handle = None
@@ -320,12 +321,15 @@ class ActionBase(Leaf):
             case Ok(b):
                 updated = b
         # If the current state is idle, this is the first tick after setup, reset or untick
-        if updated:
+        if updated or self._internal_state == ActionStates.IDLE:
             match self.get_goal():
                 case Err(e):
                     return Err(e)
                 case Ok(g):
                     self._input_goal = g
+        if updated and self._internal_state == ActionStates.IDLE:
+            # The client might still belong to the previous action name
+            self._destroy_action_client()
         if updated and self._internal_state not in [
             ActionStates.IDLE,
             ActionStates.FINISHED,
@@ -374,13 +378,16 @@ class ActionBase(Leaf):
         if self._input_goal is None:
             return Ok(self.state)
         else:
-            if self._action_client is not None:
-                self._action_client.destroy()
-                self._action_client = None
+            self._destroy_action_client()
 
             self._internal_state = ActionStates.IDLE
             return Ok(BTNodeState.RUNNING)
 
+    def _destroy_action_client(self) -> None:
+        if self._action_client is not None:
+            self._action_client.destroy()
+            self._action_client = None
+
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
         if self._internal_state == ActionStates.WAITING_FOR_ACTION_COMPLETE:
             cancel_result = self._do_tick_cancel_running_goal()
@@ -402,9 +409,7 @@ class ActionBase(Leaf):
                 return Err(e)
             case Ok(_):
                 pass
-        if self._action_client is not None:
-            self._action_client.destroy()
-            self._action_client = None
+        self._destroy_action_client()
         return Ok(BTNodeState.IDLE)
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
-- 
2.43.0


From fcc60e269036cf1660229bf6a8eddac4e351c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 56/84] fix: Action handles new inputs while its goal isn't
 accepted yet

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 985c72f..0cd599d 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -301,6 +301,11 @@ class ActionBase(Leaf):
             self._running_goal_start_time = self.ros_node.get_clock().now()
             self._running_goal_future = self._running_goal_handle.get_result_async()
 
+            if self._input_goal is not None:
+                # The inputs changed in the meantime, replace the goal
+                self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
+                return Ok(BTNodeState.RUNNING)
+
             self._internal_state = ActionStates.WAITING_FOR_ACTION_COMPLETE
             return Ok(BTNodeState.RUNNING)
 
@@ -333,6 +338,7 @@ class ActionBase(Leaf):
         if updated and self._internal_state not in [
             ActionStates.IDLE,
             ActionStates.FINISHED,
+            ActionStates.WAITING_FOR_GOAL_ACCEPTANCE,
             ActionStates.WAITING_FOR_GOAL_CANCELLATION,
         ]:
             self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
-- 
2.43.0


From 1923739dbe1a6f1f48776242f96c04bbe4a131c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 57/84] fix: Action cancels a goal that is unticked before it
 is accepted or cancelled

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 0cd599d..f96121f 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -394,12 +394,24 @@ class ActionBase(Leaf):
             self._action_client.destroy()
             self._action_client = None
 
+    def _cancel_accepted_goal(self, goal_request_future) -> None:
+        goal_handle = goal_request_future.result()
+        if goal_handle is not None and goal_handle.accepted:
+            goal_handle.cancel_goal_async()
+
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
-        if self._internal_state == ActionStates.WAITING_FOR_ACTION_COMPLETE:
+        if self._internal_state in [
+            ActionStates.WAITING_FOR_ACTION_COMPLETE,
+            ActionStates.REQUEST_GOAL_CANCELLATION,
+        ]:
             cancel_result = self._do_tick_cancel_running_goal()
             if cancel_result.is_err():
                 return cancel_result
+        elif self._new_goal_request_future is not None:
+            # There is no handle yet, cancel the goal as soon as it's accepted
+            self._new_goal_request_future.add_done_callback(self._cancel_accepted_goal)
 
+        self._new_goal_request_future = None
         self._last_goal_time = None
         self._running_goal_future = None
         self._running_goal_handle = None
-- 
2.43.0


From 97446a0cab7c7d6274a4ec5ad23d7b2006c8fa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 58/84] fix: Action ignores feedback of goals it cancelled

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index f96121f..ce54b60 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -143,6 +143,7 @@ class ActionBase(Leaf):
 
         self._lock = Lock()
         self._feedback = None
+        self._goal_token = None
 
         self._internal_state = ActionStates.IDLE
         self._input_goal = None
@@ -264,8 +265,18 @@ class ActionBase(Leaf):
         """Tick to request the execution of a new goal on the action server."""
         if self._action_client is None:
             return Err(BehaviorTreeException("No action client available"))
+        # Feedback of earlier goals doesn't concern the new one
+        goal_token = object()
+        with self._lock:
+            self._feedback = None
+            self._goal_token = goal_token
+
+        def feedback_cb(feedback) -> None:
+            if self._goal_token is goal_token:
+                self._feedback_cb(feedback)
+
         self._new_goal_request_future = self._action_client.send_goal_async(
-            goal=self._input_goal, feedback_callback=self._feedback_cb
+            goal=self._input_goal, feedback_callback=feedback_cb
         )
 
         self._input_goal = None
@@ -416,6 +427,7 @@ class ActionBase(Leaf):
         self._running_goal_future = None
         self._running_goal_handle = None
         self._cancel_goal_future = None
+        self._goal_token = None
         self._feedback = None
         self._internal_state = ActionStates.IDLE
 
-- 
2.43.0


From c592630f3b672e7ea8b2fcd5a6c6e96db72e542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 59/84] fix: Action fails if its goal is aborted or cancelled
 by the server

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index ce54b60..8508abf 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -33,6 +33,7 @@ from enum import Enum
 
 from ros_bt_py.vendor.result import Result, Ok, Err
 
+from action_msgs.msg import GoalStatus
 from rclpy.action.client import ActionClient
 from rclpy.callback_groups import ReentrantCallbackGroup
 from rclpy.time import Time
@@ -182,6 +183,14 @@ class ActionBase(Leaf):
             self._running_goal_handle = None
             self._running_goal_future = None
             self._internal_state = ActionStates.FINISHED
+            if result.status in [
+                GoalStatus.STATUS_ABORTED,
+                GoalStatus.STATUS_CANCELED,
+            ]:
+                self.logwarn("Action was aborted or cancelled by the remote server!")
+                return self.set_result_outputs(result.result).map(
+                    lambda _: BTNodeState.FAILED
+                )
             self.loginfo("Action succeeded, publishing result!")
             return self.set_result_outputs(result.result)
 
-- 
2.43.0


From 730659fadcb01288b20a68abda28f04799bed0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 60/84] fix: Action uses the new action name if it is unticked
 before it reconnects

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 8508abf..b38ce4b 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -345,6 +345,11 @@ class ActionBase(Leaf):
                 return Err(e)
             case Ok(b):
                 updated = b
+        if self._internal_state == ActionStates.IDLE and (
+            updated or self._input_goal is not None
+        ):
+            # The client might still belong to the previous action name
+            self._destroy_action_client()
         # If the current state is idle, this is the first tick after setup, reset or untick
         if updated or self._internal_state == ActionStates.IDLE:
             match self.get_goal():
@@ -352,9 +357,6 @@ class ActionBase(Leaf):
                     return Err(e)
                 case Ok(g):
                     self._input_goal = g
-        if updated and self._internal_state == ActionStates.IDLE:
-            # The client might still belong to the previous action name
-            self._destroy_action_client()
         if updated and self._internal_state not in [
             ActionStates.IDLE,
             ActionStates.FINISHED,
-- 
2.43.0


From 8bf138a78da015b5e98c93ef53881be5c13d3991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 61/84] fix: Messages of earlier subscriptions are not handed
 on by topic subscribers

---
 ros_bt_py/ros_bt_py/ros_nodes/topic.py | 44 +++++++++++++++++++-------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/topic.py b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
index b179837..5728c6b 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/topic.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
@@ -89,9 +89,17 @@ class TopicSubscriber(Leaf):
         self._msg = None
         return Ok(BTNodeState.IDLE)
 
-    def _callback(self, msg):
-        with self._lock:
-            self._msg = msg
+    def _make_callback(self):
+        # Ignore messages of earlier subscriptions that are still being delivered
+        token = object()
+        self._subscription_token = token
+
+        def callback(msg):
+            with self._lock:
+                if self._subscription_token is token:
+                    self._msg = msg
+
+        return callback
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         match self.inputs.any_updated(
@@ -150,7 +158,7 @@ class TopicSubscriber(Leaf):
             self._subscriber = self.ros_node.create_subscription(
                 msg_type=topic_type,
                 topic=topic_name,
-                callback=self._callback,
+                callback=self._make_callback(),
                 qos_profile=qos_profile,
             )
 
@@ -168,7 +176,9 @@ class TopicSubscriber(Leaf):
         return self._do_reset().map(lambda _: BTNodeState.SHUTDOWN)
 
     def _do_reset(self) -> Result[BTNodeState, BehaviorTreeException]:
-        self._msg = None
+        with self._lock:
+            self._subscription_token = None
+            self._msg = None
         subscriber = getattr(self, "_subscriber", None)
         if subscriber is None:
             return Ok(BTNodeState.IDLE)
@@ -287,10 +297,18 @@ class TopicMemorySubscriber(Leaf):
                 self._memory_delay = f
         return Ok(BTNodeState.IDLE)
 
-    def _callback(self, msg):
-        with self._lock:
-            self._msg = msg
-            self._msg_timestamp = self.ros_node.get_clock().now()
+    def _make_callback(self):
+        # Ignore messages of earlier subscriptions that are still being delivered
+        token = object()
+        self._subscription_token = token
+
+        def callback(msg):
+            with self._lock:
+                if self._subscription_token is token:
+                    self._msg = msg
+                    self._msg_timestamp = self.ros_node.get_clock().now()
+
+        return callback
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         match self.inputs.any_updated(
@@ -349,7 +367,7 @@ class TopicMemorySubscriber(Leaf):
             self._subscriber = self.ros_node.create_subscription(
                 msg_type=topic_type,
                 topic=topic_name,
-                callback=self._callback,
+                callback=self._make_callback(),
                 qos_profile=qos_profile,
             )
 
@@ -370,8 +388,10 @@ class TopicMemorySubscriber(Leaf):
         return self._do_reset().map(lambda _: BTNodeState.SHUTDOWN)
 
     def _do_reset(self) -> Result[BTNodeState, BehaviorTreeException]:
-        self._msg = None
-        self._msg_timestamp = None
+        with self._lock:
+            self._subscription_token = None
+            self._msg = None
+            self._msg_timestamp = None
         subscriber = getattr(self, "_subscriber", None)
         if subscriber is None:
             return Ok(BTNodeState.IDLE)
-- 
2.43.0


From 6f185814e87c372892e82db4a140d915826d18cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 62/84] fix: Parallel nodes only report utility bounds known
 for every child

---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index 613c71e..4f8bf3d 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -188,6 +188,9 @@ class Parallel(FlowControl):
         # respective bound (ascending for the lower bounds, descending
         # for the upper bounds) and then summing the first
         # "needed_successes" values from the sorted array.
+        #
+        # Any child might be part of the group, so a bound is only known if it
+        # is known for every child.
 
         child_bounds_results = [child.calculate_utility() for child in self.children]
         bounds = UtilityBounds()
@@ -221,7 +224,7 @@ class Parallel(FlowControl):
             :success_threshold
         ]
         bounds.has_lower_bound_success = all(
-            (b.has_lower_bound_success for b in best_success_group)
+            (b.has_lower_bound_success for b in child_bounds)
         )
         if bounds.has_lower_bound_success:
             bounds.lower_bound_success = math.fsum(
@@ -232,7 +235,7 @@ class Parallel(FlowControl):
             child_bounds, reverse=True, key=lambda b: b.upper_bound_success
         )[:success_threshold]
         bounds.has_upper_bound_success = all(
-            (b.has_upper_bound_success for b in worst_success_group)
+            (b.has_upper_bound_success for b in child_bounds)
         )
         if bounds.has_upper_bound_success:
             bounds.upper_bound_success = math.fsum(
@@ -254,7 +257,7 @@ class Parallel(FlowControl):
             :failure_threshold
         ]
         bounds.has_lower_bound_failure = all(
-            (b.has_lower_bound_failure for b in best_failure_group)
+            (b.has_lower_bound_failure for b in child_bounds)
         )
         if bounds.has_lower_bound_failure:
             bounds.lower_bound_failure = math.fsum(
@@ -265,7 +268,7 @@ class Parallel(FlowControl):
             child_bounds, reverse=True, key=lambda b: b.upper_bound_failure
         )[:failure_threshold]
         bounds.has_upper_bound_failure = all(
-            (b.has_upper_bound_failure for b in worst_failure_group)
+            (b.has_upper_bound_failure for b in child_bounds)
         )
         if bounds.has_upper_bound_failure:
             bounds.upper_bound_failure = math.fsum(
@@ -433,6 +436,9 @@ class ParallelFailureTolerance(FlowControl):
         # respective bound (ascending for the lower bounds, descending
         # for the upper bounds) and then summing the first
         # "needed_successes" values from the sorted array.
+        #
+        # Any child might be part of the group, so a bound is only known if it
+        # is known for every child.
         child_bounds_results = [child.calculate_utility() for child in self.children]
         bounds = UtilityBounds()
         failures = [
@@ -465,7 +471,7 @@ class ParallelFailureTolerance(FlowControl):
             :success_threshold
         ]
         bounds.has_lower_bound_success = all(
-            (b.has_lower_bound_success for b in best_success_group)
+            (b.has_lower_bound_success for b in child_bounds)
         )
         if bounds.has_lower_bound_success:
             bounds.lower_bound_success = math.fsum(
@@ -476,7 +482,7 @@ class ParallelFailureTolerance(FlowControl):
             child_bounds, reverse=True, key=lambda b: b.upper_bound_success
         )[:success_threshold]
         bounds.has_upper_bound_success = all(
-            (b.has_upper_bound_success for b in worst_success_group)
+            (b.has_upper_bound_success for b in child_bounds)
         )
         if bounds.has_upper_bound_success:
             bounds.upper_bound_success = math.fsum(
@@ -498,7 +504,7 @@ class ParallelFailureTolerance(FlowControl):
             :failure_threshold
         ]
         bounds.has_lower_bound_failure = all(
-            (b.has_lower_bound_failure for b in best_failure_group)
+            (b.has_lower_bound_failure for b in child_bounds)
         )
         if bounds.has_lower_bound_failure:
             bounds.lower_bound_failure = math.fsum(
@@ -509,7 +515,7 @@ class ParallelFailureTolerance(FlowControl):
             child_bounds, reverse=True, key=lambda b: b.upper_bound_failure
         )[:failure_threshold]
         bounds.has_upper_bound_failure = all(
-            (b.has_upper_bound_failure for b in worst_failure_group)
+            (b.has_upper_bound_failure for b in child_bounds)
         )
         if bounds.has_upper_bound_failure:
             bounds.upper_bound_failure = math.fsum(
-- 
2.43.0


From ff9ab3113c892019df098728fc1b389d9f506ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 63/84] fix: Topic nodes report their lower bound for failure
 and compare topic types by name

---
 ros_bt_py/ros_bt_py/ros_nodes/topic.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/topic.py b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
index 5728c6b..d20778f 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/topic.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
@@ -52,6 +52,7 @@ from ros_bt_py.exceptions import BehaviorTreeException
 from ros_bt_py.helpers import BTNodeState
 from ros_bt_py.node import Leaf, define_bt_node
 from ros_bt_py.node_config import NodeConfig
+from ros_bt_py.ros_helpers import get_interface_name
 
 
 @define_bt_node(
@@ -238,7 +239,7 @@ class TopicSubscriber(Leaf):
 
         for endpoint in self.ros_node.get_publishers_info_by_topic(resolved_topic):
             if (
-                endpoint.topic_type == topic_type
+                endpoint.topic_type == get_interface_name(topic_type)
                 and endpoint.qos_profile == qos_profile
             ):
                 # if the topic we want exists, we can do our job, so
@@ -248,7 +249,7 @@ class TopicSubscriber(Leaf):
                         can_execute=True,
                         has_lower_bound_success=True,
                         has_upper_bound_success=True,
-                        has_lower_bound_failre=True,
+                        has_lower_bound_failure=True,
                         has_upper_bound_failure=True,
                     )
                 )
@@ -451,7 +452,7 @@ class TopicMemorySubscriber(Leaf):
 
         for endpoint in self.ros_node.get_publishers_info_by_topic(resolved_topic):
             if (
-                endpoint.topic_type == topic_type
+                endpoint.topic_type == get_interface_name(topic_type)
                 and endpoint.qos_profile == qos_profile
             ):
                 # if the topic we want exists, we can do our job, so
@@ -461,7 +462,7 @@ class TopicMemorySubscriber(Leaf):
                         can_execute=True,
                         has_lower_bound_success=True,
                         has_upper_bound_success=True,
-                        has_lower_bound_failre=True,
+                        has_lower_bound_failure=True,
                         has_upper_bound_failure=True,
                     )
                 )
-- 
2.43.0


From 60b70ee31cd819a1b51b25e2fba7deeed96eaed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 64/84] fix: Shutting down waits for a tick thread that has
 just failed

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 2ee7da4..5f9d896 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1350,6 +1350,10 @@ class TreeExecManager:
             ControlTreeExecution.Request.STOP,
             ControlTreeExecution.Request.SHUTDOWN,
         ]:
+            if is_ticking and tree_state == TreeState.ERROR:
+                # The tick has just failed, its thread is about to finish
+                tick_thread.join(0.5)
+
             if tree_state == TreeState.TICKING or (
                 is_ticking and tree_state != TreeState.ERROR
             ):
-- 
2.43.0


From 43cc3159b25e8f7bea3a6fc186b3e21970ab2d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 65/84] fix: File nodes fail instead of raising when a package
 or file can't be read

---
 ros_bt_py/ros_bt_py/nodes/file.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/file.py b/ros_bt_py/ros_bt_py/nodes/file.py
index 6c1ecf4..10b967d 100644
--- a/ros_bt_py/ros_bt_py/nodes/file.py
+++ b/ros_bt_py/ros_bt_py/nodes/file.py
@@ -62,9 +62,12 @@ def load_file(path):
         file_path = path[len("file://") :]
     elif path.startswith("package://"):
         package_name = path[len("package://") :].split("/", 1)[0]
-        package_path = ament_index_python.get_package_share_directory(
-            package_name=package_name
-        )
+        try:
+            package_path = ament_index_python.get_package_share_directory(
+                package_name=package_name
+            )
+        except (LookupError, ValueError) as ex:
+            raise LoadFileError(f"Error finding package {package_name}: {str(ex)}")
         file_path = package_path + path[len("package://") + len(package_name) :]
     else:
         raise LoadFileError(
@@ -73,13 +76,15 @@ def load_file(path):
         )
     try:
         data_file = open(file_path, "r")
-    except IOError as ex:
+    except (IOError, ValueError) as ex:
         error_msg = f"Error opening file {file_path}: {str(ex)}"
         raise LoadFileError(error_msg)
     with data_file:
         try:
             data = yaml.safe_load(data_file)
-        except yaml.YAMLError as ex:
+        except Exception as ex:
+            # The file may not be text, and values that don't fit their tag
+            # raise all kinds of exceptions
             raise LoadFileError(f"Yaml error in file {file_path}: {str(ex)}")
     return data
 
-- 
2.43.0


From a57d8d45a8b99f4bd2b7f4f74b14c0ed219b3304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 66/84] fix: lists of a fixed length start without a value
 instead of a too short one

---
 ros_bt_py/ros_bt_py/data_types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 6edffa3..0b75b43 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -777,6 +777,10 @@ class IterableContainer(BuiltinContainer[ITER]):
         if strict_length is not None:
             self.strict_length = strict_length
 
+        if self.strict_length and self.max_length > 0:
+            # The empty default value doesn't have the required length
+            self._value = None
+
         super().__init__(*args, **kwargs)
 
     @classmethod
-- 
2.43.0


From b955e5fa12ac76d3763fa3a5aa1c33abfa845f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:40 +0000
Subject: [PATCH 67/84] fix: save_tree refuses paths that leave the storage
 container

---
 ros_bt_py/ros_bt_py/package_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 18d22de..47317de 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -154,6 +154,12 @@ class PackageManager(object):
                 os.path.join(request.storage_path, request.filepath)
             )
 
+            storage_path = os.path.abspath(request.storage_path)
+            if os.path.commonpath([storage_path, save_filepath]) != storage_path:
+                response.success = False
+                response.error_message = "File path is not in the storage container!"
+                return response
+
             split_save_filepath = save_filepath.rstrip(os.sep)  # split trailing /
             path, filename = os.path.split(split_save_filepath)
 
-- 
2.43.0


From a141fd76aeb609bbeb305f6f3fe65836a652db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 68/84] fix: a save that fails half way does not destroy the
 tree saved before

---
 ros_bt_py/ros_bt_py/package_manager.py | 28 ++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 47317de..0eed2e8 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -26,9 +26,12 @@
 # ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 # POSSIBILITY OF SUCH DAMAGE.
 
+import contextlib
 import json
 import os
 import inspect
+import shutil
+import uuid
 from importlib import metadata
 import ament_index_python
 from ament_index_python import PackageNotFoundError
@@ -76,6 +79,22 @@ def make_filepath_unique(filepath):
     return name + extension
 
 
+def replace_file(filepath: str, content: str) -> None:
+    """Write `content` to `filepath`, which is left as it is if that fails half way."""
+    filepath = os.path.realpath(filepath)
+    temporary = os.path.join(os.path.dirname(filepath), f".{uuid.uuid4().hex}.tmp")
+    try:
+        with open(temporary, "x") as temporary_file:
+            temporary_file.write(content)
+        if os.path.exists(filepath):
+            shutil.copymode(filepath, temporary)
+        os.replace(temporary, filepath)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.unlink(temporary)
+        raise
+
+
 def to_message_type(message: type) -> Optional[MessageType]:
     message_type_msg = MessageType()
     message_type_msg.name = get_interface_name(message)
@@ -197,10 +216,11 @@ class PackageManager(object):
             # Set path to blank, this value should not be persisted
             request.tree.path = ""
 
-            with open(split_save_filepath, "w") as save_file:
-                save_file.write(f"version: {metadata.version('ros_bt_py')}\n")
-                msg = rosidl_runtime_py.message_to_yaml(request.tree)
-                save_file.write(msg)
+            msg = rosidl_runtime_py.message_to_yaml(request.tree)
+            replace_file(
+                split_save_filepath,
+                f"version: {metadata.version('ros_bt_py')}\n{msg}",
+            )
             response.file_path = split_save_filepath
             response.success = True
             return response
-- 
2.43.0


From 29f92fe02916a58016bc5547c38a0974cbaad072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 69/84] fix: invalid file and package names are refused instead
 of raising

---
 ros_bt_py/ros_bt_py/package_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 0eed2e8..c0187ee 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -225,7 +225,8 @@ class PackageManager(object):
             response.success = True
             return response
 
-        except IOError:
+        # ValueError is raised for paths that contain null bytes
+        except (IOError, ValueError):
             response.success = False
             response.error_message = f'IOError on file: "{request.filepath}"'
 
@@ -360,7 +361,8 @@ class PackageManager(object):
 
             response.success = True
             response.package_structure = json.dumps(package_structure)
-        except PackageNotFoundError:
+        # ValueError is raised for names that can't belong to a package
+        except (PackageNotFoundError, ValueError):
             response.success = False
             response.error_message = f'Package "{request.package}" does not exist'
 
-- 
2.43.0


From d7ef67d76db40b40548a2eec50b689610657afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:57 +0000
Subject: [PATCH 70/84] fix: listing a folder with a link to one of its parents
 ends

---
 ros_bt_py/ros_bt_py/package_manager.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index c0187ee..556394c 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -318,10 +318,16 @@ class PackageManager(object):
     def reset_id(self):
         self.item_id = 0
 
-    def path_to_dict(self, path, show_hidden=False, parent=0):
+    def path_to_dict(self, path, show_hidden=False, parent=0, parent_paths=()):
         """Turn a path into a dictionary."""
         d = {"name": os.path.basename(path), "item_id": self.get_id(), "parent": parent}
         if os.path.isdir(path):
+            real_path = os.path.realpath(path)
+            if real_path in parent_paths:
+                # This link leads back to where we came from
+                d["type"] = "directory"
+                d["children"] = []
+                return d
             try:
                 d["type"] = "directory"
                 d["children"] = [
@@ -329,6 +335,7 @@ class PackageManager(object):
                         os.path.join(path, f),
                         show_hidden=show_hidden,
                         parent=d["item_id"],
+                        parent_paths=(*parent_paths, real_path),
                     )
                     for f in os.listdir(path)
                     if (show_hidden or not f.startswith("."))
-- 
2.43.0


From d3493e5d4f6ee078892e32897d26ae811728efbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 71/84] fix: concurrent saves and listings do not get into each
 other's way

---
 ros_bt_py/ros_bt_py/package_manager.py | 31 ++++++++++++++++++--------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 556394c..c23d867 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -33,6 +33,7 @@ import inspect
 import shutil
 import uuid
 from importlib import metadata
+from threading import Lock
 import ament_index_python
 from ament_index_python import PackageNotFoundError
 
@@ -127,6 +128,8 @@ class PackageManager(object):
         publish_packages_list_callback: Optional[rclpy.publisher.Publisher] = None,
     ):
         self.item_id = 0
+        self._save_lock = Lock()
+        self._structure_lock = Lock()
         self.tree_storage_directory_paths = []
         for path in tree_storage_directory_paths:
             self.tree_storage_directory_paths.append(
@@ -158,6 +161,14 @@ class PackageManager(object):
         Always returns the path under which the tree was saved
         in response.file_path in the package:// style
         """
+        # Services are answered by several threads,
+        #   only one of them may look for a free file name at a time
+        with self._save_lock:
+            return self._save_tree_to_path(request, response)
+
+    def _save_tree_to_path(
+        self, request: SaveTree.Request, response: SaveTree.Response
+    ) -> SaveTree.Response:
         if request.storage_path not in self.tree_storage_directory_paths:
             response.success = False
             response.error_message = "Storage container does not exist on host!"
@@ -361,10 +372,11 @@ class PackageManager(object):
             package_path = ament_index_python.get_package_share_directory(
                 request.package
             )
-            self.reset_id()
-            package_structure = self.path_to_dict(
-                path=package_path, show_hidden=request.show_hidden
-            )
+            with self._structure_lock:
+                self.reset_id()
+                package_structure = self.path_to_dict(
+                    path=package_path, show_hidden=request.show_hidden
+                )
 
             response.success = True
             response.package_structure = json.dumps(package_structure)
@@ -392,11 +404,12 @@ class PackageManager(object):
                 f"{self.tree_storage_directory_paths}!"
             )
             return response
-        self.reset_id()
-        package_structure = self.path_to_dict(
-            path=os.path.abspath(request.storage_folder),
-            show_hidden=request.show_hidden,
-        )
+        with self._structure_lock:
+            self.reset_id()
+            package_structure = self.path_to_dict(
+                path=os.path.abspath(request.storage_folder),
+                show_hidden=request.show_hidden,
+            )
 
         response.success = True
         response.storage_folder_structure = json.dumps(package_structure)
-- 
2.43.0


From 91919ee052696e925f618fbadcc9c05aaa132ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 72/84] fix: switching diagnostics on while an operation is
 under way does not break it

---
 ros_bt_py/ros_bt_py/debug_manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/debug_manager.py b/ros_bt_py/ros_bt_py/debug_manager.py
index 77cde21..23f72fd 100644
--- a/ros_bt_py/ros_bt_py/debug_manager.py
+++ b/ros_bt_py/ros_bt_py/debug_manager.py
@@ -118,6 +118,7 @@ class DebugManager(object):
                 "stamp": self._ros_node.get_clock().now(),
                 "module": type(node_instance).__module__,
                 "node_class": type(node_instance).__name__,
+                "state": self.diagnostics_state[state][0],
                 "path": [],
             }
 
@@ -134,7 +135,8 @@ class DebugManager(object):
         # Contextmanager'ed code is executed here
         yield
 
-        if self._collect_node_diagnostics:
+        # Diagnostics might have been turned on in the meantime
+        if self._collect_node_diagnostics and diagnostics:
             diagnostics["state"] = self.diagnostics_state[state][1]
             diagnostics["stamp"] = self._ros_node.get_clock().now()
             if self.publish_node_diagnostics:
@@ -180,7 +182,8 @@ class DebugManager(object):
         # Contextmanager'ed code is executed here
         yield
 
-        if self._collect_node_diagnostics:
+        # Diagnostics might have been turned on in the meantime
+        if self._collect_node_diagnostics and diagnostics:
             diagnostics["state"] = "POST_TICK"
             diagnostics["stamp"] = self._ros_node.get_clock().now()
 
-- 
2.43.0


From f916930f47581483ee8d804d965c213bbc595724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:22 +0000
Subject: [PATCH 73/84] fix: do not print the interpreter stack with every log
 message

---
 ros_bt_py/ros_bt_py/logging_manager.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/logging_manager.py b/ros_bt_py/ros_bt_py/logging_manager.py
index b13b065..bc65bec 100644
--- a/ros_bt_py/ros_bt_py/logging_manager.py
+++ b/ros_bt_py/ros_bt_py/logging_manager.py
@@ -126,7 +126,6 @@ class LoggingManager:
             log_message.node_id = uuid_to_ros(node_id)
 
         stack = inspect.stack()
-        print(stack)
         if stacklevel < 0 or stacklevel >= len(stack):
             frame = stack[-1]
         else:
@@ -135,7 +134,6 @@ class LoggingManager:
         log_message.file = os.path.abspath(frame.filename)
         log_message.function = frame.function
         log_message.line = frame.lineno
-        print(log_message)
 
         if self.publish_log_callback is not None:
             self.publish_log_callback(log_message)
-- 
2.43.0


From 8d210f9f9a2c3260c5e1fe8bb8878f9500e8917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:27 +0000
Subject: [PATCH 74/84] fix: tick duration is in seconds, so slow ticks and the
 tick frequency are reported correctly

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 5f9d896..806e63c 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -787,14 +787,15 @@ class TreeExecManager:
             # We know that Time - Time = Duration
             tick_rate = self.tick_frequency_hz
 
-            if (1 / tick_rate) > (duration.nanoseconds * 1e9):
+            duration_seconds = duration.nanoseconds / 1e9
+            if duration_seconds > (1 / tick_rate):
                 self.get_logger().warn(
                     "Tick took longer than set period, cannot tick at "
                     f"{self.tick_frequency_hz:.2f} Hz"
                 )
 
             self.tick_sliding_window.pop(0)
-            self.tick_sliding_window.append(duration.nanoseconds * 1e9)
+            self.tick_sliding_window.append(1 / max(duration_seconds, 1 / tick_rate))
             tick_frequency_avg = sum(self.tick_sliding_window) / len(
                 self.tick_sliding_window
             )
-- 
2.43.0


From de5d7249b743b9f83057c7d8a77d7473b8153470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 75/84] fix: diagnostics carry the name of the tree that is
 loaded

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 806e63c..5a8ef54 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -426,6 +426,7 @@ class TreeExecManager:
         with self._tree_lock:
             self._tree_structure.name = new_name
             self.logging_manager.set_tree_name(new_name)
+            self.diagnostic_status.name = os.path.splitext(new_name)[0]
 
     @property
     @typechecked
@@ -542,6 +543,7 @@ class TreeExecManager:
             case Ok(r_id):
                 root = self.nodes.get(r_id)
         if root is not None:
+            self.diagnostic_status.name = root.name
             self.get_logger().warn(
                 "No tree name was found. Diagnostics data from the behavior tree will be"
                 f"published under the name of the root_node: {self.diagnostic_status.name}",
@@ -1015,7 +1017,7 @@ class TreeExecManager:
 
         response.success = True
         self.get_logger().info("Successfully loaded tree")
-        if self.publish_diagnostic is None:
+        if self.publish_diagnostic is not None:
             self.set_diagnostics_name()
         return response
 
-- 
2.43.0


From 24919e88524c5b49e3861dd6c9ccff13afd0e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 76/84] fix: states and data of a subtree that was replaced are
 not published any more

---
 ros_bt_py/ros_bt_py/subtree_manager.py   | 3 +++
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/subtree_manager.py b/ros_bt_py/ros_bt_py/subtree_manager.py
index 8cca04d..6f287ac 100644
--- a/ros_bt_py/ros_bt_py/subtree_manager.py
+++ b/ros_bt_py/ros_bt_py/subtree_manager.py
@@ -115,6 +115,9 @@ class SubtreeManager(object):
     ) -> None:
         with self._lock:
             self.subtree_structures[node_id] = subtree_msg
+            # These belong to the tree that was there before
+            self.subtree_states.pop(node_id, None)
+            self.subtree_data.pop(node_id, None)
 
     def add_subtree_state(self, node_id: uuid.UUID, subtree_msg: TreeState):
         with self._lock:
diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index d563b14..f864003 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -380,6 +380,7 @@ class TreeEditManager(TreeExecManager):
 
         old_node = self.nodes[node_id]
         request.new_node.node_id = uuid_to_ros(node_id)
+        self.subtree_manager.remove_subtree(node_id)
 
         match self.instantiate_node_from_msg(request.new_node, self.ros_node):
             case Err(e):
-- 
2.43.0


From 8a805664eeea0b8cff0870e6a7fac9ef6364824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:26 +0000
Subject: [PATCH 77/84] fix: publish the final states of a tree that stops by
 itself

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 5a8ef54..f4804f1 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -814,6 +814,7 @@ class TreeExecManager:
         # Ensure all nodes are stopped and not doing anything in
         # the background.
         untick_result = root.untick()
+        self.publish_state()
         return untick_result.map(lambda x: None)
 
     ####################
-- 
2.43.0


From 1ac1ce2a4644b879697550ff83ac3869d1e387a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 78/84] fix: subtrees are still published after
 SETUP_AND_SHUTDOWN

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index f4804f1..31924be 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1335,8 +1335,6 @@ class TreeExecManager:
                 self.get_logger().warn(response.error_message)
                 return response
 
-            if self.subtree_manager:
-                self.subtree_manager.clear_subtrees()
             find_root_result = self.find_root()
             if find_root_result.is_err():
                 response.success = False
-- 
2.43.0


From 9453744f03214b1f99032ae64dd5f19b91558935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:17 +0000
Subject: [PATCH 79/84] fix: refuse node modules that raise while they are
 imported

---
 ros_bt_py/ros_bt_py/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 3b6eee8..4a519f1 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1294,7 +1294,8 @@ def load_node_module(package_name: str) -> Optional[ModuleType]:
     """
     try:
         return importlib.import_module(package_name)
-    except (ImportError, ValueError, TypeError) as exc:
+    except Exception as exc:
+        # Importing runs the code of the module, which can raise anything
         rclpy.logging.get_logger(package_name or __name__).error(
             f'Could not load node module "{package_name}": {repr(exc)}',
             throttle_duration_sec=30,
-- 
2.43.0


From 5d823f882ab8d55847e5f951b13aec41400f283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:22 +0000
Subject: [PATCH 80/84] fix: list node classes while other clients load modules

---
 ros_bt_py/ros_bt_py/package_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index c23d867..c067867 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -449,8 +449,9 @@ class PackageManager(object):
                 return response
 
         response.available_nodes = []
-        for module, nodes in Node.node_classes.items():
-            for class_name, node_class in nodes.items():
+        # Other clients may be loading modules
+        for module, nodes in list(Node.node_classes.items()):
+            for class_name, node_class in list(nodes.items()):
                 if not node_class._node_config:
                     LOGGER.warning(
                         f"Node class: {node_class.__name__} does not have node config!"
-- 
2.43.0


From 665674469827a8e1aad62a54039370962a95698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:12 +0000
Subject: [PATCH 81/84] fix: rates of trees that are not ticked keep their
 timers running

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 31924be..41252c0 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -41,6 +41,7 @@ import rclpy
 from rclpy.utilities import ok
 import rclpy.node
 from rclpy.duration import Duration
+from rclpy.timer import Rate
 
 import yaml
 import yaml.scanner
@@ -367,7 +368,8 @@ class TreeExecManager:
         self.state = TreeState.EDITABLE
         self.tick_frequency_hz = tick_frequency_hz
 
-        self.rate = self.ros_node.create_rate(self.tick_frequency_hz)
+        # Only exists while the tree is ticked, each one keeps a timer running
+        self.rate: Optional[Rate] = None
 
         self.tick_sliding_window = [self.tick_frequency_hz] * 10
 
@@ -691,6 +693,10 @@ class TreeExecManager:
             tick_result = Err(
                 BehaviorTreeException(f"Tick raised {type(e).__name__}: {e}")
             )
+        finally:
+            if self.rate is not None:
+                self.ros_node.destroy_rate(self.rate)
+                self.rate = None
 
         if tick_result.is_err():
             self.get_logger().error(
@@ -806,6 +812,8 @@ class TreeExecManager:
                 tick_frequency_msg = Float64()
                 tick_frequency_msg.data = tick_frequency_avg
                 self.publish_tick_frequency(tick_frequency_msg)
+            if self.rate is None:
+                self.rate = self.ros_node.create_rate(self.tick_frequency_hz)
             self.rate.sleep()
 
         self.state = TreeState.IDLE
@@ -1007,8 +1015,6 @@ class TreeExecManager:
         self._tree_structure.public_inputs = list(tree.public_inputs)
         self._tree_structure.public_outputs = list(tree.public_outputs)
 
-        self.rate = self.ros_node.create_rate(frequency=self.tick_frequency_hz)
-
         # Clear state and data
         self._tree_state.node_states = []
         self._tree_data.wiring_data = []
@@ -1216,9 +1222,6 @@ class TreeExecManager:
                 # Use provided tick frequency, if any
                 if request.tick_frequency_hz != 0:
                     self.tick_frequency_hz = request.tick_frequency_hz
-                    self.rate = self.ros_node.create_rate(
-                        frequency=self.tick_frequency_hz
-                    )
                 # Always a new one: the last one may have finished just now
                 self._tick_thread = Thread(target=self.tick_report_exceptions)
                 self._tick_thread.start()
-- 
2.43.0


From a0f0ab40d77b5109e0c4632e5ac7d3a9592ade85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:59 +0000
Subject: [PATCH 82/84] fix: default value of float types stays below their
 maximum

---
 ros_bt_py/ros_bt_py/data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 0b75b43..77307b5 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -521,7 +521,7 @@ class NumericContainer(BuiltinContainer[NUM]):
             # Check boundaries and adjust automatic default
             if self.min_value > 0:
                 self._value = self.min_value
-            if self.max_value < 0:
+            if self._value > self.max_value:
                 self._value = self.max_value
 
     @typechecked
-- 
2.43.0


From 54a29e64f8224c909680c5c46d00f514a53be8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:07 +0000
Subject: [PATCH 83/84] fix: publish the tree when a command changes its tick
 frequency

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 41252c0..7c8684a 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1222,6 +1222,7 @@ class TreeExecManager:
                 # Use provided tick frequency, if any
                 if request.tick_frequency_hz != 0:
                     self.tick_frequency_hz = request.tick_frequency_hz
+                    self.publish_structure()
                 # Always a new one: the last one may have finished just now
                 self._tick_thread = Thread(target=self.tick_report_exceptions)
                 self._tick_thread.start()
-- 
2.43.0


From bec3294dd9f1d32529237d66540a19362eebdb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:13 +0000
Subject: [PATCH 84/84] fix: refused edits keep the name of the diagnostics

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 7c8684a..38225eb 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -511,6 +511,7 @@ class TreeExecManager:
         wirings = list(self.wirings)
         node_states = self._tree_state.node_states
         wiring_data = self._tree_data.wiring_data
+        diagnostics_name = self.diagnostic_status.name
         restore_subtrees = self.subtree_manager.remember_subtrees()
 
         def restore() -> None:
@@ -525,6 +526,7 @@ class TreeExecManager:
             self.wirings = wirings
             self._tree_state.node_states = node_states
             self._tree_data.wiring_data = wiring_data
+            self.diagnostic_status.name = diagnostics_name
             restore_subtrees()
 
         return restore
-- 
2.43.0

