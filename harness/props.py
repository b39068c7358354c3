"""The properties, stated once."""

D = "ros_bt_py/ros_bt_py/"


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    return {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [f if "/" in f and f.startswith("ros_bt_py") else D + f for f in files],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": None,
        },
        "technique": technique,
        "level_note": note,
    }


SIM = ("Exploration: pseudo-random workloads of bounded size; trusts the harness' stand-ins for the ROS "
       "middleware (clients, topics, clock) and its reference oracle. ")

PROPS = [
    P("C02", "Flow control nodes follow their documented semantics",
      "For every tree of Sequence, MemorySequence, Fallback, MemoryFallback, Parallel, ParallelFailureTolerance, "
      "NameSwitch and EnumSwitch nodes and every history of setup, tick, untick, reset and shutdown calls, each call "
      "returns the documented result, reaches exactly the documented children in the documented order, and leaves every "
      "node in the documented state. Memory variants resume at the running child and forget it once a result is reached; "
      "parallel nodes never re-tick a finished child before their own result and stop unfinished children when it is "
      "reached; switches tick only the selected child and stop all others, also when nothing is selected.",
      ["programs", "histories", "inputs"],
      "all trees of flow-control nodes, all child results over time (including errors), all operation sequences",
      "the unit tests exercise one MemoryFallback tree; the integration tests (which need a live ROS graph) tick a few fixed YAML trees",
      ["nodes/sequence.py", "nodes/fallback.py", "nodes/parallel.py", "ros_nodes/enum_switch.py", "node.py"],
      [("Sequence/MemorySequence._do_tick", D + "nodes/sequence.py"), ("Fallback/MemoryFallback/NameSwitch._do_tick", D + "nodes/fallback.py"),
       ("Parallel/ParallelFailureTolerance._do_tick", D + "nodes/parallel.py"), ("EnumSwitch._do_tick", D + "ros_nodes/enum_switch.py")],
      "runtime conformance monitoring against an executable reference model in lockstep",
      SIM + "The reference model follows the class documentation; where that is silent it follows the shipped behaviour. "
      "After an error only the error itself and the recovery by shutdown are compared.",
      ["result of each call", "state of every node", "calls received by scripted leaves"]),
    P("C03", "Decorators follow their documented semantics",
      "For every nesting of decorators (result mappers, retry and repeat counters, Optional, Watch, Throttle, "
      "ThrottleSuccess) over children with arbitrary results, and every history of setup, tick, untick, reset and shutdown "
      "calls and clock progress, each call returns the documented result, ticks and resets the child exactly when "
      "documented, and leaves every node in the documented state. Counters restart exactly where documented, throttles "
      "never tick their child inside the interval, and a child that cannot execute is never touched by Optional.",
      ["programs", "histories", "inputs"],
      "all decorator nestings and parameters, all child results over time, all operation sequences and clock advances",
      "no unit test covers decorators; the integration tests tick two fixed trees a few times",
      ["nodes/decorators.py", "ros_nodes/throttle.py", "node.py"],
      [("decorator _do_tick/_do_reset/_do_untick", D + "nodes/decorators.py"), ("Throttle/ThrottleSuccess._do_tick", D + "ros_nodes/throttle.py")],
      "runtime conformance monitoring against an executable reference model on a virtual clock",
      SIM + "Repeat counts as shipped (num_repeats restarts, then the final success).",
      ["result of each call", "state of every node", "calls received by scripted leaves"]),
    P("C04", "Errors are contained and nothing keeps running in the background",
      "Whatever its nodes return, a tree never reports success, failure, a completed untick or a completed reset while a "
      "node below the reporting node is still running (children of IgnoreRunning excepted), and no leaf is ticked twice in "
      "one tick. An error in any node makes every node above it BROKEN and is reported to the caller; a broken or "
      "uninitialised tree executes nothing. Shutdown, from any state and despite failing nodes, reaches every initialised "
      "node exactly once, after which the tree can be set up again.",
      ["programs", "histories", "fault_sequences"],
      "all trees, all histories, all placements of errors in any callback of any leaf",
      "tests only cover fault-free fixed trees",
      ["node.py", "nodes/sequence.py", "nodes/fallback.py", "nodes/parallel.py", "nodes/decorators.py", "ros_nodes/enum_switch.py", "ros_nodes/throttle.py"],
      [("Node.tick/untick/reset/shutdown", D + "node.py"), ("untick of remaining children", D + "nodes/")],
      "runtime invariant monitor over fault-injected executions",
      SIM + "Faults are errors returned by leaf callbacks; raised exceptions are C16's subject.",
      ["state of every node", "calls received by scripted leaves"]),
    P("C05", "Wired data arrives when it is produced, unchanged, and nowhere else",
      "For every tree and every set of wirings (one to many, many to one, backwards, to itself, between parents and "
      "children), when a node's tick ends without error, exactly the outputs that changed in this tick reach exactly the wired "
      "inputs (and the enclosing tree's outputs), before any other node runs; inputs are flagged as updated exactly from an "
      "arriving change until their node's tick ended, or after setup and reset. A node with an unset input is never executed "
      "and becomes BROKEN; an untick, failed tick or other operation delivers nothing; setup clears dynamic data, reset clears "
      "outputs. Values a node modifies after reading or writing them influence no other node, and the published wiring data "
      "shows the values really held.",
      ["programs", "histories", "inputs"],
      "all trees, wirings, values, histories of setup, tick, untick, reset, shutdown and tree inputs",
      "the unit tests push one value over one wiring; no test mixes several sources, backward wirings, errors and resets",
      ["data_flow_manager.py", "node.py", "data_types.py", "node_config.py"],
      [("DataFlowManager.push_outputs / push_incoming_data / get_wiring_data", D + "data_flow_manager.py"),
       ("Node.tick / untick / reset / setup", D + "node.py")],
      "runtime monitoring at the node interface against an event-driven reference model of every input and output",
      SIM + "Scripted nodes stand for arbitrary node code.",
      ["value and update flag of every input and output before and after every tick", "get_wiring_data()"]),
    P("C06", "Data containers never hold values that violate their declared type",
      "For every data type (bounded numbers, strings with length and options, paths, bytes, nested lists and dicts, ROS "
      "messages, names and types, generic types) and every sequence of assignments and reads, an assignment is accepted "
      "exactly when the value satisfies the declared type and constraints; a refused assignment changes neither value nor "
      "update flag; a static value can only be assigned while it is allowed to; the default of a static number keeps to its limits; the held value can not be altered through "
      "references the caller kept or got, nor through another container.",
      ["inputs", "histories"],
      "all types built from the public constructors, all values at, inside and beyond the constraints, all call sequences",
      "the unit tests assign a handful of values to each type",
      ["data_types.py"],
      [("set_value / reset_value / get_value / get_value_as of every container", D + "data_types.py")],
      "runtime assertion monitor with an independent specification of every type, boundary-value workloads",
      SIM + "Non-finite floats and values of a foreign Python type that happen to be equal (True for 1) are not judged.",
      ["results of set_value/get_value", "is_updated()"]),
    P("C07", "Types and values survive serialisation unchanged",
      "For every data type and every value it can hold, sending the type through its message and the value through its "
      "string representation rebuilds a container of the same type, constraints and flags (it accepts exactly the same "
      "values, is compatible in both directions) holding an equal value, and serialising again yields the same data. This "
      "includes reference types whose element type is defined by another input. Malformed types and values are answered "
      "with an error and leave the container as it was; nothing raises.",
      ["inputs", "programs"],
      "all types, all values, all malformed strings and messages",
      "the unit tests round-trip single flat values",
      ["data_types.py"],
      [("serialize_type/from_msg/get_iotype_for_msg", D + "data_types.py"), ("serialize_value/deserialize_value", D + "data_types.py"),
       ("get_runtime_type, set_type_map", D + "data_types.py")],
      "runtime round-trip oracle plus probing of the rebuilt containers; mutation of serialised data",
      SIM + "Dict keys become strings; floats are compared exactly.",
      ["serialised message and string", "behaviour of the rebuilt container"]),
    P("C08", "Only data that fits is connected, and what is connected fits at runtime",
      "For any two data types, one is accepted in place of the other exactly if it is of the same kind, permits every use "
      "(static / dynamic) the other permits and its constraints are at least as narrow, at every nesting level; the verdict "
      "is the same after either type was sent as a message. Every value a compatible type can hold is accepted unchanged by "
      "the other. Nodes accept given inputs, and trees accept wirings, exactly on that verdict (for wirings on the types at "
      "runtime, references replaced by the types they refer to; static inputs can't be wired), and ticking an accepted "
      "wiring never breaks the tree and delivers the value that was sent.",
      ["inputs", "programs"],
      "all pairs of types, all values of the source type",
      "the unit tests compare a few flat types; none checks that a compatible type's values are accepted",
      ["data_types.py", "node.py", "tree_exec_manager.py"],
      [("is_compatible of every container", D + "data_types.py"), ("Node.__init__ (new_inputs)", D + "node.py"),
       ("TreeExecManager.validate_wiring", D + "tree_exec_manager.py"), ("TreeEditManager.wire_data", D + "tree_edit_manager.py")],
      "runtime assertion monitor with an independent specification of every type and metamorphic relations",
      SIM + "The rule for lengths and options is conservative as shipped: maximum lengths are compared even if options are listed.",
      ["is_compatible()", "set_value()", "Node()", "wire_data", "tick"]),
    P("C09", "Edits keep the tree well-formed and its published structure accurate",
      "After every edit request (adding, removing, moving, replacing, morphing, configuring, wiring, loading, clearing, "
      "reloading; accepted or refused), the edited nodes form a forest: parent and child links agree, there are no "
      "cycles, shared children, unknown children or more children than a node allows, and every wiring is unique and "
      "connects an existing output to an existing input of a compatible type. What was last published describes exactly "
      "these nodes, their child order, wirings and tree name, and names a root exactly if there is a single one.",
      ["histories", "inputs"],
      "all trees and all sequences of edit requests, including hostile and impossible ones",
      "unit tests cover a few fixed edits of two-node trees",
      ["tree_edit_manager.py", "tree_exec_manager.py", "node.py"],
      [("edit services", D + "tree_edit_manager.py"), ("load_tree, clear, reload_tree, publish_structure", D + "tree_exec_manager.py"),
       ("add_child/remove_child", D + "node.py")],
      "runtime invariant monitor over the node graph and the published messages after every edit",
      SIM + "Trees of up to some 20 nodes of 28 shipped classes.",
      ["TreeEditManager.nodes and wirings", "published TreeStructureList"]),
    P("C10", "A refused edit changes nothing",
      "Every edit request that is answered with success=False gives a reason and leaves the tree exactly as it was: nodes "
      "and their configuration, child order, wirings, name, path, tick frequency, public data, state, and the published "
      "structure. No edit request raises an exception.",
      ["histories", "inputs", "fault_sequences"],
      "all trees and all edit requests that fail, wherever they fail",
      "unit tests check the verdict of few failing edits, not the tree they leave behind",
      ["tree_edit_manager.py", "tree_exec_manager.py"],
      [("edit services", D + "tree_edit_manager.py"), ("is_edit_service, load_tree", D + "tree_exec_manager.py")],
      "runtime comparison of complete snapshots around every refused edit",
      SIM + "Node objects are compared by class, name, configuration and static values.",
      ["TreeEditManager.nodes and wirings", "published TreeStructureList"]),
    P("C11", "Edits do exactly what was asked for",
      "An edit request is accepted if and only if it can be carried out (known ids, free child slots, no cycle, valid node "
      "configuration, compatible and existing data), and an accepted edit has exactly the requested effect and no other: "
      "position among the children, remaining children, descendants removed or kept, data that stays wired because it "
      "still fits, inputs not mentioned keep type and value, replaced nodes pass children and position on, loading and "
      "reloading yield the described tree, and get_subtree returns the nodes and wirings of that subtree.",
      ["histories", "inputs"],
      "all trees and all sequences of edit requests",
      "unit tests cover a few fixed edits of two-node trees",
      ["tree_edit_manager.py", "tree_exec_manager.py", "node.py"],
      [("edit services", D + "tree_edit_manager.py"), ("load_tree, clear, reload_tree", D + "tree_exec_manager.py")],
      "runtime conformance monitoring of every edit against an executable reference model",
      SIM + "Removing a node without its children leaves them without parent, as shipped. Which node configurations are valid is decided by "
      "instantiating the node outside of the tree.",
      ["response of every edit", "TreeEditManager.nodes and wirings"]),
    P("C12", "Trees survive messages and files unchanged",
      "Every tree over the shipped node classes, described by its message, saved to a file and loaded again, has the same "
      "nodes (ids, modules, classes, names, child limits), child order, input and output types, static flags, static "
      "values, wirings, public data, name and tick frequency, whatever characters names and values contain; node "
      "instances hold exactly the values and flags their message asked for, and saving the loaded tree gives the same "
      "file again.",
      ["programs", "inputs"],
      "all trees over the shipped classes, all valid names, types and static values",
      "tests load fixed YAML trees and never compare what came back",
      ["node.py", "tree_exec_manager.py", "package_manager.py", "data_types.py"],
      [("to_structure_msg/from_msg/__init__", D + "node.py"), ("load_tree, structure_to_msg, parse_tree_yaml", D + "tree_exec_manager.py"),
       ("save_tree_to_path", D + "package_manager.py")],
      "runtime round-trip oracle over node messages, tree messages and real files",
      SIM + "The message-to-YAML conversion of ROS is replaced by an equivalent one. Tree paths and ids of nested trees are not kept by design.",
      ["NodeStructure/TreeStructure messages", "tree file", "instances"]),
    P("C13", "Loading is always answered, whatever the tree or file contains",
      "For every tree message, node message, path and file content (malformed YAML, wrong types, foreign documents, several "
      "documents, empty trees, unknown versions, unknown classes, inconsistent ids, subtrees containing themselves), "
      "loading returns in bounded time without raising: either refused with a reason, leaving tree and state unchanged, or "
      "accepted, leaving a well-formed, editable tree with at least one node in which every static value satisfies its type.",
      ["inputs", "fault_sequences"],
      "all tree files, paths and messages",
      "tests load valid trees and a handful of broken ones",
      ["tree_exec_manager.py", "node.py", "data_types.py", "migrate_tree_files.py", "ros_nodes/subtree.py"],
      [("load_tree_from_file, parse_tree_yaml, load_tree", D + "tree_exec_manager.py"), ("Node.from_msg", D + "node.py"),
       ("get_iotype_for_msg", D + "data_types.py")],
      "mutation-based robustness monitoring: exceptions, time, snapshots and well-formedness",
      SIM + "Static values that violate their type may be dropped instead of refusing the tree, as shipped trees rely on it.",
      ["response", "snapshot of the tree before and after"]),
    P("C14", "Execution commands do exactly what they promise",
      "For every tree, every sequence of execution commands (tick once, periodically, until result, stop, reset, shutdown, "
      "setup-and-shutdown, nothing, unknown ones) and edits and every interleaving with the tick thread: tick-once ticks the "
      "root exactly once and leaves the tree waiting; periodic ticking ticks at the requested rate until stopped; until-result "
      "stops by itself right after the first result; stop and shutdown return only once nothing is ticking, with every node "
      "stopped or shut down; no node is ticked unless it was set up since it was last shut down; at most one tick runs at any "
      "time; edits are accepted exactly in the editable state; the reported "
      "and the published tree state match what is going on; impossible commands are refused without effect.",
      ["histories", "schedules"],
      "all command sequences, trees, results and interleavings of client and tick thread",
      "unit tests call control_execution on fixed trees with one timing each",
      ["tree_exec_manager.py"],
      [("control_execution, tick, tick_report_exceptions", D + "tree_exec_manager.py"), ("is_edit_service", D + "tree_exec_manager.py")],
      "trace monitor against a command state machine, under a deterministic randomised scheduler with switches at any line",
      SIM + "Schedules are sampled, not enumerated; switches happen between source lines.",
      ["service answers", "published states", "calls received by the root", "threads started"]),
    P("C15", "Concurrent requests take effect one after the other",
      "For every set of edit, query and execution requests sent by several clients at once and every interleaving: no request "
      "raises, hangs or deadlocks; the answers and the final tree are those of some order of the edits that respects their "
      "timing; no two threads are inside the tree's nodes at once; the tree is never edited, and its links never change, "
      "while it is being ticked, set up, reset, stopped or shut down; what is published last is the final tree and state; and "
      "afterwards the tree can be shut down and is editable.",
      ["histories", "schedules"],
      "all concurrent request histories and interleavings",
      "no test uses more than one client or thread",
      ["tree_exec_manager.py", "tree_edit_manager.py"],
      [("is_edit_service, _edit_lock", D + "tree_exec_manager.py"), ("publish_structure/publish_state", D + "tree_exec_manager.py"),
       ("get_subtree", D + "tree_edit_manager.py")],
      "linearizability checking of recorded histories plus overlap monitors, under a deterministic randomised scheduler",
      SIM + "Schedules are sampled; an edit refused while a command overlaps is always allowed.",
      ["service answers and their order", "final tree", "published structure and state", "node calls per thread"]),
    P("C16", "Failing trees end in the error state and can be recovered",
      "For every tree whose nodes answer setup, tick, untick, reset or shutdown with an error, or raise exceptions, at any "
      "point, and every command sequence and interleaving: the tick thread never dies unnoticed; a failing tick or setup ends "
      "the run at once, reports and publishes the error state; in that state only shutdown is accepted, it returns, and once "
      "it succeeds the tree is editable and can be executed again.",
      ["fault_sequences", "histories", "schedules"],
      "all faults at all points, command sequences and interleavings",
      "no test lets a node fail during execution through the manager",
      ["tree_exec_manager.py", "node.py"],
      [("tick_report_exceptions, tick", D + "tree_exec_manager.py"), ("_control_execution_shutdown", D + "tree_exec_manager.py")],
      "fault injection with the trace monitor of C14",
      SIM + "Exceptions are injected in setup and tick only, errors everywhere.",
      ["service answers", "published states", "calls received by the root"]),
    P("C17", "Service nodes make one call per request and report its response",
      "For Service (every service type), every class derived from ServiceBase and WaitForService, every history of ticks, data "
      "changes, untick, reset and shutdown, and every timing of the server: a request with exactly the current inputs goes to the "
      "current service once after setup, reset or untick and once per update of the service name or a request field, and never "
      "otherwise; the node is RUNNING until the response of that very call arrives, which then gives the outputs and the result; "
      "it fails after the configured time and stays as it is until there is new data; an abandoned call is cancelled and its "
      "response never reaches the outputs; there is at most one client, and none after reset or shutdown. WaitForService succeeds "
      "exactly when the current service is there and fails once the wait time is over.",
      ["histories", "server timing"],
      "all request histories, response times and abandonments",
      "unit tests mock the client and play one history per case",
      ["ros_nodes/service.py"],
      [("ServiceBase._do_tick, _do_untick, _do_reset", D + "ros_nodes/service.py"), ("Service.get_request, set_outputs", D + "ros_nodes/service.py"), ("WaitForService", D + "ros_nodes/service.py")],
      "online monitor of the client calls against an independent model of the node, with a simulated server that answers, delays, or answers too late",
      SIM + "A response that arrives after the time limit but before the next tick may count either way. The wait of WaitForService starts with the first tick that misses the service.",
      ["client calls, cancellations, client creation and destruction", "result of every tick", "outputs after every tick"]),
    P("C18", "Action nodes run one goal at a time and report exactly the outcome of that goal",
      "For Action (every action type) and every class derived from ActionBase, every history of ticks, data changes, untick, "
      "reset and shutdown, and every timing and answer of the server (accepting, rejecting, succeeding, aborting, cancelling, "
      "feedback, late or never): a goal with exactly the current inputs goes to the current action; at most one goal is active; a "
      "goal that is replaced, unticked or over its time is cancelled, also when the server accepts it only afterwards; the node "
      "is RUNNING while its goal is and then gives exactly the result of that goal; feedback and results of a goal that was given "
      "up never reach the outputs; there is no client after reset or shutdown.",
      ["histories", "server timing", "server answers"],
      "all goal histories and server behaviours",
      "unit tests mock the client and play one history per case",
      ["ros_nodes/action.py"],
      [("ActionBase state machine", D + "ros_nodes/action.py"), ("Action.get_goal, set_result_outputs, set_feedback_outputs", D + "ros_nodes/action.py")],
      "online monitor of the goals, cancellations and clients against a specification of the protocol, with a simulated action server",
      SIM + "Steps the node takes internally may need a few ticks; the time limit counts from acceptance.",
      ["goals sent, cancel requests, client creation and destruction", "result of every tick", "outputs after every tick"]),
    P("C19", "Topic and parameter nodes hand on what arrived, once, from the current topic",
      "For TopicSubscriber, TopicMemorySubscriber, TopicPublisher and RosParam, every message type, every choice and change of "
      "topic name, QoS and memory delay, every arrival of messages (before, during or after a tick, on a concurrent thread) and "
      "every history of ticks, untick, reset and shutdown: there is exactly one subscription or publisher, with the topic, type and "
      "QoS of the current inputs, and none after reset or shutdown; a tick hands on the newest message that arrived on the "
      "current subscription, at most once (TopicSubscriber) or while it is not older than the delay (TopicMemorySubscriber), never "
      "one of an earlier topic; TopicPublisher publishes exactly each new message once; RosParam gives the current value.",
      ["histories", "message arrivals", "thread interleavings"],
      "all histories, arrivals and interleavings of the callback with the ticking thread",
      "unit tests call the callback by hand between two ticks",
      ["ros_nodes/topic.py", "ros_nodes/param.py"],
      [("TopicSubscriber._do_tick, callback", D + "ros_nodes/topic.py"), ("TopicMemorySubscriber", D + "ros_nodes/topic.py"), ("TopicPublisher", D + "ros_nodes/topic.py"), ("RosParam", D + "ros_nodes/param.py")],
      "online monitor of subscriptions, deliveries, publications and ticks; controlled interleaving of callback and tick at every line",
      SIM + "A renamed topic without a new message may be published to or not.",
      ["subscriptions and publishers", "deliveries and publications", "result and outputs of every tick"]),
    P("C25", "Data nodes compute their documented function on every tick",
      "For every data node (Compare, CompareNewOnly, ALessThanB, Constant, PassthroughNode, IOInput, IOOutput, "
      "StringConcatenation, FormatString, FormatStringList, GetFileExtension, ListLength, InsertInList, IsInList, IterateList, "
      "AppendListItem, SetAttr, SetDictItem, the getters, Convert, Operation, UnaryOperation, RandomInt), every choice of its "
      "types, all input values, static or dynamic, and every history of ticks, data changes, untick, reset and setup: a tick "
      "gives exactly the documented result and outputs for the current inputs; nodes that react to new data do so exactly once "
      "per change; undefined results, wrong types and missing inputs are answered with an error, never with a wrong value or "
      "an exception; a tick changes neither its inputs nor outputs it has no result for; getters and iterators run and obey "
      "their child; iteration visits every element once, in order.",
      ["inputs", "histories"],
      "all values, types and tick histories",
      "unit tests tick single nodes with a few values",
      ["nodes/"],
      [("Operation, UnaryOperation, Convert", D + "nodes/maths.py"), ("Getter and subclasses", D + "nodes/getters.py"), ("IterateList, InsertInList", D + "nodes/list.py"),
       ("ExtendedFormatter, FormatString", D + "nodes/format.py"), ("CompareNewOnly", D + "nodes/compare.py"), ("SetAttr", D + "nodes/setters.py")],
      "differential monitoring against independent Python models of every node",
      SIM + "Transcendental functions are compared to a relative error of 1e-6; operands of shifts and powers stay small.",
      ["result of every tick", "inputs, outputs and updated flags before and after", "calls of the child"]),
    P("C26", "Utility bounds hold for every execution of the tree",
      "For every tree of flow control nodes and decorators over leaves with known or unknown bounds, and for every ROS leaf in "
      "every environment: a bound that a node reports is never exceeded by an execution whose leaves stay within their bounds "
      "(lower and upper, for success and for failure); a bound is reported if every child's is known and only then; a tree that "
      "can't execute says so; leaves that need a service, action, topic or parameter report that they can execute exactly when it "
      "is available; asking for bounds changes nothing and in states without a meaningful answer is answered with an error.",
      ["trees", "leaf bounds", "executions"],
      "all trees, all outcomes of their leaves, all environments",
      "unit tests check a few sums by hand",
      ["nodes/sequence.py", "nodes/fallback.py", "nodes/parallel.py", "nodes/decorators.py", "ros_nodes/service.py", "ros_nodes/action.py", "ros_nodes/topic.py"],
      [("_do_calculate_utility of flow control nodes", D + "nodes"), ("Node.calculate_utility", D + "node.py"), ("_do_calculate_utility of ROS leaves", D + "ros_nodes")],
      "monitored execution of random trees: the cost of every enumerated and every executed run is compared with the reported bounds",
      "Decorators that change the result of their child pass on its bounds as documented and are not judged. " + SIM,
      ["answer of calculate_utility", "ticks of every leaf"]),
    P("C27", "Message nodes lose nothing when taking messages apart or putting them together",
      "For every installed message type and every message of it: MessageToFields gives every field its exact value, "
      "FieldsToMessage a message with exactly the values of its inputs and never touches one it handed out before, also for values "
      "saved with the tree; the fields of one can be wired to the other, which gives an equal message; EnumFields gives exactly "
      "the constants of the type, and EnumSwitch accepts each of them and ticks exactly the child it names.",
      ["message types", "messages", "histories"],
      "all message types and field values, static or dynamic, and all lifecycles",
      "unit tests convert two or three simple messages",
      ["ros_nodes/message_converters.py", "ros_nodes/enum.py", "ros_nodes/enum_switch.py", "ros_helpers.py", "data_types.py"],
      [("MessageToFields, FieldsToMessage", D + "ros_nodes/message_converters.py"), ("EnumFields", D + "ros_nodes/enum.py"),
       ("get_message_field_io_type", D + "data_types.py"), ("get_message_constant_fields", D + "ros_helpers.py")],
      "round trips of random messages of 138 message types through the real nodes and trees, outputs compared field by field; constants from the generated classes",
      "The messages are those of the installed ROS packages. Infinite numbers are not generated: the node data types exclude them.",
      ["outputs after every tick", "result of every tick"]),
    P("C29", "File nodes and tools give the contents of the file or say why they can't",
      "For YamlList and YamlDict, every element type, every file:// and package:// path and every state of the file system (missing, "
      "directory, unreadable, not text, not YAML, other structure, other element types, changing between ticks): a tick that loads "
      "gives exactly the contents and SUCCEEDED, or FAILED with load_success false and a reason, or - for elements of another type "
      "- an error that leaves the content output alone; nothing is raised. The file is read again exactly after setup, reset "
      "or an update of the path. Migrating tree files gives files that load as the same tree with the current version, and never "
      "changes or overwrites any other file, nor one that can't be migrated.",
      ["file contents", "paths", "histories"],
      "all files, paths and histories of ticks and file changes",
      "unit tests read a handful of fixed files",
      ["nodes/file.py", "migrate_tree_files.py"],
      [("load_file", D + "nodes/file.py"), ("YamlList, YamlDict", D + "nodes/file.py"), ("main", D + "migrate_tree_files.py")],
      "online monitor of the outputs against the data the workload wrote to disk, with faults injected into the file system; before/after comparison of the directory for the migration tool",
      "Files and packages live in a scratch directory. Whether an empty list counts as a list is not judged.",
      ["result and outputs of every tick", "files before and after a migration"]),
    P("C01", "Every node keeps to the lifecycle, and reset or shutdown leave no trace",
      "For every tree of shipped nodes and every history of setup, tick, untick, reset and shutdown in any order, of new inputs and "
      "of events in ROS: each operation ends in a state documented for it and answers with that state; operations that are not "
      "allowed in a state are refused without any effect, failing ones leave the tree in the state BROKEN, shutdown always works and "
      "nothing is raised; no operation changes an input, setup and reset clear the outputs; after a shutdown no subscription, publisher, "
      "client or timer remains. After reset, or shutdown and setup, a tree that was used behaves in everything like a new one.",
      ["trees", "histories", "inputs"],
      "all trees of shipped nodes, all orders of operations in all states, all events",
      "unit tests walk one node through setup, tick, reset, shutdown; they never compare a used node with a fresh one",
      ["node.py", "nodes/", "ros_nodes/"],
      [("Node.setup/tick/untick/reset/shutdown", D + "node.py"), ("_do_setup/_do_reset/_do_shutdown of every class", D + "nodes/ and ros_nodes/")],
      "online monitor of states, answers, inputs, outputs and ROS resources over random histories, and a twin run: the used tree against a fresh one in lockstep",
      SIM + "Inputs and events of both twins are the same. RepeatNoAutoReset and Throttle keep their count and interval over a reset as "
      "shipped, so they are compared after shutdown and setup. Subtree nodes have a check of their own.",
      ["answers and states", "inputs, outputs and updated flags", "ROS resources held"]),
    P("C23", "Saved trees are complete, where they belong, and never lost",
      "For every file path, name, flag and content of the storage folder: a save that succeeds leaves exactly one file with the "
      "complete tree, at the path it answers, inside the storage folder; a save that fails, that runs out of disk space or is killed at "
      "any point leaves every existing file as it was; a file is replaced only if that was asked for, and a rename never hits an "
      "existing one, also when several clients save at once; hostile paths are refused and nothing is raised. Storage folders and "
      "package listings name every file and folder that exists, exactly once and below its parent, hidden ones exactly if asked for.",
      ["inputs", "file system states", "crash points", "schedules"],
      "all requests, folder contents, crash points and schedules of concurrent requests",
      "unit tests save to a few fixed paths, one after the other, on a disk that works",
      ["package_manager.py"],
      [("save_tree, replace_file", D + "package_manager.py"), ("path_to_dict, get_package_structure, get_storage_folder_structure", D + "package_manager.py")],
      "before/after snapshots of a scratch folder around every request, with writes that fail or kill the process at a chosen byte, and concurrent requests under a deterministic scheduler with a reader",
      SIM + "Crashes are those of the process, not of the operating system. Links are not followed for saving.",
      ["answer of every request", "files before and after", "files seen by a concurrent reader"]),
    P("C28", "Watching a tree reports the truth and never changes what it does",
      "For every tree and history: with logging, node diagnostics, data and state publishing on, off or switched at any moment - also "
      "during an operation - every operation has the same results, states and outputs as without. Diagnostics report the beginning "
      "and end of every operation of every node, nested properly, with its name, id, path and operation, none while they are off; log "
      "messages at or above the chosen level, and no others, reach the subscriber exactly once and in order, with the text, level, node, tree "
      "and source line they came from. The tick frequency that is reported is the real one, slow ticks and only those are warned about, "
      "and the diagnostics status says whether the tree ticks, under the name of the tree.",
      ["trees", "histories", "moments of switching", "schedules", "tick durations"],
      "all trees, histories, switches and tick durations",
      "unit tests call the managers directly with one message each; none compares a watched with an unwatched tree",
      ["debug_manager.py", "logging_manager.py", "tree_exec_manager.py"],
      [("DebugManager.report_state, report_tick", D + "debug_manager.py"), ("LoggingManager._publish_log_message", D + "logging_manager.py"),
       ("tick_report_exceptions, publish_diagnostic_message", D + "tree_exec_manager.py")],
      "twin run of a watched and an unwatched tree, a grammar checker on the stream of diagnostics and log messages, and runs under the deterministic scheduler with an observer that switches everything at random points",
      SIM + "If diagnostics are switched on in the middle of an operation, the report of its end is optional.",
      ["results, states and outputs of both twins", "diagnostics and log messages", "tick frequency and warnings"]),
    P("C22", "A subtree behaves like its nodes in its place",
      "For every tree with Subtree nodes - nested, and several of the same file - and every history of operations: results, states, "
      "utilities, data and every call of every node are the same as for the tree with the nodes of the files put in place of "
      "the Subtree nodes, with its public inputs and outputs wired to them; instances of the same file share nothing. Structure, states and "
      "data that are shown of every subtree are what they are at that time, each under an id of its own that its Subtree node refers to.",
      ["trees", "files", "histories"],
      "all trees of trees, wirings and histories",
      "unit tests tick one fixed subtree with one leaf",
      ["ros_nodes/subtree.py", "subtree_manager.py", "data_flow_manager.py", "nodes/io.py"],
      [("Subtree", D + "ros_nodes/subtree.py"), ("SubtreeManager", D + "subtree_manager.py"), ("push_incoming_data, push_outputs", D + "data_flow_manager.py")],
      "twin run of the tree with Subtree nodes and the same tree flattened, calls of every node, data and states compared after every operation; messages of the subtree manager compared with the nodes",
      SIM + "Nodes are scripted to depend on their position, the number of calls and the data they read. An input that another node writes as "
      "well as a subtree, and errors during shutdown, are not generated.",
      ["calls, results, states, outputs, utilities of all nodes of both trees", "structure, state and data messages of the subtrees"]),
    P("C24", "What is published is the whole tree with all its subtrees, as it is",
      "After every edit, execution command or switch, whether it succeeds or fails: the last structure published is that of the tree and "
      "of every subtree in it at any depth - of no other, each once, under the id its Subtree node refers to - and the last states "
      "published are those its nodes and the nodes of its subtrees have, with the state of the tree. Data published during a tick is what the "
      "wirings of the tree and of every subtree ticked carry at that moment. Subtrees and data are published exactly while that is switched on, "
      "also for subtrees added later.",
      ["histories", "trees", "fault_sequences"],
      "all trees with subtrees and all histories of edits, commands and switches",
      "unit tests look at a few messages of trees without subtrees",
      ["tree_exec_manager.py", "tree_edit_manager.py", "subtree_manager.py", "ros_nodes/subtree.py", "data_flow_manager.py"],
      [("publish_structure, publish_state, publish_data", D + "tree_exec_manager.py"), ("SubtreeManager", D + "subtree_manager.py"),
       ("set_publish_subtrees, set_publish_data", D + "tree_exec_manager.py"), ("remove_node, morph_node, set_options", D + "tree_edit_manager.py")],
      "online monitor of everything published, compared with the live nodes at the time of publication and after every request",
      SIM + "The data of subtrees that were not ticked is not judged.",
      ["structure, state and data lists", "live nodes, wirings and containers"]),
    P("C20", "Node classes, interfaces, packages and channels on offer are those that exist",
      "Whatever Python modules, packages, interfaces and channels there are: the node classes listed as available are exactly those that "
      "loaded modules define, each with the inputs, outputs, options, types and documentation of its class, and each can be added to a tree; a module that can't be "
      "imported - missing, with errors in its code, raising while it is imported - is refused with a reason and affects nothing else, at startup as well as "
      "later; listing while others load modules works. The lists of message types with their fields, of packages with their prefixes and of topics, "
      "services and actions are those of the system.",
      ["modules", "classes", "requests", "schedules", "interfaces"],
      "all modules, classes, interfaces and orders of loading and listing",
      "unit tests list the shipped nodes once",
      ["node.py", "node_config.py", "package_manager.py", "ros_helpers.py"],
      [("load_node_module, define_bt_node", D + "node.py"), ("get_available_nodes, publish_message_list, publish_packages_list", D + "package_manager.py"),
       ("publish_message_channels", D + "ros_helpers.py")],
      "monitor comparing everything listed with the generated modules, interfaces and channels; listing and loading under the deterministic scheduler",
      SIM + "Modules are generated files; what exists is replaced by generated packages and interfaces.",
      ["available nodes", "answers", "message types, packages, channels"]),
    P("C21", "Timed nodes follow the clock of ROS, and only that",
      "For every tree with timed nodes (Wait, Throttle, ThrottleSuccess, GetTimeNow, services and actions with time limits, TopicMemorySubscriber), "
      "every clock - starting at zero, standing still, jumping, set back, moving during a tick - and every history: Wait is RUNNING exactly until its seconds have passed "
      "on that clock since its first tick after setup or reset, and an untick does not start them anew; GetTimeNow gives the time of its tick. Results, states, outputs and "
      "resources depend on the time that passed on that clock only: with a clock that started at another time the same history gives the same.",
      ["histories", "clocks", "trees"],
      "all trees with timed nodes, all clocks and all histories",
      "unit tests mock a few instants of one node each",
      ["ros_nodes/wait.py", "ros_nodes/time.py", "ros_nodes/throttle.py", "ros_nodes/service.py", "ros_nodes/action.py", "ros_nodes/topic.py"],
      [("Wait", D + "ros_nodes/wait.py"), ("GetTimeNow", D + "ros_nodes/time.py"), ("Throttle, ThrottleSuccess", D + "ros_nodes/throttle.py"),
       ("Service, WaitForService", D + "ros_nodes/service.py"), ("Action", D + "ros_nodes/action.py"), ("TopicMemorySubscriber", D + "ros_nodes/topic.py")],
      "online monitor of every Wait and GetTimeNow node against exact clock arithmetic, and of twin trees whose clocks started at different times",
      SIM + "When a message, response or result arrives is chosen by the workload.",
      ["results and states", "clock before and after every operation", "outputs, update flags, resources"]),
    P("C30", "The tree node starts as configured and serves every request it offers",
      "For every configuration: the node starts, offers its services and topics with their types, and goes on whatever its default tree, "
      "modules or storage look like. With a default tree it is in the state - tree, states, calls of nodes, rate - in which a client brings it that loads "
      "the same file and sends the same command; if that is impossible, it is left usable. Every service does to the one tree of the node what its name "
      "says, and what clients see on the topics - also clients that subscribe later - is that tree. Log level, node diagnostics, data, subtrees, diagnostics period and tick rate follow "
      "the last request or the configuration. Timers that runs and requests need don't pile up, and shutting the node down leaves nothing ticking.",
      ["configurations", "request_sequences", "default_trees", "schedules"],
      "all configurations, default trees, sequences of requests and schedules",
      "unit tests never create the tree node; integration tests need a running ROS system",
      ["tree_node.py", "tree_edit_manager.py", "tree_exec_manager.py", "package_manager.py", "logging_manager.py", "debug_manager.py"],
      [("TreeNode, main", D + "tree_node.py")],
      "the real main() in a simulated ROS under the deterministic scheduler; requests through the offered services compared with a reference model and with a twin node, timers firing concurrently",
      SIM + "The executor is replaced: callbacks run as tasks of the scheduler; callback groups are not modelled.",
      ["services, topics, qualities of service", "answers", "published structures, states, data, logs, diagnostics", "calls of nodes, rates"]),
]

NOT_APPLICABLE = []
