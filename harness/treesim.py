"""The tree node in a simulated ROS: what its executor, its clients and its parameters would be."""
import copy
import importlib
import sys
import types

import bt  # noqa: F401
import btshim
import rclpy.executors
import rclpy.node

try:
    from common import Violation
except ImportError:

    class Violation(Exception):
        pass


LATCHED = "TRANSIENT_LOCAL"


class Graph:
    """The rest of the simulated ROS."""

    params = node = script = None
    inits = 0


class Params:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def params(storage, **default):
    """The parameters as they are by default, except for the storage and the default tree."""
    t = dict(load_default_tree=False, load_default_tree_permissive=False, tick_frequency_hz=10.0, tree_path="", control_command=2)
    t.update(default)
    return Params(
        node_modules=["ros_bt_py.nodes", "ros_bt_py.ros_nodes"], tree_storage_paths=[storage], show_traceback_on_exception=False,
        diagnostics_frequency_hz=1.0, default_tree=types.SimpleNamespace(**t))


class ParamListener:
    Params = Params

    def __init__(self, node, *a, **kw):
        self.node = node

    def get_params(self):
        return Graph.params


class SimNode(btshim.FakeROSNode):
    def __init__(self, node_name="sim", *a, **kw):
        super().__init__(node_name)
        self.services_ = {}
        Graph.node = self

    def create_service(self, srv_type, srv_name, callback, *a, **kw):
        name = srv_name.removeprefix("~/")
        if name in self.services_:
            raise Violation("interface/service-twice", f"service {srv_name} is offered twice")
        self.services_[name] = (srv_type, callback)
        return types.SimpleNamespace(srv_name=srv_name)

    def create_publisher(self, *a, **kw):
        p = super().create_publisher(*a, **kw)
        p.get_subscription_count = lambda: 1
        return p

    def destroy_node(self):
        pass

    def get_topic_names_and_types(self, *a, **k):
        return [("/topic", ["std_msgs/msg/String"])]

    def get_service_names_and_types(self, *a, **k):
        return [("/service", ["std_srvs/srv/SetBool", "std_srvs/srv/Empty"]), ("/other", ["std_srvs/srv/Empty"])]

    # ---- what a client sees
    def call(self, name, /, **kw):
        t, cb = self.services_[name]
        q = kw.pop("q", None) or t.Request(**kw)
        try:
            r = cb(copy.deepcopy(q), t.Response())
        except Exception as e:
            if isinstance(e, Violation):
                raise
            raise Violation(f"raises/{name}/{type(e).__name__}", f"service {name} raises {type(e).__name__}: {e}", repr(q)[:2000]) from e
        if not isinstance(r, t.Response):
            raise Violation(f"interface/answer/{name}", f"service {name} answers {r!r}")
        return r

    def pub(self, topic):
        p = [p for p in self.publishers_ if p.topic == topic]
        if len(p) != 1:
            raise Violation("interface/publishers", f"{len(p)} publishers of {topic}")
        return p[0]

    def sent(self, topic):
        return self.pub(topic).published

    def late(self, topic):
        """What a subscriber that has just come gets."""
        p = self.pub(topic)
        q = p.qos_profile
        return p.published[-1] if p.published and q is not None and getattr(q.durability, "name", "") == LATCHED and q.depth >= 1 else None

    def tree(self):
        x = self.late("~/tree_structure_list")
        return x.tree_structures[-1] if x is not None and x.tree_structures else None

    def state(self):
        x = self.late("~/tree_state_list")
        return x.tree_states[-1].state if x is not None and x.tree_states else None


class SimExecutor:
    def __init__(self, *a, **kw):
        self.nodes = []

    def add_node(self, node):
        self.nodes.append(node)
        return True

    def spin(self):
        Graph.script(self.nodes)

    def __getattr__(self, k):
        return lambda *a, **kw: None


def load():
    """Import the tree node into the simulation."""
    p = sys.modules["ros_bt_py.parameters"].tree_node_parameters
    p.Params, p.ParamListener = Params, ParamListener
    import ros_bt_py.subtree_manager, ros_bt_py.debug_manager, ros_bt_py.ros_helpers, ros_bt_py.tree_edit_manager  # noqa: E401,F401
    real = rclpy.node.Node, rclpy.executors.MultiThreadedExecutor, rclpy.executors.SingleThreadedExecutor
    rclpy.node.Node = SimNode
    rclpy.executors.MultiThreadedExecutor = rclpy.executors.SingleThreadedExecutor = SimExecutor
    try:
        return importlib.import_module("ros_bt_py.tree_node")
    finally:
        rclpy.node.Node, rclpy.executors.MultiThreadedExecutor, rclpy.executors.SingleThreadedExecutor = real


tree_node = load()
