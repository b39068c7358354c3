"""Access to the code under test for the checks (public interface only)."""

import os
import sys
import uuid

import btshim

btshim.install()

# rclpy.logging writes through rcutils at import time of node modules
import rclpy.logging  # noqa: E402

from ros_bt_py.vendor.result import Result, Ok, Err  # noqa: E402
from ros_bt_py.helpers import BTNodeState  # noqa: E402
from ros_bt_py.exceptions import BehaviorTreeException  # noqa: E402
from ros_bt_py.node import Node, Leaf, define_bt_node  # noqa: E402
from ros_bt_py.node_config import NodeConfig  # noqa: E402
from ros_bt_py import data_types as dt  # noqa: E402

FakeROSNode = btshim.FakeROSNode
S = BTNodeState
UNINIT, IDLE, RUNNING = str(S.UNINITIALIZED), str(S.IDLE), str(S.RUNNING)
SUCC, FAIL, BROKEN = str(S.SUCCEEDED), str(S.FAILED), str(S.BROKEN)
SHUT, PAUSED = str(S.SHUTDOWN), str(S.PAUSED)


class WorkloadFault(Exception):
    """Raised on purpose by a scripted node."""

    _workload_fault = True


def make_uuid(rng):
    return uuid.UUID(int=rng.getrandbits(128), version=4)


def set_input(node, key, value):
    r = node.node_config.inputs[key].set_value(value)
    assert r.is_ok(), r
    return r


def get_input(node, key):
    return node.node_config.inputs[key].get_value()


def get_output(node, key):
    return node.node_config.outputs[key].get_value()


def walk(node):
    yield node
    for c in node.children:
        yield from walk(c)
