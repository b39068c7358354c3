"""Nodes deriving from the base classes for services and actions."""
import bt  # noqa: F401
from bt import BTNodeState, Err, Ok, NodeConfig, define_bt_node, dt
from ros_bt_py.exceptions import BehaviorTreeException
from ros_bt_py.ros_nodes.action import ActionBase
from ros_bt_py.ros_nodes.service import ServiceBase

import example_interfaces.action as a
import example_interfaces.srv as s


@define_bt_node(NodeConfig(inputs={"flag": dt.BoolType(), "unrelated": dt.IntType()}, outputs={"message": dt.StringType()}, max_children=0))
class SwitchService(ServiceBase):
    """Fails if the switch can't be set."""

    def get_service_type(self):
        return Ok(s.SetBool)

    @property
    def request_fields(self):
        return ["flag"]

    def get_request(self):
        return self.inputs.get_value_as("flag", bool).map(lambda b: s.SetBool.Request(data=b))

    def set_outputs(self, response):
        if response.message == "error":
            return Err(BehaviorTreeException("error"))
        return self.outputs.set_value("message", response.message).map(
            lambda _: BTNodeState.SUCCEEDED if response.success else BTNodeState.FAILED
        )


@define_bt_node(NodeConfig(inputs={"n": dt.IntType(), "unrelated": dt.IntType()}, outputs={"percent": dt.FloatType(), "total": dt.IntType()}, max_children=0))
class CountAction(ActionBase):
    """Fails if the server isn't done."""

    def get_action_type(self):
        return Ok(a.Progress)

    @property
    def goal_fields(self):
        return ["n"]

    def get_goal(self):
        return self.inputs.get_value_as("n", int).map(lambda n: a.Progress.Goal(target=n, label="count"))

    def set_result_outputs(self, result):
        if result.total < 0:
            return Err(BehaviorTreeException("error"))
        return self.outputs.set_value("total", result.total).map(
            lambda _: BTNodeState.SUCCEEDED if result.done else BTNodeState.FAILED
        )

    def set_feedback_outputs(self, feedback):
        return self.outputs.set_value("percent", feedback.percent)
