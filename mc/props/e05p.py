"""E05 for the protobuf encoding, which needs another protobuf runtime."""
from mc.props import e05
from mc.props.e05 import run_case  # noqa: F401

e05.ENC = ["proto"]
CASES = e05.CASES
