"""An error handler module that cannot be imported (used by h01)."""
raise RuntimeError("broken handler module")
