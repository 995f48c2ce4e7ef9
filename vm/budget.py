"""Step budgets: counts executed lines of vfbLib, stops runs that exceed a budget."""
import sys

TOOL = 3
mon = sys.monitoring


class OverBudget(BaseException):
    pass


class Steps:
    """with Steps(limit) as s: ...; s.count = lines executed within vfbLib"""

    def __init__(self, limit):
        self.limit = limit
        self.count = 0

    def _line(self, code, line):
        if "vfbLib" not in code.co_filename:
            return mon.DISABLE
        self.count += 1
        if self.count > self.limit:
            raise OverBudget(f"more than {self.limit} lines executed")

    def _jump(self, code, a, b):
        if "vfbLib" not in code.co_filename:
            return mon.DISABLE
        self.count += 1
        if self.count > self.limit:
            raise OverBudget(f"more than {self.limit} steps executed")

    def __enter__(self):
        mon.use_tool_id(TOOL, "steps")
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        mon.register_callback(TOOL, mon.events.JUMP, self._jump)
        mon.set_events(TOOL, mon.events.LINE | mon.events.JUMP)
        return self

    def __exit__(self, *a):
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.register_callback(TOOL, mon.events.JUMP, None)
        mon.free_tool_id(TOOL)
        return False
