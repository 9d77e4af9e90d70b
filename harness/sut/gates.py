"""Plugin whose hooks are points where another thread may be given control."""
import oa.plugins.base

SCHED = [None]


def gate():
    if SCHED[0] is not None:
        SCHED[0].gate()


class Gate(oa.plugins.base.BasePlugin):
    def parse_config(self, key, value):
        if key == "vgate":
            gate()
            self.inhibit_further_callbacks()
        return super(Gate, self).parse_config(key, value)

    def finish_parsing_start(self, results):
        gate()

    def finish_parsing_end(self, ruleset):
        super(Gate, self).finish_parsing_end(ruleset)
        gate()

    def check_start(self, msg):
        gate()

    def check_end(self, ruleset, msg):
        gate()
