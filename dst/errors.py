"""Exception classes that keep the verdicts apart.

Violation    the code under test broke the property
HarnessError the simulator (not the code under test) is at fault: the check gives no answer
"""


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(f'{kind}: {msg}')
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    pass


class SimUnsupported(HarnessError):
    pass


class Killed(BaseException):
    """Raised nowhere in simulated code: a killed rank is simply never scheduled again.
    Used only to unwind a rank that kills itself at an I/O point."""
