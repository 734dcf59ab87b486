"""A stand-in for a picker-generated DUT: the boundary at which toffee is observed.

Same surface as picker's Python DUT: XData signals with width/direction/write mode, XPin = XData + clock event, a DUT
with `event`, Step(n) and StepRis callbacks.  Values behave like an immediate-write simulation.  Every access that the
oracles need is recorded.
"""

import asyncio


class TooManySteps(KeyboardInterrupt):
    pass


class XData:
    def __init__(self, dut, name, width=8, out=False, init=0, both=False):
        self.dut = dut
        self._both = both and not out
        self.name = name
        self._w = width
        self._out = out
        self._value = init
        self.writes = []  # (cycle, value)
        self.mode = None
        self.mode_calls = 0

    @property
    def value(self):
        if self.dut.closed:
            self.dut.late.append(("read", self.name))
        v = self._value
        # a design computes its value at each access, two equal ones need not be the same object
        return int(str(v)) if type(v) is int and v > 256 else v

    @value.setter
    def value(self, v):
        if self.dut.closed:
            self.dut.late.append(("write", self.name))
        self.writes.append((self.dut.cycle, v))
        if not self._out:
            self._value = v

    def W(self):
        return self._w

    def IsOutIO(self):
        return self._out

    def IsInIO(self):
        return not self._out and not self._both

    def IsBiIO(self):
        return self._both

    def AsImmWrite(self):
        self.mode = "imme"
        self.mode_calls += 1

    def AsRiseWrite(self):
        self.mode = "rise"
        self.mode_calls += 1

    def AsFallWrite(self):
        self.mode = "fall"
        self.mode_calls += 1


class XPin:
    def __init__(self, xdata, event):
        object.__setattr__(self, "xdata", xdata)
        object.__setattr__(self, "event", event)

    def __getattr__(self, name):
        return getattr(object.__getattribute__(self, "xdata"), name)

    def __setattr__(self, name, value):
        if name in ("xdata", "event"):
            object.__setattr__(self, name, value)
        else:
            setattr(self.xdata, name, value)


class DUT:
    """pins: {name: dict(width=, out=, init=)} or iterable of names."""

    def __init__(self, pins=(), max_steps=20000):
        self.event = asyncio.Event()
        self.cycle = 0
        self.max_steps = max_steps
        self.step_args = []
        self.rise_callbacks = []
        self.drivers = []  # called as f(cycle) after each edge: the design's own behaviour
        self.xdatas = {}
        self.closed = False  # set when the run is over, later accesses are recorded
        self.late = []
        self.on_edge = []  # observers
        if not isinstance(pins, dict):
            pins = {p: {} for p in pins}
        for name, kw in pins.items():
            xd = XData(self, name, **kw)
            self.xdatas[name] = xd
            setattr(self, name, XPin(xd, self.event))

    def poke(self, name, value):
        """The design drives a signal (not a testbench write)."""
        self.xdatas[name]._value = value

    def StepRis(self, func, args=(), kwargs={}):
        self.rise_callbacks.append((func, args, kwargs))

    def Step(self, n=1):
        if self.closed:
            self.late.append(("step", n))
        self.step_args.append(n)
        for _ in range(n):
            for f in self.on_edge:
                f(self.cycle)
            self.cycle += 1
            if self.cycle > self.max_steps:
                raise TooManySteps(f"more than {self.max_steps} clock edges")
            for f, a, k in list(self.rise_callbacks):
                f(self.cycle, *a, **k)
            for f in self.drivers:
                f(self.cycle)
        try:
            loop = asyncio.get_running_loop()
        except RuntimeError:
            return
        if hasattr(loop, "vf_progress"):
            loop.vf_progress()
