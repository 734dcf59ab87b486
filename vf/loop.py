"""An event loop that watches the run instead of trusting it.

The monitor works on logical progress, not on wall-clock time:
 * Deadlock: the loop has nothing ready and no timer armed, so nothing can ever happen again.
 * Livelock: the loop went round `ROUNDS` times without the design being clocked or the run ending.
Both raise NoProgress out of the run.  Nothing is changed in how callbacks are scheduled.
"""

import asyncio
import asyncio.base_events


class NoProgress(KeyboardInterrupt):
    pass


class WatchedLoop(asyncio.SelectorEventLoop):
    ROUNDS = 60000

    def __init__(self):
        super().__init__()
        self.vf_rounds = 0
        self.vf_total_rounds = 0
        self.vf_armed = True

    def vf_progress(self):
        self.vf_rounds = 0

    def _run_once(self):
        if self.vf_armed:
            self.vf_total_rounds += 1
            self.vf_rounds += 1
            if self.vf_rounds > self.ROUNDS:
                self.vf_armed = False
                raise NoProgress(
                    f"the event loop went round {self.ROUNDS} times without a clock edge"
                )
            if not self._ready and not self._scheduled and not self._stopping:
                self.vf_armed = False
                raise NoProgress("nothing can run any more, the run hangs")
        super()._run_once()


class Policy(asyncio.DefaultEventLoopPolicy):
    last = None

    def new_event_loop(self):
        loop = WatchedLoop()
        Policy.last = loop
        return loop


def install():
    asyncio.set_event_loop_policy(Policy())
