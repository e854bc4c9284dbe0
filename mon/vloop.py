"""An asyncio event loop with virtual time: instead of waiting, it advances its clock to the next timer."""
import asyncio
import selectors


class _Selector(selectors.DefaultSelector):
    loop = None

    def select(self, timeout=None):
        ready = super().select(0)
        if ready or self.loop is None:
            return ready
        if timeout is None:
            # nothing scheduled: only another thread could wake the loop
            return super().select(self.loop.idle_timeout)
        if timeout > 0:
            if self.loop.executor_busy():
                # real work in progress: wait for it rather than for time to pass
                return super().select(self.loop.idle_timeout)
            self.loop.advance(timeout)
        return ready


class VirtualLoop(asyncio.SelectorEventLoop):
    idle_timeout = 0.01

    def __init__(self):
        self._vtime = 1000.0
        selector = _Selector()
        super().__init__(selector)
        selector.loop = self
        self.busy = lambda: False

    def executor_busy(self):
        return self.busy()

    def time(self):
        return self._vtime

    def advance(self, dt):
        self._vtime += dt


def finish(loop):
    """cancel what is left and close the loop"""
    tasks = asyncio.all_tasks(loop)
    for t in tasks:
        t.cancel()
    if tasks:
        loop.run_until_complete(asyncio.gather(*tasks, return_exceptions=True))
    loop.close()
