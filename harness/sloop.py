"""An event loop over real sockets whose clock runs faster than the wall clock."""
import asyncio
import selectors
import time

from core import monotonic

SCALE = 600


class _Selector(selectors.PollSelector):
    def select(self, timeout=None):
        return super().select(timeout / SCALE if timeout else timeout)


class SLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        super().__init__(_Selector())
        self.errors = []
        self.set_exception_handler(lambda loop, ctx: self.errors.append(ctx))

    def time(self):
        return monotonic() * SCALE

    def finish(self):
        for t in asyncio.all_tasks(self):
            t.cancel()
        try:
            self.run_until_complete(asyncio.sleep(0))
        except RuntimeError:
            pass
        asyncio.set_event_loop(None)
        self.close()
