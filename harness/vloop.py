"""An event loop whose clock jumps to the next timer, with recorded datagram endpoints and in-memory streams."""
import asyncio
import selectors

from core import Violation, pass_time


class _Selector(selectors.SelectSelector):
    loop = None

    def select(self, timeout=None):
        if timeout is None:  # nothing scheduled: a program would wait for ever
            self.loop.stuck = True
            self.loop.stop()
            return []
        if timeout > 0:
            self.loop.now += timeout
            pass_time(timeout)
        return []


class FakeDatagram(asyncio.DatagramTransport):
    def __init__(self, loop, local, remote, protocol, on_send):
        super().__init__()
        self.local, self.remote, self.protocol, self.on_send = local, remote, protocol, on_send
        self.closed = False

    def sendto(self, data, addr=None):
        if self.closed:
            return
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError("data argument must be a bytes-like object, not %r" % type(data).__name__)
        self.on_send(bytes(data), addr if addr is not None else self.remote)

    def get_extra_info(self, name, default=None):
        return {"sockname": self.local, "peername": self.remote}.get(name, default)

    def is_closing(self):
        return self.closed

    def close(self):
        self.closed = True

    abort = close


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self):
        sel = _Selector()
        sel.loop = self
        self.now = 0.0
        self.stuck = False
        self.errors = []
        self.endpoints = []
        self.on_send = lambda transport, data, addr: None
        super().__init__(sel)
        self.set_exception_handler(lambda loop, ctx: self.errors.append(ctx))

    def time(self):
        return self.now

    def _make_self_pipe(self):  # no descriptors: nothing here is ever ready by itself
        self._ssock = self._csock = None

    def _close_self_pipe(self):
        pass

    async def create_datagram_endpoint(self, protocol_factory, local_addr=None, remote_addr=None, **kw):
        protocol = protocol_factory()
        t = FakeDatagram(self, local_addr, remote_addr, protocol, None)
        t.sock = kw.get("sock")
        t.on_send = lambda data, addr: self.on_send(t, data, addr)
        self.endpoints.append(t)
        protocol.connection_made(t)
        return t, protocol

    def drive(self, coro, horizon=6 * 10 ** 6):
        """Runs a coroutine to its end; the clock stops at the horizon."""
        asyncio.set_event_loop(self)
        self.call_at(horizon, self.stop)
        task = self.create_task(coro)
        task.add_done_callback(lambda t: self.stop())
        while not task.done():
            self.run_forever()
            if not task.done() and (self.stuck or self.now >= horizon):
                task.cancel()
                try:
                    self.run_until_complete(task)
                except (asyncio.CancelledError, RuntimeError):
                    pass
                raise Violation("waits for ever")
        return task.result()

    def finish(self):
        for t in asyncio.all_tasks(self):
            t.cancel()
        self.stuck = False
        try:
            self.run_until_complete(asyncio.sleep(0))
        except RuntimeError:
            pass
        asyncio.set_event_loop(None)
        self.close()
