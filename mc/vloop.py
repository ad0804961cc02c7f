"""
A deterministic asyncio event loop: virtual time, in-memory TCP and UDP, and an
environment hook that is called at every loop iteration (the points at which
external events may occur).
"""

from __future__ import annotations

import asyncio
import heapq
import logging
import selectors
import socket
from typing import Any, Callable, Optional

from mc.core import HANG, Hang, Violation


class Quiescent(Exception):
    """Nothing is runnable, no timer is pending, the environment is done."""


class _NullSelector(selectors.BaseSelector):
    """A selector that never reports anything."""

    def __init__(self) -> None:
        self._map: dict[Any, selectors.SelectorKey] = {}

    def register(self, fileobj, events, data=None):
        key = selectors.SelectorKey(fileobj, 0, events, data)
        self._map[fileobj] = key
        return key

    def unregister(self, fileobj):
        return self._map.pop(fileobj, None)

    def modify(self, fileobj, events, data=None):
        return self.register(fileobj, events, data)

    def select(self, timeout=None):
        return []

    def close(self):
        self._map.clear()

    def get_map(self):
        return self._map

    def get_key(self, fileobj):
        return self._map[fileobj]


class LogCapture(logging.Handler):
    """Collects records that carry exceptions."""

    def __init__(self) -> None:
        super().__init__(logging.WARNING)
        self.errors: list[BaseException] = []

    def emit(self, record: logging.LogRecord) -> None:
        if record.exc_info:
            info = record.exc_info
            if isinstance(info, tuple) and info[1] is not None:
                self.errors.append(info[1])


class VirtualLoop(asyncio.SelectorEventLoop):
    """An event loop whose clock and I/O are owned by the checker."""

    def __init__(
        self,
        on_step: Optional[Callable[["VirtualLoop", bool], bool]] = None,
        max_steps: int = 20_000,
    ) -> None:
        self.virtual = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.on_step = on_step
        self.contexts: list[dict[str, Any]] = []
        super().__init__(_NullSelector())
        self.set_exception_handler(self._record_exception)
        self.net = Network(self)

    # -- plumbing ----------------------------------------------------------

    def _make_self_pipe(self) -> None:
        self._ssock, self._csock = socket.socketpair()

    def _close_self_pipe(self) -> None:
        self._ssock.close()
        self._csock.close()

    def _write_to_self(self) -> None:
        pass

    def _record_exception(self, _: Any, context: dict[str, Any]) -> None:
        self.contexts.append(context)

    def time(self) -> float:
        return self.virtual

    @property
    def exceptions(self) -> list[BaseException]:
        """Exceptions that reached the loop's exception handler."""
        return [x["exception"] for x in self.contexts if "exception" in x]

    def idle(self) -> bool:
        """Whether no callback is ready to run now."""
        return not self._ready and not (  # type: ignore
            self._live_timer() is not None
            and self._live_timer() <= self.virtual + 1e-9  # type: ignore
        )

    def _live_timer(self) -> Optional[float]:
        """When the next live timer expires."""
        sched = self._scheduled  # type: ignore
        while sched and sched[0]._cancelled:
            self._timer_cancelled_count -= 1  # type: ignore
            handle = heapq.heappop(sched)
            handle._scheduled = False
        return sched[0]._when if sched else None

    def _run_once(self) -> None:
        if HANG:
            raise Hang("wall clock")
        self.steps += 1
        if self.steps > self.max_steps:
            raise Violation(
                f"no quiescence within {self.max_steps} scheduler steps "
                f"(virtual time {self.virtual:.3f})"
            )

        # Let the environment act.
        if self.on_step is not None:
            while self.on_step(self, self.idle()):
                pass

        if not self._ready:  # type: ignore
            when = self._live_timer()
            if when is None:
                if not self._stopping:  # type: ignore
                    raise Quiescent()
            elif when > self.virtual:
                self.virtual = when
        super()._run_once()  # type: ignore

    def run_in_executor(self, executor, func, *args):  # type: ignore
        """Executor work happens inline (deterministically)."""
        fut = self.create_future()
        try:
            fut.set_result(func(*args))
        except Exception as exc:  # pylint: disable=broad-except
            fut.set_exception(exc)
        return fut

    # -- in-memory network ---------------------------------------------------

    async def create_connection(  # type: ignore
        self, protocol_factory, host=None, port=None, **kwargs
    ):
        return await self.net.connect(protocol_factory, host, port, **kwargs)

    async def create_server(  # type: ignore
        self, protocol_factory, host=None, port=None, **kwargs
    ):
        return self.net.listen(protocol_factory, host, port, **kwargs)

    async def create_datagram_endpoint(  # type: ignore
        self, protocol_factory, local_addr=None, remote_addr=None, **kwargs
    ):
        return self.net.datagram(
            protocol_factory, local_addr, remote_addr, **kwargs
        )

    async def subprocess_exec(  # type: ignore
        self, protocol_factory, program, *args, **kwargs
    ):
        return await self.net.spawn(protocol_factory, (program, *args))

    async def subprocess_shell(  # type: ignore
        self, protocol_factory, cmd, **kwargs
    ):
        return await self.net.spawn(protocol_factory, cmd)


class FakeSocket:
    """Enough of a socket for address queries."""

    family = socket.AF_INET

    def __init__(self, name, peer=None, kind=socket.SOCK_STREAM) -> None:
        self.name = name
        self.peer = peer
        self.type = kind

    def getsockname(self):
        return self.name

    def getpeername(self):
        return self.peer

    def fileno(self) -> int:
        return -1


class FakeTcp(asyncio.Transport):
    """One side of an in-memory TCP connection."""

    def __init__(self, net, protocol, local, remote) -> None:
        super().__init__(
            {
                "sockname": local,
                "peername": remote,
                "socket": FakeSocket(local, remote),
            }
        )
        self.net = net
        self.loop = net.loop
        self.protocol = protocol
        self.other: Optional["FakeTcp"] = None
        self.sent: list[bytes] = []
        self.closing = False
        self.lost = False
        self.dropped: list[bytes] = []
        # When set, written data is held for the environment to deliver.
        self.manual = False
        self.pending: list[bytes] = []
        # When set, closing waits for the environment (e.g. for buffered
        # output to be flushed): see 'release'.
        self.linger = False
        self.lingering = False
        # Nothing arrives before the connecting side is told that it's
        # connected (when not None, events to handle afterwards).
        self.early: Optional[list] = None

    def get_protocol(self):
        return self.protocol

    def set_protocol(self, protocol) -> None:
        self.protocol = protocol

    def is_closing(self) -> bool:
        return self.closing

    def write(self, data) -> None:
        data = bytes(data)
        if self.closing:
            self.dropped.append(data)
            return
        if not data:
            return
        self.sent.append(data)
        if self.manual:
            self.pending.append(data)
        elif self.other is not None:
            self.loop.call_soon(self.other.feed, data)

    def writelines(self, list_of_data) -> None:
        for data in list_of_data:
            self.write(data)

    def can_write_eof(self) -> bool:
        return False

    def feed(self, data: bytes) -> None:
        """Data arrives at this side."""
        if self.early is not None:
            self.early.append((self.feed, data))
            return
        if not self.closing and not self.lost:
            self.protocol.data_received(data)

    def deliver(self, size: Optional[int] = None) -> bytes:
        """Deliver pending (manual) output to the other side."""
        data = b"".join(self.pending)
        part = data if size is None else data[:size]
        rest = data[len(part) :]
        self.pending = [rest] if rest else []
        if part and self.other is not None:
            self.other.feed(part)
        return part

    def ready(self) -> None:
        """Handle events that arrived early."""
        early, self.early = self.early, None
        for func, *args in early or []:
            func(*args)

    def _lose(self, exc: Optional[Exception]) -> None:
        if self.early is not None:
            self.early.append((self._lose, exc))
            return
        if not self.lost:
            self.lost = True
            self.closing = True
            self.protocol.connection_lost(exc)

    def drop(self, exc: Optional[Exception] = None) -> None:
        """The connection is lost (peer went away)."""
        self._lose(exc)

    def close(self) -> None:
        if self.closing:
            return
        self.closing = True
        if self.linger:
            self.lingering = True
            return
        self.loop.call_soon(self._lose, None)
        if self.other is not None and not self.other.lost:
            self.loop.call_soon(self.other._lose, None)

    def release(self, exc: Optional[Exception] = None) -> None:
        """Finish closing."""
        if self.lingering:
            self.lingering = False
            self._lose(exc)
            if self.other is not None and not self.other.lost:
                self.other._lose(None)

    def abort(self) -> None:
        self.close()

    def pause_reading(self) -> None:
        pass

    def resume_reading(self) -> None:
        pass

    def get_write_buffer_size(self) -> int:
        return 0

    def set_write_buffer_limits(self, high=None, low=None) -> None:
        pass


class FakeServer:
    """An in-memory listening socket."""

    def __init__(self, net, factory, name) -> None:
        self.net = net
        self.factory = factory
        self.sockets = [FakeSocket(name)]
        self.closed = False

    async def __aenter__(self):
        return self

    async def __aexit__(self, *_):
        self.close()

    def close(self) -> None:
        """Stop accepting."""
        self.closed = True
        self.net.servers.pop(self.sockets[0].name[1], None)

    async def wait_closed(self) -> None:
        """Nothing to wait for."""

    def is_serving(self) -> bool:
        """Accepting."""
        return not self.closed

    def get_loop(self):
        return self.net.loop


class FakeUdp(asyncio.DatagramTransport):
    """An in-memory datagram socket."""

    def __init__(self, net, protocol, local, remote) -> None:
        super().__init__(
            {
                "sockname": local,
                "peername": remote,
                "socket": FakeSocket(local, remote, socket.SOCK_DGRAM),
            }
        )
        self.net = net
        self.loop = net.loop
        self.protocol = protocol
        self.local = local
        self.remote = remote
        self.sent: list[tuple[bytes, Any]] = []
        self.closing = False
        self.lost = False
        self.dropped: list[bytes] = []

    def is_closing(self) -> bool:
        return self.closing

    def sendto(self, data, addr=None) -> None:
        data = bytes(data)
        if self.remote is not None and addr is not None:
            # Mirror asyncio's behaviour for connected sockets.
            if tuple(addr)[:2] != tuple(self.remote)[:2]:
                raise ValueError(
                    f"Invalid address: must be None or {self.remote}"
                )
        if self.closing:
            self.dropped.append(data)
            return
        dest = tuple(addr)[:2] if addr is not None else self.remote
        assert dest is not None, "no destination"
        self.sent.append((data, tuple(dest)[:2]))
        self.net.transmit(self, data, tuple(dest)[:2])

    def feed(self, data: bytes, addr) -> None:
        """A datagram arrives."""
        if not self.closing:
            self.protocol.datagram_received(data, tuple(addr))

    def error(self, exc: Exception) -> None:
        """A socket error is reported."""
        if not self.closing:
            self.protocol.error_received(exc)

    def close(self) -> None:
        if self.closing:
            return
        self.closing = True
        self.net.udp.pop(tuple(self.local)[:2], None)

        def lose() -> None:
            self.lost = True
            self.protocol.connection_lost(None)

        self.loop.call_soon(lose)

    def abort(self) -> None:
        self.close()


class FakePipe(asyncio.Transport):
    """Standard input of a process."""

    def __init__(self, proc: "FakeProcess") -> None:
        super().__init__()
        self.proc = proc
        self.closing = False
        self.eof = False

    def write(self, data) -> None:
        data = bytes(data)
        if self.closing or self.eof:
            raise RuntimeError("write after end")
        self.proc.input.append(data)
        self.proc.loop.call_soon(self.proc.on_input, data)

    def can_write_eof(self) -> bool:
        return True

    def write_eof(self) -> None:
        if not self.closing and not self.eof:
            self.eof = True
            self.proc.loop.call_soon(self.proc.on_eof)

    def is_closing(self) -> bool:
        return self.closing

    def close(self) -> None:
        if not self.closing:
            self.write_eof()
            self.closing = True


class FakeProcess(asyncio.SubprocessTransport):
    """A process that's controlled by the environment."""

    def __init__(self, net, protocol, args) -> None:
        super().__init__({"subprocess": None})
        self.net = net
        self.loop = net.loop
        self.protocol = protocol
        self.args = args
        self.input: list[bytes] = []
        self.stdin = FakePipe(self)
        self.returncode: Optional[int] = None
        self.killed = False
        self.closing = False
        self.lost: set[int] = set()
        self.on_input: Callable[[bytes], Any] = lambda _: None
        self.on_eof: Callable[[], Any] = lambda: None

    def get_pid(self) -> int:
        return 1234

    def get_returncode(self):
        return self.returncode

    def get_pipe_transport(self, fd: int):
        return self.stdin if fd == 0 else None

    def is_closing(self) -> bool:
        return self.closing

    def emit(self, fd: int, data: bytes) -> None:
        """The process wrote data."""
        if fd not in self.lost and not self.closing:
            self.protocol.pipe_data_received(fd, data)

    def end(self, fd: int) -> None:
        """A pipe was closed."""
        if fd not in self.lost:
            self.lost.add(fd)
            self.protocol.pipe_connection_lost(fd, None)

    def exit(self, code: int) -> None:
        """The process ended."""
        if self.returncode is None:
            self.returncode = code
            self.protocol.process_exited()

    def send_signal(self, signal) -> None:
        self.kill()

    def terminate(self) -> None:
        self.kill()

    def kill(self) -> None:
        if self.returncode is None and not self.killed:
            self.killed = True
            self.loop.call_later(0.01, self.exit, -9)

    def close(self) -> None:
        if not self.closing:
            self.closing = True
            self.stdin.close()
            for fd in (1, 2):
                self.loop.call_soon(self.end, fd)
            self.kill()


class Network:
    """In-memory network."""

    def __init__(self, loop: VirtualLoop) -> None:
        self.loop = loop
        self.servers: dict[int, FakeServer] = {}
        self.udp: dict[tuple[str, int], FakeUdp] = {}
        self.tcp: list[tuple[FakeTcp, Optional[FakeTcp]]] = []
        # (Below those that the operating system assigns.)
        self.next_port = 20000
        self.refuse: Callable[[int], Any] = lambda attempt: False
        self.attempts: list[float] = []
        self.refuse_udp: Callable[[int], Any] = lambda attempt: False
        self.udp_attempts: list[float] = []
        # Called for each datagram; returns whether to deliver normally.
        self.on_datagram: Optional[
            Callable[[FakeUdp, bytes, tuple[str, int]], bool]
        ] = None
        self.raw_peers = False

    def port(self) -> int:
        """Allocate a port."""
        self.next_port += 1
        return self.next_port

    async def connect(self, factory, host, port, sock=None, **kwargs):
        """Open a stream connection."""
        self.attempts.append(self.loop.time())
        refused = self.refuse(len(self.attempts))
        if isinstance(refused, BaseException):
            raise refused
        if refused:
            raise ConnectionRefusedError(f"refused {host}:{port}")
        server = self.servers.get(port)
        if server is None and not self.raw_peers:
            raise ConnectionRefusedError(f"nothing listens on {port}")
        local = ("127.0.0.1", self.port())
        remote = ("127.0.0.1", port)
        protocol = factory()
        client = FakeTcp(self, protocol, local, remote)
        peer = None
        if server is not None:
            peer = FakeTcp(self, None, remote, local)
            peer.protocol = server.factory()
            client.other = peer
            peer.other = client
        self.tcp.append((client, peer))
        client.early = []
        protocol.connection_made(client)
        if peer is not None:
            peer.protocol.connection_made(peer)
        fut = self.loop.create_future()
        self.loop.call_soon(fut.set_result, None)
        try:
            await fut
        finally:
            self.loop.call_soon(client.ready)
        return client, protocol

    # Called with a process when it's created (and can arrange anything).
    on_spawn: Callable[[FakeProcess], Any] = staticmethod(lambda _: None)

    async def spawn(self, factory, args):
        """Start a process."""
        protocol = factory()
        proc = FakeProcess(self, protocol, args)
        protocol.connection_made(proc)
        self.on_spawn(proc)
        for _ in range(2):
            fut = self.loop.create_future()
            self.loop.call_soon(fut.set_result, None)
            await fut
        return proc, protocol

    def listen(self, factory, host, port, **kwargs) -> FakeServer:
        """Open a listening socket."""
        name = ("127.0.0.1", port or self.port())
        if name[1] in self.servers:
            raise OSError("address in use")
        server = FakeServer(self, factory, name)
        self.servers[name[1]] = server
        return server

    def datagram(self, factory, local_addr, remote_addr, sock=None, **kwargs):
        """Open a datagram socket."""
        self.udp_attempts.append(self.loop.time())
        refused = self.refuse_udp(len(self.udp_attempts))
        if isinstance(refused, BaseException):
            raise refused
        if sock is not None:
            local = tuple(sock.getsockname())[:2]
            try:
                remote = tuple(sock.getpeername())[:2]
            except OSError:
                remote = None
            sock.close()
        else:
            local = ("127.0.0.1", 0)
            if local_addr is not None:
                local = tuple(local_addr)[:2]
            if not local[1]:
                local = (local[0], self.port())
            remote = (
                None if remote_addr is None else tuple(remote_addr)[:2]
            )
        if remote is not None and remote[0] == "localhost":
            remote = ("127.0.0.1", remote[1])
        if local[0] in ("localhost", "0.0.0.0"):
            local = ("127.0.0.1", local[1])
        protocol = factory()
        trans = FakeUdp(self, protocol, local, remote)
        self.udp[local] = trans
        protocol.connection_made(trans)
        return trans, protocol

    def transmit(self, source: FakeUdp, data: bytes, dest) -> None:
        """Send a datagram."""
        if dest[0] in ("localhost", "0.0.0.0"):
            dest = ("127.0.0.1", dest[1])
        if self.on_datagram is not None and not self.on_datagram(
            source, data, dest
        ):
            return
        self.deliver(source.local, data, dest)

    def deliver(self, source, data: bytes, dest) -> None:
        """Deliver a datagram (soon)."""
        target = self.udp.get(tuple(dest))
        if target is not None and (
            target.remote is None or tuple(target.remote) == tuple(source)
        ):
            self.loop.call_soon(target.feed, data, source)


def run_loop(
    main: Callable[[VirtualLoop], Any],
    on_step: Optional[Callable[[VirtualLoop, bool], bool]] = None,
    max_steps: int = 20_000,
    quiescent_ok: bool = False,
) -> tuple[VirtualLoop, Any]:
    """
    Run a coroutine function on a fresh virtual loop. The coroutine not
    finishing (deadlock) is a violation unless 'quiescent_ok'.
    """
    loop = VirtualLoop(on_step=on_step, max_steps=max_steps)
    asyncio.set_event_loop(loop)
    result = None
    try:
        task = loop.create_task(main(loop))
        try:
            result = loop.run_until_complete(task)
        except Quiescent as exc:
            if not quiescent_ok:
                stuck = describe_tasks(loop)
                raise Violation(f"deadlock: nothing can run; {stuck}") from exc
    finally:
        loop.on_step = None
        shutdown(loop)
    return loop, result


def describe_tasks(loop: VirtualLoop) -> str:
    """Describe unfinished tasks."""
    names = []
    for task in asyncio.all_tasks(loop):
        if not task.done():
            names.append(getattr(task.get_coro(), "__qualname__", "?"))
    return "unfinished: " + ", ".join(sorted(names))


def pending_tasks(loop: VirtualLoop, *exclude: Any) -> list[str]:
    """Names of unfinished tasks."""
    return sorted(
        getattr(task.get_coro(), "__qualname__", "?")
        for task in asyncio.all_tasks(loop)
        if not task.done() and task not in exclude
    )


def shutdown(loop: VirtualLoop) -> None:
    """Cancel leftovers and close the loop, ignoring what they do."""
    saved = list(loop.contexts)
    loop.max_steps = loop.steps + 5000
    try:
        for _ in range(5):
            tasks = [x for x in asyncio.all_tasks(loop) if not x.done()]
            if not tasks:
                break
            for task in tasks:
                task.cancel()
            try:
                loop.run_until_complete(
                    asyncio.gather(*tasks, return_exceptions=True)
                )
            except BaseException:  # pylint: disable=broad-except
                pass
        try:
            loop.run_until_complete(loop.shutdown_asyncgens())
        except BaseException:  # pylint: disable=broad-except
            pass
    finally:
        loop.contexts = saved
        loop.close()
        asyncio.set_event_loop(None)


def mute_logging() -> LogCapture:
    """Silence logging but capture exceptions that are logged."""
    root = logging.getLogger()
    for handler in list(root.handlers):
        root.removeHandler(handler)
    capture = LogCapture()
    root.addHandler(capture)
    root.setLevel(logging.ERROR)
    return capture


def patch_names() -> None:
    """Make name lookups deterministic (no resolver)."""

    def gethostbyaddr(addr):
        raise OSError(f"no name for {addr}")

    socket.gethostbyaddr = gethostbyaddr  # type: ignore
    socket.getfqdn = lambda name="": "localhost"  # type: ignore


class metrics_clock:
    """Bind the metrics clock of the package to a loop's virtual time."""

    def __init__(self, loop: Any, start_ns: int = 10**9) -> None:
        self.loop = loop
        self.start_ns = start_ns

    def now(self) -> int:
        """The current time."""
        return self.start_ns + round(self.loop.time() * 1e9)

    def __enter__(self) -> "metrics_clock":
        import vcorelib.math.time as module

        self.module = module
        self.saved = module._perf_counter_ns
        module._perf_counter_ns = self.now
        return self

    def __exit__(self, *_: Any) -> None:
        self.module._perf_counter_ns = self.saved
