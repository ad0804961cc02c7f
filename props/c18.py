"""C18: retries back off exponentially and give up when they should."""

import asyncio
import errno
import socket

from mc.core import Check, expect, expect_eq
from mc.vloop import run_loop

INTERVALS = [0.0, 0.1, 1.0, 3.5]
CAPS = [0.0, 0.25, 1.0, 10.0]


def waits(interval: float, cap: float, count: int) -> list[float]:
    """How long each attempt waits before it's made."""
    return [0.0] + [
        min(interval * 2.0**i, cap) if i < 60 else (cap if interval else 0.0)
        for i in range(count - 1)
    ]


def errors():
    """What may happen when a connection is attempted."""
    return {
        "refused": ConnectionRefusedError(errno.ECONNREFUSED, "refused"),
        "reset": ConnectionResetError(errno.ECONNRESET, "reset"),
        "aborted": ConnectionAbortedError(errno.ECONNABORTED, "aborted"),
        # What asyncio raises when several addresses were tried.
        "multiple": OSError("Multiple exceptions: refused, refused"),
        "unreachable": OSError(errno.EHOSTUNREACH, "no route to host"),
        "network": OSError(errno.ENETUNREACH, "network is unreachable"),
        "timeout": TimeoutError(errno.ETIMEDOUT, "timed out"),
        "name": socket.gaierror(socket.EAI_AGAIN, "try again"),
    }


def build(tier: str) -> Check:
    """Build the check."""
    from runtimepy.net.backoff import ExponentialBackoff
    from runtimepy.net.tcp.connection import TcpConnection
    from runtimepy.net.udp.connection import UdpConnection

    thorough = tier == "thorough"
    check = Check(
        "C18",
        tier,
        kind="model_checking",
        rule=(
            "every combination of interval, maximum wait and number of "
            "tries; every sequence of waits and resets; every kind of error "
            "for every number of failures before a success, for new and "
            "restarted stream and datagram connections"
        ),
        bounds={"operations": 10, "failures": 6},
    )

    def near(got, want) -> bool:
        return abs(got - want) < 1e-6 + 1e-9 * abs(want)

    # Operation sequences.
    def sequence(chooser, stats):
        interval = chooser.pick(INTERVALS)
        cap = chooser.pick(CAPS)
        tries = chooser.pick([1, 2, 5, 20])
        ops = [
            chooser.pick(["sleep", "reset"], costs=[0, 0])
            for _ in range(11 if thorough else 8)
        ]

        async def main(loop):
            item = ExponentialBackoff(
                interval=interval, max_sleep=cap, max_tries=tries
            )
            want = waits(interval, cap, 20)
            attempt = 0
            for op in ops:
                expect_eq(item.attempt, attempt, "attempts")
                expect_eq(item.give_up, attempt >= tries, "give up", attempt)
                if op == "reset":
                    item.reset()
                    attempt = 0
                    continue
                start = loop.time()
                await item.sleep()
                expect(
                    near(loop.time() - start, want[attempt]),
                    "wait",
                    attempt,
                    loop.time() - start,
                    want[attempt],
                )
                attempt += 1
            stats.step(len(ops))
            stats.state((interval, cap, tries, attempt))
            stats.outcome((interval, cap, tries, ops))
            return attempt

        return run_loop(main)[1]

    check.add("sequence", sequence, split=3, replay_every=499)

    # Many attempts.
    def long(chooser, stats):
        interval = chooser.pick(INTERVALS)
        cap = chooser.pick(CAPS)
        count = 2500

        async def main(loop):
            item = ExponentialBackoff(interval, cap, max_tries=count)
            want = waits(interval, cap, count)
            for idx in range(count):
                expect(not item.give_up, "gave up", idx)
                start = loop.time()
                await item.sleep()
                expect(
                    near(loop.time() - start, want[idx]),
                    "wait",
                    idx,
                    loop.time() - start,
                    want[idx],
                )
            expect(item.give_up, "didn't give up")
            stats.step(count)
            stats.outcome((interval, cap))

        return run_loop(main, max_steps=40000)[1]

    check.add("long", long)

    # Connections.
    class Tcp(TcpConnection):
        """A stream connection."""

        async def process_binary(self, data):
            return bytes(data) != b"no"

    class Udp(UdpConnection):
        """A datagram connection."""

        async def process_datagram(self, data, addr):
            return bytes(data) != b"no"

    def connecting(chooser, stats):
        kind = chooser.pick(["tcp", "udp"])
        what = chooser.pick(list(errors()))
        failures = chooser.choose(7)
        tries = chooser.pick([None, 1, 3, 6])
        interval, cap = chooser.pick([(0.1, 10.0), (1.0, 3.0)])
        restart = chooser.pick([False, True])
        own = restart and chooser.pick([False, True])

        async def main(loop):
            net = loop.net
            server = net.listen(asyncio.Protocol, "127.0.0.1", 0)
            port = server.sockets[0].getsockname()[1]
            fail = {"n": 0}
            seen = net.attempts if kind == "tcp" else net.udp_attempts

            def refuse(_):
                if fail["n"]:
                    fail["n"] -= 1
                    return errors()[what]
                return False

            net.refuse = refuse
            net.refuse_udp = refuse
            options = {}
            limit = 20
            curve = (0.1, 10.0)
            if tries is not None:
                limit = tries
                curve = (interval, cap)
                options["backoff"] = ExponentialBackoff(
                    interval=interval, max_sleep=cap, max_tries=tries
                )

            async def create(**kwargs):
                if kind == "tcp":
                    return await Tcp.create_connection(
                        host="127.0.0.1", port=port, **kwargs
                    )
                return await Udp.create_connection(
                    local_addr=("127.0.0.1", 0),
                    remote_addr=("127.0.0.1", 7),
                    **kwargs,
                )

            works = failures < limit
            made = failures + 1 if works else limit
            want, clock = [], 0.0
            for wait in waits(*curve, made):
                clock += wait
                want.append(clock)
            if not restart:
                fail["n"] = failures
                try:
                    conn = await create(**options)
                except Exception:  # pylint: disable=broad-except
                    conn = None
                expect_eq(conn is not None, works, "connected", failures)
                base = 0.0
                times = list(seen)
            else:
                conn = await create(
                    **({"backoff": ExponentialBackoff()} if own else {})
                )
                task = loop.create_task(conn.process())
                await asyncio.sleep(0.5)
                conn.disable("test")
                await task
                seen.clear()
                fail["n"] = failures
                base = loop.time()
                task = loop.create_task(conn.process(**options))
                await asyncio.sleep(200.0)
                expect_eq(task.done(), not works, "ended", failures)
                if task.done():
                    task.result()
                expect_eq(conn.disabled, not works, "disabled")
                expect_eq(conn.env.value("restarts"), int(works), "restarts")
                expect_eq(
                    conn.env.value("restart_attempts"), made, "attempts"
                )
                times = list(seen)
                conn.disable("done")
                await task
            expect_eq(len(times), made, "attempts", failures, limit)
            for got, due in zip(times, want):
                expect(near(got - base, due), "attempt time", times, want)
            stats.step(made)
            stats.state((kind, what, failures, tries, restart))
            stats.outcome((kind, what, failures, tries, restart, times))
            return times

        return run_loop(main)[1]

    check.add("connecting", connecting, split=3, replay_every=211)

    # The stop signal ends an ongoing restart.
    def stopped(chooser, stats):
        kind = chooser.pick(["tcp", "udp"])
        when = chooser.pick([0.0, 0.05, 0.25, 0.5, 5.0])

        async def main(loop):
            net = loop.net
            server = net.listen(asyncio.Protocol, "127.0.0.1", 0)
            if kind == "tcp":
                conn = await Tcp.create_connection(
                    host="127.0.0.1", port=server.sockets[0].name[1]
                )
            else:
                conn = await Udp.create_connection(
                    local_addr=("127.0.0.1", 0),
                    remote_addr=("127.0.0.1", 7),
                )
            conn.disable("test")
            net.refuse = lambda _: True
            net.refuse_udp = lambda _: ConnectionError("no")
            stop = asyncio.Event()
            if when:
                loop.call_later(when, stop.set)
            else:
                stop.set()
            seen = net.attempts if kind == "tcp" else net.udp_attempts
            seen.clear()
            await asyncio.wait_for(conn.process(stop_sig=stop), when + 10.1)
            expect(conn.disabled, "enabled")
            # At most what was already being waited for.
            expect(
                len([x for x in seen if x > when]) <= 1, "attempts", when, seen
            )
            expect(when > 0 or not seen, "attempts", seen)
            stats.step(1)
            stats.outcome((kind, when, tuple(seen)))

        return run_loop(main)[1]

    check.add("stopped", stopped)
    return check
