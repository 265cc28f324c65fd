"""An asyncio loop for harnesses that run the real anyio/asyncio scheduling: it reports a deadlock
(nothing ready, nothing scheduled, no thread at work) instead of blocking for ever."""
from __future__ import annotations

import asyncio
import logging
import sys


class Deadlock(Exception):
    """the coroutine can never finish: every task waits and nothing can wake it"""


class Loop(asyncio.SelectorEventLoop):
    def _run_once(self):
        if self.strict and not self._ready and not self._stopping and all(h.cancelled() or h.when() > self.time() + 60 for h in self._scheduled):
            raise Deadlock("every task waits for ever")
        super()._run_once()

    strict = True


_LOOP = None


def quiet():
    logging.getLogger("asyncio").setLevel(logging.CRITICAL)
    sys.unraisablehook = lambda *a: None


def run(coro, strict, timeout=None):
    """drive coro on a shared loop; leftover tasks of an aborted run are dropped with the loop"""
    global _LOOP
    if _LOOP is None:
        quiet()
        _LOOP = Loop()
    loop = _LOOP
    loop.strict = strict
    try:
        res = loop.run_until_complete(coro if timeout is None else asyncio.wait_for(coro, timeout))
    except BaseException:
        asyncio._set_running_loop(None)
        if _LOOP is loop and asyncio.all_tasks(loop):
            _LOOP = None
            try:
                loop._ready.clear()
                loop._scheduled.clear()
                loop.close()
            except Exception:
                pass
        raise
    return res


def leftover():
    """tasks still alive after a run"""
    return [] if _LOOP is None else [t for t in asyncio.all_tasks(_LOOP) if not t.done()]


def leaves(e, seen=None):
    seen = set() if seen is None else seen
    if e is None or id(e) in seen:
        return
    seen.add(id(e))
    if isinstance(e, BaseExceptionGroup):
        for x in e.exceptions:
            yield from leaves(x, seen)
    else:
        yield e
    yield from leaves(e.__context__, seen)
