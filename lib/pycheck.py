"""Helpers of the checks that call qugar's Python code in-process (with stand-ins)."""
import sys
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "stubs"))
import numpy as np  # noqa: E402


def jlist(a):
    """numpy -> nested lists of Python scalars."""
    if isinstance(a, np.ndarray):
        return a.tolist()
    if isinstance(a, np.generic):
        return a.item()
    if isinstance(a, (list, tuple)):
        return [jlist(x) for x in a]
    return a


def call(fn, *a, **k):
    """(result, None) or (None, short text of the exception)."""
    try:
        return fn(*a, **k), None
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return None, f"{type(e).__name__}: {e} ({Path(tb.filename).name}:{tb.lineno} {tb.line})"


def ask(c, what, replay, fn, *a, **k):
    """Call the code under test; an exception is a violation."""
    r, err = call(fn, *a, **k)
    if err is not None:
        c.violation(f"{what}: {err}", replay)
        return None
    return r
