"""Records which functions of /repo run (sys.monitoring, once per code object)."""
import sys

_seen = set()
_TOOL = 4


def start():
    m = sys.monitoring
    _seen.clear()
    try:
        m.use_tool_id(_TOOL, "vsym")
    except ValueError:
        pass

    def cb(code, off):
        fn = code.co_filename
        if "/mergekit/" in fn and "site-packages" not in fn:
            _seen.add(fn.split("/mergekit/", 1)[1] + ":" + code.co_qualname)
        return m.DISABLE

    m.register_callback(_TOOL, m.events.PY_START, cb)
    m.set_events(_TOOL, m.events.PY_START)
    m.restart_events()


def stop():
    sys.monitoring.set_events(_TOOL, 0)
    return sorted(x for x in _seen if "<genexpr>" not in x and "<lambda>" not in x and "<module>" not in x
                  and "<listcomp>" not in x)
