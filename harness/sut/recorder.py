"""Plugins that record which hooks were called."""
import oa.context
import oa.plugins.base

CALLS = []


class _Rec(oa.plugins.base.BasePlugin):
    def plugin_report(self, msg):
        CALLS.append(["report", type(self).__name__, msg.raw_msg])

    def plugin_revoke(self, msg):
        CALLS.append(["revoke", type(self).__name__, msg.raw_msg])


class RecA(_Rec):
    pass


class RecB(_Rec):
    pass


class RecC(_Rec):
    pass


def watch():
    """Record the arguments of the context's report and revoke hooks."""
    import functools
    import inspect
    for name in ("hook_report", "hook_revoke"):
        func = getattr(oa.context.GlobalContext, name)
        if getattr(func, "_watched", False):
            continue

        def make(func, name):
            sig = inspect.signature(func)

            @functools.wraps(func)
            def wrapper(*args, **kw):
                b = sig.bind(*args, **kw)
                b.apply_defaults()
                a = b.arguments
                CALLS.append(["hook", name, a["msg"].raw_msg, bool(a["spam"]), bool(a["local"]), bool(a["remote"])])
                return func(*args, **kw)
            wrapper._watched = True
            return wrapper
        setattr(oa.context.GlobalContext, name, make(func, name))
