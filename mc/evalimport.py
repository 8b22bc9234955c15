"""Imports task_models.evaluation; the job launcher library it needs for
submitting jobs (never used here) may be absent."""
import sys
import types


def evaluation():
    try:
        import expjobs.helpers  # noqa: F401
    except ImportError:
        pkg = types.ModuleType('expjobs')
        mod = types.ModuleType('expjobs.helpers')

        class Launcher(object):
            pass
        mod.Launcher = Launcher
        pkg.helpers = mod
        sys.modules['expjobs'] = pkg
        sys.modules['expjobs.helpers'] = mod
    import task_models.evaluation as ev
    return ev
