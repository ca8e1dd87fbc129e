"""Loads the package for verification and runs contract units."""
import io
import sys
import time
import types
from . import core, load, models, rt, structm


def fake(name, real, **over):
    m = types.ModuleType(name)
    for k in dir(real):
        if not k.startswith('__'): setattr(m, k, getattr(real, k))
    for k, v in over.items(): setattr(m, k, v)
    return m


def bytesio(initial=b''):
    if core.cur(): return models.SStream(models.sb(initial, bytes))
    return io.BytesIO(initial)


PKG = None


def package():
    global PKG
    if PKG is None:
        sm = fake('struct', structm.real, **{k: getattr(structm, k) for k in ('Struct', 'pack', 'pack_into', 'unpack', 'unpack_from', 'calcsize', 'iter_unpack')})
        PKG = load.Loader(rt, {'struct': sm, 'io': fake('io', io, BytesIO=bytesio)}).load()
    return PKG


def run_unit(unit, budget=120.0, first=None):
    """all paths of one contract; returns a plain dict"""
    pkg = package()
    ctx = core.Ctx(budget)
    t = time.time()
    why = None

    def once():
        pkg.restore()
        unit.fn()
    core.set_cur(ctx)
    try:
        ctx.explore(once, first=first)
    except core.Unsupported as e:
        why = f'{e} ({where(e)}) on path {" | ".join(map(str, ctx.notes[-8:]))}'
    except core.PyvcStop as e:
        why = f'{type(e).__name__} {e}'
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        why = f'{type(e).__name__}: {e} ({"; ".join(f"{f.name}:{f.lineno}" for f in tb[-6:])})'
    finally:
        core.set_cur(None)
        pkg.restore()
    obs = [dict(name=o.name, tags=o.tags, status=o.status, detail=o.detail, path=o.path[-12:], seconds=o.seconds) for o in ctx.obligations]
    vac = [n for n, ok in ctx.covers.items() if ok is None]
    return dict(unit=unit.name, function=unit.function, tags=unit.tags, obligations=obs, why=why, vacuous=vac, covers={n: ok is not None for n, ok in ctx.covers.items()}, runs=ctx.runs, restarts=ctx.restarts,
                solver_s=ctx.solver_s, queries=ctx.queries, seconds=time.time() - t)


def where(e):
    import traceback
    fr = [f for f in traceback.extract_tb(e.__traceback__) if load.REPO in f.filename]
    return f'{fr[-1].filename.rsplit("/", 1)[-1]}:{fr[-1].lineno}' if fr else ''


class Unit:
    """one contract.  split: number of alternatives of its first choice, run separately;
    cost: rough time, to start the long ones first"""

    def __init__(self, name, function, tags, fn, split=0, cost=1):
        self.name, self.function, self.tags, self.fn, self.split, self.cost = name, function, tuple(tags), fn, split, cost
