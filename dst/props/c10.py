"""C10 reader-writer lock: exclusive writers, shared readers, writers first."""
from dst import rw

ID = 'C10'


def make(rng, tier):
    return rw.plan(rng)


def run(sim, plan):
    return rw.RW(sim, plan).run()


def check(w, plan):
    m = rw.check(w)
    return [m] if m else []


def nontrivial(w, plan):
    """somebody asked while somebody else was inside or waiting"""
    return any(a is not b and a.inv < b.inv and (a.rel_ret or 0) > b.inv
               for a in w.reqs for b in w.reqs)
