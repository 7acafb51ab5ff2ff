"""C23 an interrupted wait for the lock leaves it as if never asked."""
from dst import rw

ID = 'C23'


def make(rng, tier):
    return rw.plan(rng, interrupts=True)


def run(sim, plan):
    return rw.RW(sim, plan).run()


def check(w, plan):
    m = rw.check(w)
    return [m] if m else []


def nontrivial(w, plan):
    """a waiting request was interrupted"""
    return any(q.intr for q in w.reqs)
