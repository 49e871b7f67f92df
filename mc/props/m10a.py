"""M10: concurrent registration of metric readers (engine A part)."""
import logging

from mc.explore import Harness, spawn
from mc.props._metrics import C, Reader, metrics, provider

logging.disable(logging.CRITICAL)


class H(Harness):
    """Several threads make a provider each; lists name the readers given to it."""

    def __init__(self, name, lists, bound=2):
        self.name, self.lists, self.bound = name, lists, bound

    def body(self):
        rs = [Reader(C) for _ in range(3)]
        provs = {}

        def make(i):
            try:
                provs[i] = provider([rs[x] for x in self.lists[i]])
            except Exception:  # noqa
                provs[i] = None

        ts = [spawn(lambda i=i: make(i), f"t{i}") for i in range(len(self.lists))]
        for t in ts:
            t.join()
        for i, p in provs.items():
            if p is not None:
                p.get_meter("m").create_counter("c").add(1 << i)
        self.provs = provs
        self.got = [[q.value for _, y in metrics(r.scrape()) for q in y.data.data_points] for r in rs]
        return sorted((i, p is not None) for i, p in provs.items()), self.got

    def check(self, out):
        for x in range(3):
            users = [i for i, l in enumerate(self.lists) if x in l]
            made = [i for i in users if self.provs[i] is not None]
            if len(made) > 1:
                return f"shared: reader {x} was accepted by the providers {made}"
            if len(users) == 1 and not made and len(self.lists[users[0]]) == 1:
                return f"refused: reader {x} was refused by its only provider"
            if made and self.got[x] != [1 << made[0]]:
                return f"belongs: reader {x} of provider {made[0]} reports {self.got[x]}"
        if all(len(l) == 1 for l in self.lists) and not any(self.provs.values()):
            return "none: every provider was refused"
        return None


def HARNESSES(tier):
    return [H("same", [(0,), (0,)]), H("apart", [(0,), (1,)]), H("three", [(0,), (0,), (1,)], 1 if tier == "quick" else 2), H("overlap", [(0, 1), (1, 2)])]
