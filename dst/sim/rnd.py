"""Random streams the simulator owns, including hostile but legal ones."""
import random


class Stream(random.Random):
    """kind: fair | zeros | ones | alt | sticky | edge — all derived from one seed.
    Values stay legal: random() in [0, 1), getrandbits(k) in [0, 2**k), and rejection
    sampling always ends."""

    def __new__(cls, *a, **k):
        return super().__new__(cls)

    def __init__(self, kind, seed):
        self.kind = kind
        self.base = random.Random(seed)
        self.n = 0
        super().__init__(seed)

    def seed(self, *a, **k):
        pass

    def random(self):
        self.n += 1
        b = self.base.random()
        k = self.kind
        if k == "zeros":
            return 0.0 if b < 0.9 else b
        if k == "ones":
            return 1 - 2.0 ** -53 if b < 0.9 else b
        if k == "alt":
            return (0.0, 1 - 2.0 ** -53)[self.n % 2]
        if k == "sticky":
            return self.base.choice((0.25, 0.5, 0.75)) if b < 0.5 else 0.5
        if k == "edge":
            return self.base.choice((0.0, 2.0 ** -53, 0.5, 1 - 2.0 ** -53, 1 / 3, b))
        return b

    def getrandbits(self, k):
        self.n += 1
        b = self.base.random()
        full = self.base.getrandbits(k) if k else 0
        kk = self.kind
        if kk == "zeros":
            return 0 if b < 0.9 else full
        if kk == "ones":
            return (1 << k) - 1 if b < 0.5 else ((1 << k) - 2 if b < 0.8 and k else full)
        if kk == "alt":
            return 0 if self.n % 2 else full
        if kk == "edge":
            return self.base.choice((0, full, max(0, (1 << k) - 1)))
        return full


KINDS = ["fair", "zeros", "ones", "alt", "sticky", "edge"]
