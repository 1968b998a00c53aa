"""Seeded PRNG used for every random decision of the simulator (never the global one)."""
import hashlib
import random


def derive(*parts):
    """Deterministic 63-bit seed from any printable parts (independent of PYTHONHASHSEED)."""
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


class Rng(random.Random):
    def __init__(self, *parts):
        super().__init__(derive(*parts))

    def chance(self, p):
        return self.random() < p

    def pick(self, seq, weights=None):
        seq = list(seq)
        if weights is None:
            return seq[self.randrange(len(seq))]
        return self.choices(seq, weights)[0]

    def seed31(self):
        return self.randrange(1, 2**31)
