"""One source of randomness per run.

Every decision of a run (schema, data, schedule, faults) is drawn from a Chooser. A run is a pure
function of the list of draws: recording it and feeding it back repeats the run exactly, and shrinking
that list shrinks operations, schedule and faults alike. A draw of 0 is always the simplest choice
(no fault, no pre-emption, smallest value), and a list that is too short continues with zeros.
"""
import hashlib
import random


class Chooser:
    __slots__ = ('rng', 'replay', 'pos', 'log')

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.pos = 0
        self.log = []

    def draw(self, n):
        """An int in [0, n)."""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] % n if self.pos < len(self.replay) else 0
            self.pos += 1
        else:
            v = int(self.rng.random() * n)
        self.log.append(v)
        return v

    def flag(self, percent):
        """True with the given probability; 0 is False."""
        return self.draw(100) >= 100 - percent

    def rng_int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: (weight, item); the first one is the simplest."""
        total = sum(w for w, _ in pairs)
        v = self.draw(total)
        for w, item in pairs:
            if v < w:
                return item
            v -= w
        raise AssertionError

    def shuffled(self, seq):
        r = list(seq)
        for i in range(len(r) - 1):
            j = i + self.draw(len(r) - i)
            r[i], r[j] = r[j], r[i]
        return r

    def subset(self, seq, percent):
        return [i for i in seq if self.flag(percent)]


def derive(*parts):
    """A 63 bit seed from any parts, the same in every process."""
    h = hashlib.sha256('\x1f'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big') >> 1
