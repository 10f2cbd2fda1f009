"""Stand-in for OpenFst's Python module: the calls convert_fstfmt.py makes, on a
text file "start", then per state "s final" and "a next il ol weight" lines."""


class Weight(object):
    # like the real class: a float() conversion and no truth value of its own
    def __init__(self, x):
        self._x = x

    def __float__(self):
        return self._x

    def __eq__(self, o):
        return isinstance(o, Weight) and o._x == self._x

    def __ne__(self, o):
        return not self == o

    def __str__(self):
        return "Infinity" if self._x == float("inf") else repr(self._x)

    def to_string(self):
        return str(self)


class Arc(object):
    def __init__(self, ilabel, olabel, weight, nextstate):
        self.ilabel, self.olabel, self.weight, self.nextstate = \
            ilabel, olabel, weight, nextstate


class Fst(object):
    def __init__(self):
        self._start, self._fin, self._arcs = -1, [], []

    @classmethod
    def read(cls, path):
        f = cls()
        for line in open(path):
            p = line.split()
            if p[0] == "start":
                f._start = int(p[1])
            elif p[0] == "s":
                f._fin.append(float.fromhex(p[1]) if p[1] != "inf" else float("inf"))
                f._arcs.append([])
            else:
                f._arcs[-1].append((int(p[1]), int(p[2]), int(p[3]), float.fromhex(p[4])))
        return f

    def start(self):
        return self._start

    def num_states(self):
        return len(self._fin)

    def states(self):
        return iter(range(len(self._fin)))

    def num_arcs(self, s):
        return len(self._arcs[s])

    def final(self, s):
        return Weight(self._fin[s])

    def arcs(self, s):
        return (Arc(il, ol, Weight(w), n) for n, il, ol, w in self._arcs[s])
