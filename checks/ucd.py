"""The oracle for the tables: UnicodeData.txt 16.0.0, the version the library
ships and says it implements."""
import gzip
import os

CATS = ["Lu", "Ll", "Lt", "Lm", "Lo", "Mn", "Mc", "Me", "Nd", "Nl", "No", "Pc", "Pd",
        "Ps", "Pe", "Pi", "Pf", "Po", "Sm", "Sc", "Sk", "So", "Zs", "Zl", "Zp", "Cc",
        "Cf", "Cs", "Co", "Cn"]
MAX = 0x10FFFF


class Ucd:
    def __init__(self):
        self.path = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                 "UnicodeData16.0.0.txt.gz")
        self.cat = {}          # (lo, hi) runs are expanded per code point
        self.upper = {}
        self.lower = {}
        self.title = {}
        self.decomp = {}
        cat = bytearray(MAX + 1)
        for i in range(MAX + 1):
            cat[i] = CATS.index("Cn")
        first = None
        with gzip.open(self.path, "rt", encoding="ascii") as f:
            for line in f:
                p = line.rstrip("\n").split(";")
                if len(p) < 15:
                    continue
                c = int(p[0], 16)
                k = CATS.index(p[2])
                if p[1].endswith(", First>"):
                    first = c
                    continue
                if p[1].endswith(", Last>"):
                    for i in range(first, c + 1):
                        cat[i] = k
                    continue
                cat[c] = k
                if p[12]:
                    self.upper[c] = int(p[12], 16)
                if p[13]:
                    self.lower[c] = int(p[13], 16)
                if p[14]:
                    self.title[c] = int(p[14], 16)
                elif p[12]:
                    self.title[c] = int(p[12], 16)
                if p[5] and not p[5].startswith("<"):
                    self.decomp[c] = [int(x, 16) for x in p[5].split()]
        self.cats = cat

    def runs(self, of):
        """[(lo, hi, value)] of a function of the category over all code points."""
        out = []
        lo = 0
        v = of(self.cats[0])
        for i in range(1, MAX + 1):
            w = of(self.cats[i])
            if w != v:
                out.append((lo, i - 1, v))
                lo, v = i, w
        out.append((lo, MAX, v))
        return out
