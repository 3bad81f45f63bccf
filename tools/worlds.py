"""Worlds: universes of contracts and alphabets of calls the stock specification is explored over.

The files written are read both by the replay harness (which builds the concrete consensus data) and,
after `rgbverif prepare`, by TLC.
"""
import json, random


class World:
    def __init__(self, funding=("f0", "f1", "f2")):
        self.d = dict(order=[], funding=list(funding), contracts={}, ops={}, bundles={}, witnesses={},
                      cons={}, fascias={}, chains={}, exports={}, inits=[], faults=[], secretActs=[],
                      afters=[])

    # ------------------------------------------------------------ consensus data
    @staticmethod
    def _assigns(lst):
        res = []
        for a in lst:
            if isinstance(a, dict):
                res.append(a)
                continue
            ty, place, val = a[:3]
            m = a[3] if len(a) > 3 else "T"
            tx, vout = place.split(":")
            x = dict(ty=ty, tx=tx, vout=int(vout), m=m, val=val)
            if len(a) > 4:
                x["blind"] = a[4]
            res.append(x)
        return res

    def op(self, name, contract, kind, assigns=(), inputs=(), globals=(), tt=10000, nonce=None,
           redeems=None, valency=False):
        o = dict(contract=contract, kind=kind, tt=tt if kind == "transition" else 0,
                 inputs=list(inputs), assigns=self._assigns(assigns),
                 globals=[dict(ty=t, val=v) for t, v in globals], valency=valency)
        if kind == "extension":
            o["tt"] = 9000
        if nonce is not None:
            o["nonce"] = nonce
        if redeems:
            o["redeems"] = redeems
        self.d["ops"][name] = o
        self.d["order"].append(name)
        return self

    def contract(self, c, genesis, assigns, globals=(), schema=0, valency=False):
        self.d["contracts"][c] = dict(genesis=genesis, schema=schema)
        return self.op(genesis, c, "genesis", assigns, globals=globals, valency=valency)

    def tr(self, name, contract, inputs, assigns, **kw):
        return self.op(name, contract, "transition", assigns, inputs, **kw)

    def bundle(self, b, contract, ops, map, m="T"):
        self.d["bundles"][b] = dict(contract=contract, m=m, ops=list(ops),
                                    map={str(k): v for k, v in map.items()})
        self.d["order"].append(b)
        return self

    def witness(self, w, inputs, bundles, salt=0):
        self.d["witnesses"][w] = dict(inputs=list(inputs), bundles=list(bundles), salt=salt)
        self.d["order"].append(w)
        return self

    # ------------------------------------------------------------ alphabet
    def bview(self, b, ops=None):
        return dict(b=b, ops=list(self.d["bundles"][b]["ops"] if ops is None else ops))

    def con(self, name, contract, wbs=(), levels=None, exts=(), terminals=None, transfer=True):
        """wbs: list of (witness, [bundle | (bundle, ops)], tx?)"""
        out = []
        for wb in wbs:
            w, bs = wb[0], wb[1]
            tx = wb[2] if len(wb) > 2 else True
            out.append(dict(w=w, tx=tx, bundles=[
                self.bview(b) if isinstance(b, str) else self.bview(*b) for b in bs]))
        self.d["cons"][name] = dict(contract=contract, transfer=transfer, levels=levels or {}, wbs=out,
                                    exts=list(exts), terminals=terminals or {})
        return self

    def fascia(self, name, w, bundles, levels=None):
        self.d["fascias"][name] = dict(w=w, levels=levels or {}, bundles=[
            self.bview(b) if isinstance(b, str) else self.bview(*b) for b in bundles])
        return self

    def chain(self, name, **ords):
        full = {w: "N" for w in self.d["witnesses"]}
        full.update(ords)
        self.d["chains"][name] = full
        return self

    def export(self, name, c, outs=(), secret="", transfer=True, receiver=()):
        self.d["exports"][name] = dict(c=c, outs=list(outs), secret=secret, transfer=transfer,
                                       receiver=list(receiver))
        return self

    def inits(self, *names):
        self.d["inits"] = list(names)
        return self

    def faults(self, *pairs):
        self.d["faults"] = [list(p) for p in pairs]
        return self

    def secrets(self, *sids):
        self.d["secretActs"] = list(sids)
        return self

    def afters(self, *hs):
        self.d["afters"] = list(hs)
        return self


def basic():
    """One contract, a chain of two transfers, a replacement of the first witness."""
    w = World()
    w.contract("c0", "g0", [("A", "f0:0", 100), ("A", "f0:1", 50), ("R", "f0:0", 0)],
               globals=[("G1", 1), ("GN", 5)])
    w.tr("t1", "c0", ["g0/A/0"], [("A", "@:2", 60), ("A", "@:3", 40)], globals=[("GN", 7)])
    w.bundle("b1", "c0", ["t1"], {0: "t1"})
    w.witness("w1", ["f0:0"], ["b1"])
    w.tr("t2", "c0", ["t1/A/0"], [("A", "@:4", 60)], globals=[("GN", 3)])
    w.bundle("b2", "c0", ["t2"], {0: "t2"})
    w.witness("w2", ["w1:2"], ["b2"])
    s1, s2 = "T:@:2#t1/A/0", "T:@:4#t2/A/0"
    w.con("k0", "c0", transfer=False, levels={"g0/A/1": "S"})
    w.con("k1", "c0", [("w1", ["b1"])], levels={"t1/A/0": "S", "t1/A/1": "S"}, terminals={"b1": s1})
    w.con("k1c", "c0", [("w1", ["b1"], False)], levels={"t1/A/0": "C"})
    w.con("k2", "c0", [("w1", ["b1"]), ("w2", ["b2"])], levels={"t1/A/1": "S", "t2/A/0": "S"},
          terminals={"b2": s2})
    w.con("kbad", "c0", [("w1", ["b1"]), ("w2", ["b2"])], levels={"t1/A/0": "S"})
    w.fascia("f1", "w1", ["b1"], levels={"t1/A/0": "S"})
    w.chain("n0")
    w.chain("n1", w1="T")
    w.chain("n2", w1="M1", w2="T")
    w.chain("n3", w1="M1", w2="M2")
    w.chain("n4", w1="A", w2="A")
    w.inits("n0").secrets(s1).afters(0, 2).faults(("k1", "w1"), ("k2", "w2"))
    w.export("e0", "c0", transfer=False)
    w.export("e1", "c0", ["w1:3"], s1, receiver=[s1])
    w.export("e2", "c0", ["w2:4"], s2, receiver=[s2])
    w.export("e3", "c0", ["f0:0"])
    return w


def rbf():
    """The same bundle under two witnesses (fee bump), witness-based and explicit seals."""
    w = World()
    w.contract("c0", "g0", [("A", "f0:0", 100), ("D", "f0:0", 7)], globals=[("GN", 5)])
    w.tr("t1", "c0", ["g0/A/0", "g0/D/0"],
         [("A", "@:2", 60), ("A", "f1:0", 40), ("D", "f1:1", 9), ("R", "@:2", 0)],
         globals=[("GN", 7), ("G3", 1)])
    w.bundle("b1", "c0", ["t1"], {0: "t1"})
    w.witness("w1", ["f0:0"], ["b1"], salt=1)
    w.witness("w1r", ["f0:0"], ["b1"], salt=2)
    w.tr("t2", "c0", ["t1/A/1"], [("A", "@:4", 40)], globals=[("GN", 3)])
    w.bundle("b2", "c0", ["t2"], {0: "t2"})
    w.witness("w2", ["f1:0"], ["b2"])
    s1 = "T:@:2#t1/A/0"
    w.con("k0", "c0", transfer=False)
    w.con("k1", "c0", [("w1", ["b1"])], levels={"t1/A/0": "S", "t1/D/0": "S"}, terminals={"b1": s1})
    w.con("k1r", "c0", [("w1r", ["b1"])], levels={"t1/A/0": "S"}, terminals={"b1": s1})
    w.con("k2", "c0", [("w1", ["b1"], False), ("w2", ["b2"])])
    w.con("kdbl", "c0", [("w1", ["b1"]), ("w1r", ["b1"])])
    w.fascia("f1", "w1", ["b1"])
    w.fascia("f1r", "w1r", ["b1"], levels={"t1/R/0": "S"})
    w.chain("n1", w1="T", w1r="T", w2="T")
    w.chain("n2", w1="M1", w1r="A", w2="M3")
    w.chain("n3", w1="A", w1r="M2", w2="M2")
    w.chain("n4", w1="N", w1r="M2", w2="E")
    w.inits("n1").secrets(s1).afters(0).faults(("k1r", "w1r"))
    w.export("e1", "c0", ["f1:0"], s1, receiver=[s1])
    w.export("e2", "c0", ["w2:4"])
    return w


def multi():
    """Two contracts committed by the same witnesses with both closing methods, shared seals."""
    w = World()
    w.contract("c0", "g0", [("A", "f0:0", 100), ("A", "f0:0", 5, "O")], globals=[("GN", 5)])
    w.contract("c1", "g1", [("A", "f0:0", 30), ("R", "f0:1", 0), ("F", "f0:1", 2)],
               globals=[("G1", 1)], schema=1)
    # both contracts assign to the same seal of the receiver
    w.tr("t1", "c0", ["g0/A/0"], [("A", "f1:5", 60, "T", 77), ("A", "@:3", 40)])
    w.bundle("b1", "c0", ["t1"], {0: "t1"})
    w.tr("t1o", "c0", ["g0/A/1"], [("A", "@:3", 5, "O")])
    w.bundle("b1o", "c0", ["t1o"], {0: "t1o"}, m="O")
    w.tr("u1", "c1", ["g1/A/0"], [("A", "f1:5", 30, "T", 77)], globals=[("GN", 8)])
    w.bundle("d1", "c1", ["u1"], {0: "u1"})
    w.witness("w1", ["f0:0"], ["b1", "b1o", "d1"])
    w.tr("t2", "c0", ["t1/A/1"], [("A", "@:4", 40, "O")])
    w.bundle("b2", "c0", ["t2"], {0: "t2"})
    w.tr("u2", "c1", ["g1/R/0", "g1/F/0"], [("R", "@:4", 0), ("F", "@:4", 2)])
    w.bundle("d2", "c1", ["u2"], {1: "u2"})
    w.witness("w2", ["w1:3", "f0:1"], ["b2", "d2"])
    s1, s2 = "T:f1:5#77", "O:@:3#t1o/A/0"
    w.con("k0", "c0", transfer=False)
    w.con("l0", "c1", transfer=False)
    w.con("k1", "c0", [("w1", ["b1"])], levels={"t1/A/0": "S"}, terminals={"b1": s1})
    w.con("k1o", "c0", [("w1", ["b1", "b1o"], False)], levels={"t1/A/0": "S"})
    w.con("k1d", "c0", [("w1", ["b1", "b1o"])], levels={"t1/A/0": "S", "t1o/A/0": "S"},
          terminals={"b1": s1, "b1o": s2})
    w.con("k2", "c0", [("w1", ["b1"]), ("w2", ["b2"])], levels={"t1/A/0": "S"}, terminals={"b1": s1})
    w.con("l1", "c1", [("w1", ["d1"])], levels={"u1/A/0": "S"}, terminals={"d1": s1})
    w.con("l2", "c1", [("w1", ["d1"], False), ("w2", ["d2"])], levels={"u1/A/0": "S"})
    w.fascia("f1", "w1", ["b1", "b1o", "d1"], levels={"t1/A/0": "S", "u1/A/0": "S"})
    w.fascia("f2", "w2", ["d2"])
    w.chain("n1", w1="M1", w2="T")
    w.chain("n2", w1="M1", w2="A")
    w.inits("n1").secrets(s1, s2).afters(0)
    w.export("e1", "c0", ["w1:3"], s1, receiver=[s1])
    w.export("e2", "c0", [], s1, receiver=[s1])
    w.export("e3", "c1", [], s1, receiver=[s1])
    w.export("e4", "c1", ["w2:4"])
    w.export("e5", "c0", ["w2:4", "f0:0"])
    return w


def partial():
    """Bundles of several transitions which are learned in parts."""
    w = World()
    w.contract("c0", "g0", [("A", "f0:0", 100), ("A", "f0:1", 50), ("D", "f0:2", 4)])
    w.tr("t0", "c0", ["g0/D/0"], [("D", "f2:0", 5)])
    w.bundle("b0", "c0", ["t0"], {0: "t0"})
    w.witness("w0", ["f0:2"], ["b0"])
    w.tr("t1", "c0", ["g0/A/0"], [("A", "@:2", 60), ("A", "@:3", 40)])
    w.tr("t2", "c0", ["g0/A/1", "t0/D/0"], [("A", "@:2", 50), ("D", "@:5", 6)], globals=[("GN", 2)])
    w.bundle("b1", "c0", ["t1", "t2"], {0: "t1", 1: "t2"})
    w.witness("w1", ["f0:0", "f0:1", "f2:0"], ["b1"])
    w.tr("t3", "c0", ["t1/A/0"], [("A", "@:4", 60)])
    w.bundle("b2", "c0", ["t3"], {0: "t3"})
    w.witness("w2", ["w1:2"], ["b2"])
    s1 = "T:@:2#t1/A/0"
    w.con("k0", "c0", transfer=False)
    w.con("kw0", "c0", [("w0", ["b0"])])
    w.con("k1", "c0", [("w0", ["b0"]), ("w1", ["b1"])], levels={"t1/A/0": "S", "t2/D/0": "S"},
          terminals={"b1": s1})
    w.con("k1b", "c0", [("w0", ["b0"]), ("w1", ["b1"])], levels={"t2/A/0": "S"})
    w.con("k1c", "c0", [("w0", ["b0"]), ("w1", ["b1"])], levels={"t2/D/0": "C"})
    w.con("k2", "c0", [("w0", ["b0"]), ("w1", ["b1"]), ("w2", ["b2"])])
    w.con("kp", "c0", [("w1", [("b1", ["t1"])])])
    w.fascia("f1a", "w1", [("b1", ["t1"])], levels={"t1/A/0": "S"})
    w.fascia("f1b", "w1", [("b1", ["t2"])])
    w.fascia("f0", "w0", ["b0"])
    w.chain("n1", w0="M1", w1="T", w2="T")
    w.chain("n2", w0="M1", w1="A", w2="A")
    w.inits("n1").secrets(s1).afters(0)
    w.export("e1", "c0", ["w1:2"])
    w.export("e2", "c0", ["w1:3"], s1, receiver=[s1])
    w.export("e3", "c0", ["w2:4"])
    return w


def globals_():
    """Ordering of the global state by witness status, transition type, nonce and id."""
    w = World()
    w.contract("c0", "g0", [("R", "f0:0", 0), ("R", "f0:1", 0), ("R", "f0:2", 0), ("R", "f0:3", 0),
                            ("R", "f0:4", 0)],
               globals=[("G1", 1), ("G3", 9), ("G3", 8), ("GN", 5)])
    spec = [("t1", 10001, 5, 0), ("t2", 10000, 9, 1), ("t3", 10000, 5, 2), ("t4", 10000, 5, 3),
            ("t5", 10001, None, 4)]
    for i, (t, tt, nonce, vout) in enumerate(spec):
        w.tr(t, "c0", ["g0/R/%d" % vout], [("R", "@:2", 0)],
             globals=[("GN", 20 + i), ("GN", 10 + i), ("G3", 30 + i), ("G1", 40 + i)],
             tt=tt, nonce=nonce)
        w.bundle("b" + t[1:], "c0", [t], {0: t})
        w.witness("w" + t[1:], ["f0:%d" % vout], ["b" + t[1:]])
    w.con("k0", "c0", transfer=False)
    for i in range(1, 6):
        w.con("k%d" % i, "c0", [("w%d" % i, ["b%d" % i])])
    w.con("ka", "c0", [("w%d" % i, ["b%d" % i]) for i in range(1, 6)])
    w.chain("n1", w1="T", w2="T", w3="T", w4="T", w5="T")
    w.chain("n2", w1="M2", w2="M1", w3="M1", w4="M1", w5="M3")
    w.chain("n3", w1="M4", w2="A", w3="M2", w4="T", w5="M1")
    w.chain("n4", w1="A", w2="M5", w3="M4", w4="M3", w5="A")
    w.inits("n1", "n2").afters(0, 3)
    return w


def ext():
    """State extensions."""
    w = World()
    w.contract("c0", "g0", [("A", "f0:0", 100)], valency=True, globals=[("GN", 5)])
    w.op("x1", "c0", "extension", [("A", "f1:0", 11), ("R", "f1:1", 0)], redeems="g0",
         globals=[("GN", 1)])
    w.op("x2", "c0", "extension", [("A", "f1:2", 12)], redeems="g0", globals=[("GN", 2)], nonce=3)
    w.tr("t1", "c0", ["g0/A/0", "x1/A/0"], [("A", "@:2", 111)], globals=[("GN", 3)])
    w.bundle("b1", "c0", ["t1"], {0: "t1", 1: "t1"})
    w.witness("w1", ["f0:0", "f1:0"], ["b1"])
    w.tr("t2", "c0", ["x2/A/0"], [("A", "@:2", 12)], globals=[("GN", 4)])
    w.bundle("b2", "c0", ["t2"], {0: "t2"})
    w.witness("w2", ["f1:2"], ["b2"])
    w.con("k0", "c0", transfer=False)
    w.con("k1", "c0", [("w1", ["b1"])], exts=["x1"])
    w.con("k1c", "c0", [("w1", ["b1"])], exts=["x1"], levels={"x1/R/0": "S"})
    w.con("k1n", "c0", [("w1", ["b1"])])
    w.con("k2", "c0", [("w1", ["b1"]), ("w2", ["b2"])], exts=["x1", "x2"])
    w.con("k2x", "c0", [("w2", ["b2"])], exts=["x1", "x2"])
    w.chain("n1", w1="M2", w2="M1")
    w.chain("n2", w1="T", w2="A")
    w.inits("n1").afters(0)
    w.export("e1", "c0", ["w1:2"])
    w.export("e2", "c0", ["f0:0"])
    return w


def levels():
    """Reveal levels of all kinds of state in all the containers."""
    w = World()
    w.contract("c0", "g0", [("A", "f0:0", 100), ("D", "f0:0", 4), ("R", "f0:0", 0)])
    w.tr("t1", "c0", ["g0/A/0", "g0/D/0", "g0/R/0"],
         [("A", "@:2", 100), ("D", "@:2", 4), ("R", "@:3", 0), ("D", "f1:1", 6)])
    w.bundle("b1", "c0", ["t1"], {0: "t1"})
    w.witness("w1", ["f0:0"], ["b1"])
    w.tr("t2", "c0", ["t1/A/0"], [("X", "@:1", 3), ("X", "f1:1", 4), ("F", "@:1", 1)])
    w.bundle("b2", "c0", ["t2"], {0: "t2"})
    w.witness("w2", ["w1:2"], ["b2"])
    sD, sR, sX = "T:@:2#t1/D/0", "T:@:3#t1/R/0", "T:@:1#t2/X/0"
    w.con("k0", "c0", transfer=False, levels={"g0/D/0": "S", "g0/R/0": "C"})
    lv = {
        "kC": {"t1/D/0": "S", "t1/R/0": "S", "t1/D/1": "S", "g0/R/0": "V"},
        "kS": {"t1/D/0": "S", "t1/R/0": "C", "t1/A/0": "S"},
        "kV": {"t1/R/0": "V", "t1/D/1": "S"},
        "kR": {},
    }
    for n, l in lv.items():
        w.con(n, "c0", [("w1", ["b1"])], levels=l, terminals={"b1": sD})
    w.con("kD", "c0", [("w1", ["b1"])], levels={"t1/D/0": "V"})
    w.con("kX", "c0", [("w1", ["b1"])], levels=lv["kC"], terminals={"b1": sR})
    w.con("kA", "c0", [("w1", ["b1"]), ("w2", ["b2"])])
    w.fascia("f1", "w1", ["b1"], levels={"t1/D/0": "V", "t1/D/1": "C", "t1/A/0": "V"})
    w.fascia("f1b", "w1", ["b1"], levels={"t1/D/0": "C", "t1/D/1": "V", "t1/A/0": "C", "t1/R/0": "C"})
    w.fascia("f2", "w2", ["b2"], levels={"t2/X/1": "V", "t2/F/0": "C"})
    w.fascia("f2b", "w2", ["b2"], levels={"t2/X/0": "S", "t2/X/1": "C", "t2/F/0": "V"})
    w.chain("n1", w1="M2", w2="T")
    w.inits("n1").secrets(sD, sR)
    w.export("e1", "c0", ["w1:2"], receiver=[sD])
    w.export("e2", "c0", ["w1:3"], sR, receiver=[sR])
    w.export("e3", "c0", [], sD, receiver=[sD])
    w.export("e4", "c0", ["w2:1"], sX)
    return w


def fan():
    """Bundles with several ancestors each, one seal of the receiver in several bundles."""
    w = World()
    w.contract("c0", "g0", [("A", "f0:0", 100), ("R", "f0:1", 0), ("D", "f0:0", 4), ("D", "f0:2", 5)])
    w.contract("c1", "g1", [("A", "f1:0", 30), ("R", "f1:1", 0)])
    w.tr("ta", "c0", ["g0/A/0"], [("A", "f1:0", 60), ("A", "f2:5", 40, "T", 77)])
    w.bundle("ba", "c0", ["ta"], {0: "ta"})
    w.witness("wa", ["f0:0"], ["ba"])
    w.tr("tb", "c0", ["g0/R/0"], [("R", "f1:1", 0)])
    w.bundle("bb", "c0", ["tb"], {0: "tb"})
    w.witness("wb", ["f0:1"], ["bb"])
    w.tr("m1", "c0", ["ta/A/0"], [("A", "@:2", 60)])
    w.tr("m2", "c0", ["tb/R/0"], [("R", "@:3", 0)])
    w.bundle("b2", "c0", ["m1", "m2"], {0: "m1", 1: "m2"})
    w.tr("d1", "c1", ["g1/A/0"], [("A", "@:2", 30)])
    w.tr("d2", "c1", ["g1/R/0"], [("R", "@:3", 0)])
    w.bundle("e2", "c1", ["d1", "d2"], {0: "d1", 1: "d2"})
    w.witness("w2", ["f1:0", "f1:1"], ["b2", "e2"])
    w.tr("z", "c0", ["m1/A/0"], [("A", "@:4", 10), ("A", "f2:5", 50, "T", 77)])
    w.bundle("b3", "c0", ["z"], {0: "z"})
    w.witness("w3", ["w2:2"], ["b3"])
    s1 = "T:f2:5#77"
    w.con("k0", "c0", transfer=False)
    w.con("ka", "c0", [("wa", ["ba"])], levels={"ta/A/1": "S"}, terminals={"ba": s1})
    w.con("kz", "c0", [("wa", ["ba"]), ("wb", ["bb"]), ("w2", ["b2"]), ("w3", ["b3"])],
          levels={"ta/A/1": "S", "z/A/1": "S"}, terminals={"b3": s1})
    w.con("kw", "c0", [("wa", ["ba"]), ("w2", ["b2"]), ("w3", ["b3"])], levels={"ta/A/1": "S"})
    w.fascia("fb", "wb", ["bb"])
    w.con("k1", "c1", transfer=False)
    w.fascia("f2", "w2", ["b2"])
    w.fascia("f22", "w2", ["b2", "e2"])
    w.fascia("fs", "w2", ["b2", ("e2", ["d1", "z"])])
    w.fascia("f3", "w3", ["b3"], levels={"z/A/1": "S"})
    w.chain("n1", wa="M1", wb="T", w2="T", w3="T")
    w.chain("n2", wa="M1", wb="A", w2="T", w3="A")
    w.inits("n1").secrets(s1).afters(0)
    w.export("e1", "c0", ["w3:4"])
    w.export("e2", "c0", [], s1, receiver=[s1])
    w.export("e3", "c0", ["w2:3"], s1)
    w.export("e4", "c0", ["f0:2"])
    return w


def attached():
    """Attachments under witnesses which get archived, a transition put into two bundles."""
    w = World()
    w.contract("c0", "g0", [("A", "f0:0", 100), ("R", "f0:1", 0), ("D", "f0:2", 5), ("D", "f0:1", 6)])
    w.tr("t1", "c0", ["g0/A/0"], [("X", "@:1", 3), ("X", "f1:1", 4), ("D", "f1:1", 6), ("R", "f1:1", 0), ("A", "f1:1", 9)])
    w.bundle("b1", "c0", ["t1"], {0: "t1"})
    w.witness("w1", ["f0:0"], ["b1"], salt=1)
    w.witness("w1r", ["f0:0"], ["b1"], salt=2)
    w.tr("n", "c0", ["g0/R/0"], [("R", "@:1", 0), ("X", "f1:1", 5)])
    w.tr("q", "c0", ["g0/D/0"], [("D", "@:1", 7)])
    w.bundle("p1", "c0", ["n"], {0: "n"})
    w.bundle("p2", "c0", ["n", "q"], {0: "n", 1: "q"})
    w.witness("wp", ["f0:1"], ["p1"])
    w.witness("wq", ["f0:1", "f0:2"], ["p2"])
    w.con("k0", "c0", transfer=False)
    w.fascia("f1", "w1", ["b1"])
    w.fascia("f1r", "w1r", ["b1"])
    w.fascia("fp", "wp", ["p1"])
    w.fascia("fq", "wq", ["p2"])
    w.fascia("fx", "wp", [("p1", ["n", "q"])])
    w.chain("n1", w1="T", w1r="M1", wp="T", wq="T")
    w.chain("n2", w1="A", w1r="A", wp="A", wq="M2")
    w.chain("n3", w1="A", w1r="T", wp="M1", wq="A")
    w.inits("n1").afters(0)
    w.export("e1", "c0", ["f1:1"])
    w.export("e2", "c0", ["wp:1"])
    return w


def merging():
    """Operations, bundles and anchors whose partially revealed copies are merged."""
    w = World()
    w.contract("c0", "g0", [("A", "f0:0", 100), ("D", "f0:0", 4), ("R", "f0:1", 0)], valency=True)
    w.contract("c1", "g1", [("A", "f0:0", 100), ("F", "f0:0", 4)], schema=1)
    w.contract("c2", "g2", [("A", "f0:0", 100), ("A", "f0:1", 1, "O")])
    w.op("x1", "c0", "extension", [("A", "f1:0", 11), ("X", "f1:1", 5)], redeems="g0")
    w.op("x2", "c0", "extension", [("A", "f1:2", 12)], redeems="g0")
    w.tr("t1", "c0", ["g0/A/0", "g0/D/0"], [("A", "@:2", 60), ("A", "f1:2", 40), ("D", "f1:2", 8)])
    w.tr("t2", "c0", ["g0/R/0"], [("A", "@:2", 1), ("R", "@:2", 0), ("X", "@:3", 4)])
    w.bundle("b1", "c0", ["t1", "t2"], {0: "t1", 1: "t2"})
    w.tr("u1", "c1", ["g1/A/0"], [("A", "@:2", 100)])
    w.bundle("d1", "c1", ["u1"], {0: "u1"})
    w.tr("v1", "c2", ["g2/A/0"], [("A", "@:2", 100)])
    w.bundle("h1", "c2", ["v1"], {0: "v1"})
    w.tr("v2", "c2", ["g2/A/1"], [("A", "@:2", 1)])
    w.bundle("h1o", "c2", ["v2"], {1: "v2"}, m="O")
    w.witness("w1", ["f0:0", "f0:1"], ["b1", "d1", "h1", "h1o"])
    w.tr("t3", "c0", ["t1/A/0"], [("A", "@:2", 60)])
    w.bundle("b2", "c0", ["t3"], {0: "t3"})
    w.tr("v3", "c2", ["v2/A/0"], [("A", "@:2", 1, "O")])
    w.bundle("h2o", "c2", ["v3"], {0: "v3"}, m="O")
    w.witness("w2", ["w1:2"], ["b2", "h2o"])
    w.chain("n0")
    w.inits("n0")
    return w


def rand_world(seed):
    """A random operation graph with an alphabet of calls over it."""
    r = random.Random("world-%d" % seed)
    w = World(funding=("f0", "f1", "f2", "f3"))
    free = ["f%d:%d" % (i, j) for i in range(4) for j in range(4)]
    r.shuffle(free)
    state = {}            # outpoint -> list of (contract, method, opout)
    opouts = {}           # opout -> (ty, place, method)
    anc = {}              # bundle -> set of ancestor bundles, including itself
    op_bundle, op_exts = {}, {}
    methods = r.choice([("T",), ("O",), ("T", "O"), ("T", "T", "O")])
    vals = iter(range(1, 1000))

    def outs(op, places, n, wit):
        res, cnt = [], {}
        for _ in range(n):
            ty, place = r.choice("AAFDR"), r.choice(places)
            m = r.choice(methods)
            x = (ty, place, 0 if ty == "R" else next(vals), m)
            res.append(x)
        # numbering is done per type
        for x in res:
            no = cnt.get(x[0], 0)
            cnt[x[0]] = no + 1
            o = "%s/%s/%d" % (op, x[0], no)
            place = x[1].replace("@", wit) if wit else x[1]
            opouts[o] = x
            w_state.append((place, (op_contract[op], x[3], o)))
        return res

    def globs():
        return [(r.choice(["G1", "G3", "GN", "GN"]), next(vals)) for _ in range(r.choice([0, 0, 1, 1, 2]))]

    def uniq_globs(maxg1=True):
        res, seen = [], set()
        for g in globs():
            if g[0] == "G1":
                if "G1" in seen:
                    continue
                seen.add("G1")
            res.append(g)
        return res

    op_contract, w_state = {}, []
    contracts = ["c0", "c1"][: r.choice([1, 1, 2])]
    for i, c in enumerate(contracts):
        g = "g%d" % i
        op_contract[g] = c
        places = r.sample(free, 3)
        w.contract(c, g, outs(g, places, r.randint(2, 4), None), globals=uniq_globs(), schema=i)
    for p, x in w_state:
        state.setdefault(p, []).append(x)
    nops, nb = 0, 0
    wits = []
    for n in range(1, r.randint(3, 5)):
        wn = "w%d" % n
        cand = sorted(state)
        if not cand:
            break
        inputs = r.sample(cand, min(len(cand), r.choice([1, 1, 2, 2, 3])))
        groups = {}
        for vin, p in enumerate(inputs):
            for c, m, o in state[p]:
                groups.setdefault((c, m), {}).setdefault(vin, []).append(o)
        del w_state[:]
        bundles = []
        for (c, m), vins in sorted(groups.items()):
            if r.random() < 0.1 and len(groups) > 1:
                continue        # the state is lost
            nb += 1
            b = "b%d" % nb
            ops, mp, byop = [], {}, {}
            split = len(vins) > 1 and r.random() < 0.5
            for k, (vin, os) in enumerate(sorted(vins.items())):
                key = k if split else 0
                byop.setdefault(key, []).append((vin, os))
            anc[b] = {b}
            for key, lst in sorted(byop.items()):
                nops += 1
                t = "t%d" % nops
                op_contract[t] = c
                ins = [o for _, os in lst for o in os]
                places = ["@:%d" % v for v in r.sample(range(1, 6), 2)] + [r.choice(free)]
                w.tr(t, c, ins, outs(t, places, r.randint(1, 3), wn), globals=uniq_globs(),
                     tt=r.choice([10000, 10000, 10001]),
                     nonce=r.choice([None, None, 1, 2]))
                ops.append(t)
                for vin, _ in lst:
                    mp[vin] = t
                op_bundle[t] = b
                for o in ins:
                    src = o.split("/")[0]
                    if src in op_bundle:
                        anc[b] |= anc[op_bundle[src]]
            w.bundle(b, c, ops, mp, m=m)
            bundles.append(b)
        for p in inputs:
            del state[p]
        for p, x in w_state:
            state.setdefault(p, []).append(x)
        if not bundles:
            continue
        w.witness(wn, inputs, bundles, salt=1)
        wits.append(wn)
    bwit = {}
    for wn in wits:
        for b in w.d["witnesses"][wn]["bundles"]:
            bwit.setdefault(b, []).append(wn)
    # fee bumps: only for witnesses whose own outputs are not spent
    for wn in list(wits):
        ww = w.d["witnesses"][wn]
        spent = any(i.startswith(wn + ":") for x in w.d["witnesses"].values() for i in x["inputs"])
        if not spent and r.random() < 0.4:
            w.witness(wn + "r", ww["inputs"], ww["bundles"], salt=2)
            wits.append(wn + "r")
            for b in ww["bundles"]:
                bwit[b].append(wn + "r")
    spent_outs = {i for o in w.d["ops"].values() for i in o["inputs"]}
    sids = {}
    for o, (ty, place, val, m) in opouts.items():
        if not o.startswith("g"):
            sids[o] = "%s:%s#%s" % (m, place, o)
    unspent = [o for o in opouts if o not in spent_outs]

    def levels(p=0.3, pool="SSSS"):
        res = {}
        for o in opouts:
            if o in unspent and r.random() < p:
                res[o] = r.choice("SSVC") if opouts[o][0] == "R" else r.choice(pool)
        return res

    def cons(c, bs):
        by = {}
        for b in sorted(bs):
            by.setdefault(r.choice(bwit[b]), []).append(b)
        return [(wn, sorted(l), r.random() < 0.7) for wn, l in sorted(by.items())]

    def pick_term(bs):
        c = [(op_bundle[o.split("/")[0]], s) for o, s in sids.items()
             if op_bundle[o.split("/")[0]] in bs and o in unspent]
        return dict([r.choice(c)]) if c and r.random() < 0.7 else {}

    acts = []
    for c in contracts:
        w.con("k" + c, c, transfer=False)
    allb = sorted(anc)
    for i, b in enumerate(r.sample(allb, min(len(allb), 4))):
        c = w.d["bundles"][b]["contract"]
        bs = set(anc[b])
        if r.random() < 0.4:
            extra = [x for x in allb if w.d["bundles"][x]["contract"] == c]
            bs |= anc[r.choice(extra)]
        w.con("k%d" % i, c, cons(c, bs), levels=levels(), terminals=pick_term(bs))
        if r.random() < 0.3 and len(bs) > 1:
            w.con("kx%d" % i, c, cons(c, bs - {r.choice(sorted(bs))}))
        elif r.random() < 0.3:
            lv = {r.choice(sorted(opouts)): r.choice("SVC")}
            w.con("kl%d" % i, c, cons(c, bs), levels=lv)
    for i, wn in enumerate(r.sample(wits, min(len(wits), 3))):
        bs = []
        for b in w.d["witnesses"][wn]["bundles"]:
            ops = w.d["bundles"][b]["ops"]
            if r.random() < 0.3 and len(ops) > 1:
                bs.append((b, [r.choice(ops)]))
            elif r.random() < 0.9:
                bs.append(b)
        if bs:
            w.fascia("f%d" % i, wn, bs, levels=levels(0.4, "SSVC"))
    full = {wn: r.choice(["T", "M1", "M2"]) for wn in wits}
    w.chain("n1", **full)
    for n in ("n2", "n3"):
        w.chain(n, **{wn: r.choice(["T", "A", "M1", "M2", "M3", "N", "E", full[wn], full[wn]]) for wn in wits})
    w.inits("n1").afters(*r.choice([(0,), (0, 2), (3,)]))
    s = r.sample(sorted(sids), min(len(sids), 2))
    w.secrets(*sorted({sids[o] for o in s}))
    if r.random() < 0.5:
        ks = [(k, wb["w"]) for k, v in w.d["cons"].items() for wb in v["wbs"]]
        if ks:
            w.faults(r.choice(ks))
    places = sorted({x for x in
                     [opouts[o][1].replace("@", wn) for o in opouts for wn in wits
                      if o.startswith("g") or op_bundle[o.split("/")[0]] in w.d["witnesses"][wn]["bundles"]]})
    for i in range(3):
        c = r.choice(contracts)
        sid = r.choice(["", r.choice(sorted(sids.values()))]) if sids else ""
        n = r.choice([0, 1, 1, 2]) if sid else r.choice([1, 1, 2])
        w.export("e%d" % i, c, r.sample(places, min(n, len(places))), sid,
                 receiver=[sid] if sid and r.random() < 0.7 else [])
    return w


# name -> (constructor, quick depth, thorough depth)
WORLDS = dict(
    basic=(basic, 4, 7),
    rbf=(rbf, 3, 6),
    multi=(multi, 3, 5),
    partial=(partial, 3, 6),
    globals=(globals_, 4, 6),
    ext=(ext, 4, 7),
    levels=(levels, 4, 8),
    fan=(fan, 4, 6),
    attached=(attached, 5, 7),
)


if __name__ == "__main__":
    import sys
    n = sys.argv[1]
    w = rand_world(int(n[4:])) if n.startswith("rand") else WORLDS[n][0]()
    print(json.dumps(w.d, indent=1))
