"""Logical tableaus and transversal operations (C16): contracts on the live functions for qubit codes of every size."""
from __future__ import annotations

import builtins
import collections
import inspect
import itertools

import numpy as np
import stim

from vf import env, lemma  # noqa: F401
from vf.sym import loops, mat, scalar, shim
from vf.sym.mat import CTX, Dim, PathEnd, Sel, Unsupported
from vf.sym.prove import prove

from .blocks import one
from .encoders import P, Token, extra_name, plain_code

from qldpc import abstract, circuits, codes
from qldpc.objects import Pauli

MODS = [circuits]
F2 = (shim.SymField2,)
TRUSTED = [
    "stim: Tableau.then, inverse, to_numpy, from_numpy, the call of a tableau, sums of circuits, gate tableaus",
    "GAP: the automorphism group of a classical code; sympy: subgroup search",
]
PARTS = ("x2x", "x2z", "z2x", "z2z")


# ---- logical tableau of a circuit


class Signs:
    """The signs of the images of some single-qubit operators."""

    def __init__(self, name, part=("all",)):
        self.name, self.part = name, part

    def __getitem__(self, idx):
        if isinstance(idx, slice) and idx.step in (None, 1) and idx.start in (None, 0) and isinstance(idx.stop, Dim) and self.part == ("all",):
            return Signs(self.name, ("first", idx.stop))
        raise Unsupported("signs")

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of signs")


class Decoded(Token):
    """The tableau of a physical circuit between an encoder and a decoder; k logical, g gauge and s stabilizer qubits."""

    def __init__(self, what, F, preserving=True):
        super().__init__(*what)
        segs = ["k", "g", "s"]
        self.parts = {p: mat.matrix(F, segs, segs, {(i, j): f"{p}{i}{j}" for i in range(3) for j in range(3)}) for p in PARTS}
        self.asked = 0
        if preserving:
            for p in PARTS:
                a = self.parts[p]
                zero = []
                if p in ("z2x",):
                    zero += [(0, 2), (1, 2), (2, 2)]  # no destabilizers
                if p in ("x2x",):
                    zero += [(0, 2), (1, 2)]
                zero += [(1, 0)]  # gauge operators pick up no logical operators
                if p in ("z2x", "z2z"):
                    zero += [(2, 0)]  # stabilizers become stabilizers
                if p == "z2x":
                    zero += [(2, 1)]
                for i, j in zero:
                    shim.assume_zero(a[Sel(i), :][:, Sel(j)])

    def to_numpy(self, **k):
        if k:
            raise Unsupported("arguments")
        return (*[a.copy() for a in self.parts.values()], Signs("x"), Signs("z"))


class Operation:
    """A circuit, as the list of its parts in time order."""

    def __init__(self, *parts, n=None):
        self.parts = list(parts)

    def __add__(self, o):
        if isinstance(o, Operation):
            return Operation(*self.parts, *o.parts)
        raise Unsupported("sum of circuits")

    def __iadd__(self, o):
        self.parts = (self + o).parts
        return self

    def append(self, *a, **k):
        if k:
            raise Unsupported("arguments")
        self.parts.append(a)

    def to_tableau(self, **k):
        if k:
            raise Unsupported("arguments")
        return Physical(self)

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a circuit")


class Physical(Token):
    def __init__(self, circuit):
        super().__init__("tableau", circuit)


class Coder(Token):
    """An encoder or decoder of a code with n qubits."""

    def __len__(self):
        raise Unsupported("length outside the shim")


def length(x):
    if isinstance(x, (Coder, codes.QuditCode)):
        return Dim.of("n")
    return shim.sym_len(x)


def is_identity(part):
    return isinstance(part, tuple) and part[0] in ("idle", "I")


def padded(circuit):
    """Does the circuit address the last qubit?"""
    last = Dim.of("n") - 1
    for part in circuit.parts:
        if is_identity(part):
            x = part[1][0] if isinstance(part[1], list) and len(part[1]) == 1 else part[1]
            if isinstance(x, Dim) and x.same(last) or isinstance(x, str) and x in (str(last), str(mat.canon(last))):
                return True
            raise Unsupported(f"identity on {x}")
    return False


def idle(text=""):
    """stim.Circuit(...): only empty circuits and identities are made from text."""
    if text == "":
        return Operation()
    if isinstance(text, str) and text.split()[0] == "I" and len(text.split()) == 2:
        return Operation(("idle", text.split()[1]))
    raise Unsupported("text of a circuit")


def unlinked(t):
    """The parts of a composition of tableaus, in time order."""
    if isinstance(t, Token) and t.what[0] == "then":
        return unlinked(t.what[1]) + unlinked(t.what[2])
    return [t]


def logical(h):
    def body(ctx, c, F):
        for k in ("k", "g", "s"):
            pass
        ctx.sizes["n"] = Dim.of("k") + Dim.of("g") + Dim.of("s")
        enc, dec, phys = Coder("encoder"), Coder("decoder"), Operation("the circuit")
        made = []
        seen = {}

        def then(self, o):
            t = Token("then", self, o)
            chain = unlinked(t)
            if len(chain) == 3:
                c.true(chain[0] is enc and chain[2] is dec and isinstance(chain[1], Physical)
                       and [p for p in chain[1].what[1].parts if not is_identity(p)] == ["the circuit"],
                       "the circuit acts between the encoder and the decoder")
                c.true(padded(chain[1].what[1]), "the circuit is extended to all qubits of the code")
                d = Decoded(("decoded",), F)
                seen["decoded"] = d
                return d
            return t

        def from_numpy(**k):
            made.append(k)
            return made

        class Tableaus:
            def __getattr__(self, name):
                raise Unsupported(f"stim.Tableau.{name}")

        tabs = Tableaus()
        tabs.from_numpy = from_numpy
        old = Token.then
        Token.then = then
        try:
            with shim.patched(circuits, len=length, stim=shim.Shim(stim, Tableau=tabs, Circuit=idle),
                              np=shim.Shim(shim.np_shim())):
                got = circuits._get_logical_tableau_from_code_data(Dim.of("k"), Dim.of("g"), enc, dec, phys)
        except AssertionError:
            c.true(False, "a circuit that preserves the code is rejected")
        finally:
            Token.then = old
        c.true(got is made and len(made) == 1 and phys.parts == ["the circuit"], "the result is made from the parts of the decoded tableau")
        k = made[0]
        if not set(k) == set(PARTS) | {"x_signs", "z_signs"}:
            raise Unsupported("arguments of from_numpy")
        d = seen["decoded"]
        for p in PARTS:
            c.equal(k[p], d.parts[p][Sel(0), :][:, Sel(0)].view(np.ndarray), f"{p} of the logical qubits")
        for s in "xz":
            g = k[f"{s}_signs"]
            c.true(isinstance(g, Signs) and g.name == s and g.part[0] == "first" and g.part[1].same("k"), f"signs of the images of logical {s}")

    prove(h, "the logical tableau is the logical block of encoder, circuit, decoder", P + "_get_logical_tableau_from_code_data", body, MODS, fields=F2)

    def outer(ctx, c, F):
        code = plain_code(2)
        type(code).dimension = property(lambda self: "k")
        type(code).gauge_dimension = property(lambda self: "g")
        asked, data = [], []

        def pair(x, d=None, **k):
            asked.append((x, k.get("deformation", d)))
            return "encoder", "decoder"

        def from_data(*a, **k):
            data.append((a, k))
            return data

        phys = Operation("the circuit")
        deform = ctx.decide("deform_code")
        with shim.patched(circuits, get_encoder_and_decoder=pair, _get_logical_tableau_from_code_data=from_data):
            got = circuits.get_logical_tableau(code, phys, deform_code=deform)
        c.true(got is data and len(data) == 1 and not data[0][1], "one tableau")
        a = data[0][0]
        c.true(a[:4] == ("k", "g", "encoder", "decoder") and a[4] is phys, "made from the data of the code")
        c.true(len(asked) == 1 and asked[0][0] is code and (asked[0][1] is phys if deform else asked[0][1] is None), "with the decoder of the (deformed) code")

    prove(h, "get_logical_tableau uses the encoder of the code and the decoder of the (deformed) code", P + "get_logical_tableau", outer, MODS, plain=True, min_paths=2)


# ---- circuits of automorphisms


class Words:
    """A string of Pauli letters, of symbolic length: runs of (letter, number)."""

    def __init__(self, runs):
        self.runs = list(runs)

    @staticmethod
    def of(x):
        return x if isinstance(x, Words) else Words([(ch, scalar.SInt(scalar.term(1))) for ch in x])

    def __add__(self, o):
        if not isinstance(o, (Words, str)):
            raise Unsupported("concatenation")
        return Words(self.runs + Words.of(o).runs)

    def __radd__(self, o):
        if not isinstance(o, str):
            raise Unsupported("concatenation")
        return Words(Words.of(o).runs + self.runs)

    def length(self):
        n = scalar.SInt(scalar.term(0))
        for _, k in self.runs:
            n = n + k
        return n

    def letter(self, p):
        """The letter at a position inside."""
        at = scalar.SInt(scalar.term(0))
        for ch, k in self.runs[:-1]:
            at = at + k
            if p < at:
                return ch
        return self.runs[-1][0]

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a string")

    __iter__ = __len__ = __getitem__ = None


LENGTHS = {}


class Length(scalar.SInt):
    """A natural number by which strings can be repeated."""

    __slots__ = ()

    def _op(self, o, f, swap=False):
        r = super()._op(o, f, swap)
        return r if r is NotImplemented else Length(r.z)

    def __mul__(self, o):
        if isinstance(o, str):
            if len(o) != 1:
                raise Unsupported("repetition")
            return Words([(o, self)])
        if isinstance(o, list):
            if len(o) != 1:
                raise Unsupported("repetition")
            return Slots(o[0], self)
        return super().__mul__(o)

    __rmul__ = __mul__

    def __str__(self):
        name = f"<length{len(LENGTHS)}>"
        LENGTHS[name] = self
        return name

    def __format__(self, spec):
        if spec:
            raise Unsupported("format")
        return str(self)


IDENTITY = ("_", "I")


class SignFlip:
    """The image of a single-qubit Z operator of a stabilizer: only its sign is looked at."""

    def __init__(self, sign):
        self.sign = sign

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of an image")


class Whole(loops.Loop):
    """A loop that must not be left early: `whole` tells whether it ended by itself."""

    whole = None

    def __init_subclass__(cls):
        def wrap(name, value):
            f = getattr(cls, name)

            def g(self, *a):
                self.whole = value
                return f(self, *a)
            setattr(cls, name, g)
        wrap("enter", False)
        wrap("done", True)


class Corrections(Whole):
    """for aa in range(k, n): the correction gets an X on qubit aa iff the image of Z_aa has the sign -1."""

    mutates = loops.ANY

    def __init__(self, c, state):
        self.c, self.st = c, state

    def enter(self, it, env):
        st, c = self.st, self.c
        if not isinstance(it, Between) or it.step != 1:
            raise Unsupported("iteration")
        c.valid((it.lo == st.k).f, "all stabilizers (and gauge operators) are looked at: first")
        c.valid((it.hi == st.n).f, "all stabilizers (and gauge operators) are looked at: last")
        names = [n for n, v in env.items() if isinstance(v, Words)]
        if len(names) != 1:
            raise Unsupported("the correction")
        self.name = names[0]
        if not self.roots <= {self.name}:
            raise Unsupported("the loop modifies other objects")
        w = env[self.name]
        c.valid((w.length() == st.k).f, "the correction starts with the logical qubits")
        c.true(all(ch in IDENTITY for ch, _ in w.runs), "no correction of logical qubits")

    def havoc(self, env):
        self.aa = Length(f"aa{next(CTX[-1].fresh)}")
        scalar.assume(self.aa >= self.st.k)
        self.before = Words([("before", self.aa)])
        return {self.name: self.before}

    def more(self, env):
        go = super().more(env)
        scalar.assume(self.aa < self.st.n if go else self.aa == self.st.n)
        return go

    def item(self, env):
        self.st.images.clear()
        return self.aa

    def back(self, env):
        c, st = self.c, self.st
        w = env[self.name]
        if not isinstance(w, Words) or w.runs[:1] != self.before.runs:
            raise Unsupported("the correction")
        extra = Words(w.runs[1:])
        if not extra.runs:
            c.true(False, "one letter for each qubit")
        c.valid((extra.length() == 1).f, "one letter for each qubit")
        x = extra.letter(scalar.SInt(scalar.term(0)))
        if len(st.images) != 1:
            raise Unsupported("images of stabilizers")
        word, sign = st.images[0]
        c.valid((word.length() == st.n).f, "an operator on all qubits")
        p = scalar.SInt(f"p{next(CTX[-1].fresh)}")
        scalar.assume(p >= 0)
        scalar.assume(p < st.n)
        ch = word.letter(p)
        here = bool(p == self.aa)
        c.true((ch == "Z") if here else ch in IDENTITY, "the image of Z on one qubit")
        if bool(sign == 1):
            c.true(x in IDENTITY, "no correction if the sign is kept")
        else:
            c.true(x == "X", "a correction that flips the sign back")

    def done(self, env):
        env_word = env[self.name]
        env_word.runs[:] = [("corrections", self.st.n)]
        self.st.correction = env_word


class Between:
    """range(lo, hi)"""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range")


def between(*a):
    if any(isinstance(x, scalar.SInt) for x in a):
        if len(a) == 1:
            a = (0,) + a
        return Between(Length(scalar.term(a[0])), Length(scalar.term(a[1])), *a[2:])
    return builtins.range(*a)


class State:
    pass


class Grown(Operation):
    """A circuit that is built by the code under proof."""

    @property
    def num_qubits(self):
        if self.touched is None:
            self.touched = Length(f"m{next(CTX[-1].fresh)}")
            scalar.assume(self.touched >= 0)
            scalar.assume(self.touched <= self.n)
        return self.touched

    def __init__(self, *parts, n=None):
        super().__init__(*parts)
        self.n, self.touched = n, None

    def __add__(self, o):
        if not isinstance(o, Operation):
            raise Unsupported("sum of circuits")
        return Grown(*self.parts, *o.parts, n=self.n)


def data(h):
    def body(ctx, c, F):
        st = State()
        st.k, st.n = Length("k"), Length("n")
        scalar.assume(st.k >= 0)
        scalar.assume(st.n >= st.k)
        scalar.assume(st.n >= 1)
        st.images, st.correction = [], None
        code = plain_code(2)
        type(code).dimension = property(lambda self: st.k)
        type(code).gauge_dimension = property(lambda self: "g")
        auto, gates = object(), object()
        deform = ctx.decide("deform_code")
        first = Grown(("permutation of Paulis",), n=st.n)
        asked, results = [], []

        def perm(x, a, g):
            c.true(x is code and a is auto and g is gates, "Pauli permutations of the automorphism")
            return first

        def swaps(x, a):
            c.true(x is code and a is auto, "permutation of qubits of the automorphism")
            return Grown(("permutation of qubits",), n=st.n)

        def circuit(text=""):
            if text != "":
                raise Unsupported("text of a circuit")
            return Grown(n=st.n)

        class Enc(Coder):
            def __call__(self, p):
                return Token("encoded", p)

        enc, dec = Enc("encoder"), Coder("decoder")

        class Decode(Token):
            def __call__(self, p):
                if not isinstance(p, Words):
                    raise Unsupported("operator")
                s = scalar.SInt(f"sign{next(CTX[-1].fresh)}")
                scalar.assume((s * s) == 1)
                st.images.append((p, s))
                return SignFlip(s)

        def then(self, o):
            t = Token("then", self, o)
            chain = unlinked(t)
            if len(chain) == 3:
                c.true(chain[0] is enc and chain[2] is dec and isinstance(chain[1], Physical), "the circuit acts between the encoder and the decoder")
                st.physical = chain[1].what[1]
                return Decode("decoded")
            return t

        def pair(x, d=None, **k):
            asked.append((x, k.get("deformation", d)))
            return enc, dec

        def pauli_circuit(t):
            c.true(isinstance(t, Token) and t.what[0] == "encoded" and t.what[1] is st.correction, "the correction is a product of destabilizers: the image of X operators under the encoder")
            return Grown(("correction",), n=st.n)

        def from_data(*a, **k):
            results.append((a, k))
            return "logical tableau"

        def string(x):
            return Words.of(x)

        old, live = Token.then, circuits.__dict__["_get_transversal_automorphism_data"]
        Token.then = then
        circuits._get_transversal_automorphism_data = live.__wrapped__
        loop = Corrections(c, st)
        try:
            with shim.patched(circuits, len=lambda x: st.n if x is code or isinstance(x, Coder) else builtins.len(x), range=between,
                              stim=shim.Shim(stim, PauliString=string, Circuit=circuit), _get_pauli_permutation_circuit=perm, _get_swap_circuit=swaps,
                              get_encoder_and_decoder=pair, _get_pauli_circuit=pauli_circuit, _get_logical_tableau_from_code_data=from_data), \
                    loops.cut(circuits, "_get_transversal_automorphism_data", {0: loop}):
                got = circuits._get_transversal_automorphism_data(code, auto, gates, deform)
        finally:
            Token.then = old
            circuits._get_transversal_automorphism_data = live
        want = [("permutation of Paulis",), ("permutation of qubits",)]
        c.true(st.physical.parts[:2] == want, "first Pauli permutations, then the permutation of qubits")
        rest = st.physical.parts[2:]
        if rest:
            c.true(len(rest) == 1 and rest[0][0] == "I", "nothing else")
            x = rest[0][1][0] if isinstance(rest[0][1], list) else rest[0][1]
            c.valid((x == st.n - 1).f, "the last qubit is addressed")
        else:
            c.valid((first.num_qubits + 0 >= 0).f if st.physical.touched is None else (st.physical.touched == st.n).f, "all qubits are addressed")
            c.true(st.physical.touched is not None, "all qubits are addressed")
        c.true(len(asked) == 1 and asked[0][0] is code and ((asked[0][1] is None) if not deform else isinstance(asked[0][1], Operation) and asked[0][1].parts[:2] == want),
               "with the decoder of the (deformed) code")
        tab, phys = got
        c.true(tab == "logical tableau" and isinstance(phys, Operation) and phys.parts == [("correction",)] + st.physical.parts, "the correction comes before the circuit")
        c.true(len(results) == 1 and not results[0][1] and results[0][0][0] is st.k and results[0][0][1:4] == ("g", enc, dec) and results[0][0][4].parts == phys.parts,
               "the logical tableau is that of the returned circuit")

    prove(h, "circuits of automorphisms: Pauli permutations, swaps, and corrections of exactly the flipped signs", P + "_get_transversal_automorphism_data", body, MODS, plain=True, min_paths=6)


# ---- the pieces of these circuits


class Image:
    """The image of column q + s * n under an automorphism that permutes qubits, and sectors at each qubit."""

    def __init__(self, q, sector):
        self.q, self.sector = q, sector

    def __mod__(self, d):
        if not is_n(d):
            raise Unsupported("modulus")
        return Moved(self.q)

    def __floordiv__(self, d):
        if not is_n(d):
            raise Unsupported("quotient")
        return self.sector

    def __divmod__(self, d):
        return self // d, self % d

    def __lt__(self, d):
        if is_n(d):
            return self.sector < 1
        raise Unsupported("comparison")

    def __ge__(self, d):
        return not self < d

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of an image")


class Moved:
    """The qubit that an arbitrary qubit is moved to."""

    def __init__(self, q):
        self.q = q


class Spot:
    """An arbitrary qubit q, or the column q + s * n."""

    def __init__(self, sector=0, root=None):
        self.sector, self.root = sector, root or self

    def __add__(self, d):
        d = Dim.of(d)
        for s in range(-3, 4):
            if d.same(Dim.of("n") * s):
                return Spot(self.sector + s, self.root)
        raise Unsupported("column")

    __radd__ = __add__

    def __index__(self):
        raise Unsupported("number of an arbitrary qubit")


def is_n(d):
    return isinstance(d, Dim) and d.same("n")


class SwapLocations:
    def __init__(self, value):
        self.value = value


class AllQubits:
    """range(n)"""

    def __init__(self, n):
        self.n = n

    def __iter__(self):
        raise Unsupported("iteration over all qubits")

    def comprehension(self, cond, elt):
        q = Spot()
        if not cond(q):
            raise Unsupported("selection of qubits")
        return SwapLocations((q, elt(q)))


def qubits(*a):
    if len(a) == 2 and a[0] == 0:
        a = a[1:]
    if len(a) == 1 and is_n(a[0]):
        return AllQubits(a[0])
    if any(isinstance(x, Dim) for x in a):
        raise Unsupported("range")
    return builtins.range(*a)


class Cycles:
    pass


class Cycle:
    """An arbitrary cycle of a permutation."""

    def __getitem__(self, i):
        if i == 0:
            return "first"
        if isinstance(i, slice) and (i.start, i.stop, i.step) == (1, None, None):
            return Rest(self)
        raise Unsupported("part of a cycle")


class Rest:
    def __init__(self, cycle):
        self.cycle = cycle


class EachCycle(Whole):
    mutates = ("circuit",)

    def __init__(self, others):
        self.others = others

    def back(self, env):
        self.others.c.true(self.others.whole is True, "all elements of the cycle are permuted")

    def enter(self, it, env):
        if not isinstance(it, Cycles):
            raise Unsupported("iteration")

    def item(self, env):
        return Cycle()


class EachOther(Whole):
    """SWAP(first, c_1), SWAP(first, c_2), ...: content of c_i moves to c_(i+1) (lemma cycle_of_swaps)."""

    mutates = loops.ANY

    def __init__(self, c, circuit):
        self.c, self.circuit = c, circuit

    def enter(self, it, env):
        if not isinstance(it, Rest):
            raise Unsupported("iteration")

    def item(self, env):
        del self.circuit.parts[:]
        return "next"

    def back(self, env):
        parts = self.circuit.parts
        self.c.true(len(parts) != 1 or parts[0][0] == "SWAP", "qubits are swapped")
        if len(parts) != 1 or not isinstance(parts[0][1], (list, tuple)):
            raise Unsupported("another way to permute qubits")
        if sorted(map(str, parts[0][1])) != ["first", "next"]:
            raise Unsupported("another way to permute qubits")
        self.c.true(True, "each element of the cycle is swapped with the first one")
        del parts[:]

    def done(self, env):
        self.circuit.parts[:] = []


def pieces(h):
    def swap(ctx, c, F):
        code = plain_code(2)
        circuit = Operation()
        members = []

        def auto(x):
            if not isinstance(x, Spot):
                raise Unsupported("argument of an automorphism")
            return Image(x.root, x.sector)

        class Member:
            def __init__(self, locs):
                if not isinstance(locs, SwapLocations):
                    raise Unsupported("permutation")
                q, v = locs.value
                c.true(isinstance(v, Moved) and v.q is q, "each qubit moves to the qubit of its image")
                members.append(self)

            cyclic_form = Cycles()

        others = EachOther(c, circuit)
        each = EachCycle(others)
        with shim.patched(circuits, len=lambda x: Dim.of("n") if x is code else builtins.len(x), range=qubits, stim=shim.Shim(stim, Circuit=lambda: circuit),
                          abstract=shim.Shim(abstract, GroupMember=Member)), \
                loops.cut(circuits, "_get_swap_circuit", {0: each, 1: others}):
            got = circuits._get_swap_circuit(code, auto)
        c.true(got is circuit and len(members) == 1 and each.whole is True and others.whole in (None, True), "the circuit of these swaps")

    prove(h, "qubits are permuted by swaps along the cycles of the automorphism", P + "_get_swap_circuit", swap, MODS, plain=True, min_paths=3)

    def pauli(ctx, c, F):
        class Indices:
            def __init__(self, p):
                self.p = p

            def __bool__(self):
                if self.p not in st:
                    st[self.p] = ctx.decide(f"some {self.p}")
                return st[self.p]

            def __getattr__(self, name):
                raise Unsupported(name)

        class Text:
            def pauli_indices(self, p="XYZ"):
                if p not in ("X", "Y", "Z"):
                    raise Unsupported("indices")
                return Indices(p)

            def __getattr__(self, name):
                raise Unsupported(name)

        st, circuit = {}, Operation()
        with shim.patched(circuits, stim=shim.Shim(stim, Circuit=lambda: circuit)):
            got = circuits._get_pauli_circuit(Text())
        c.true(got is circuit, "one circuit")
        seen = {}
        for part in circuit.parts:
            if len(part) != 2 or not isinstance(part[1], Indices):
                raise Unsupported("gates")
            c.true(part[0] == part[1].p and part[0] not in seen, "each Pauli gate acts where the string has it")
            seen[part[0]] = 1
        for p in "XYZ":
            c.true(p in seen or st.get(p) is False, f"{p} is applied wherever the string has it")

    prove(h, "_get_pauli_circuit applies the Pauli string", P + "_get_pauli_circuit", pauli, MODS, plain=True, min_paths=8)


# ---- the group of transversal operations, and the circuits of its members

GATES = ("S", "H", "SQRT_X", "SWAP")
SECTORS = {"Z": (1, 0), "X": (0, 1), "Y": (1, 1)}  # the column of a Pauli operator P: which of (x, z) of a row anticommute with it


class Qudits:
    """range(n) or range(n - 1), for the physical qubits."""

    def __init__(self, last):
        self.last = last  # 0: all; 1: all but the last

    def __iter__(self):
        raise Unsupported("iteration over all qubits")

    def comprehension(self, cond, elt):
        q = Column(0, 0)
        if cond(q) is not True:
            raise Unsupported("selection of qubits")
        return [Family(self, elt(q))]


class Family:
    """One item for each qubit of a range."""

    def __init__(self, over, item):
        self.over, self.item = over, item


class Column:
    """Column (qubit q + shift, sector s) for an arbitrary qubit q."""

    def __init__(self, sector, shift):
        self.sector, self.shift = sector, shift

    def __add__(self, d):
        if isinstance(d, builtins.int):
            return Column(self.sector, self.shift + d)
        d = Dim.of(d)
        for s in range(-3, 4):
            if d.same(Dim.of("n") * s):
                return Column(self.sector + s, self.shift)
        raise Unsupported("column")

    __radd__ = __add__

    def __sub__(self, d):
        return self + (-d)

    def key(self):
        return self.sector, self.shift

    def __index__(self):
        raise Unsupported("number of an arbitrary qubit")


def qudits(*a):
    if len(a) == 2 and a[0] == 0:
        a = a[1:]
    if len(a) == 1 and isinstance(a[0], Dim):
        for last in (0, 1):
            if a[0].same(Dim.of("n") - last):
                return Qudits(last)
    if any(isinstance(x, Dim) for x in a):
        raise Unsupported("range")
    return builtins.range(*a)


class Instrumental:
    """The classical code with a given parity check matrix."""

    def __init__(self, matrix):
        self.matrix = matrix

    def get_automorphism_group(self, *a, **k):
        return Automorphisms(self)

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a classical code")


class Automorphisms:
    def __init__(self, code):
        self.code = code

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a group")


class Member:
    def __init__(self, x):
        self.x = x


class Generated:
    def __init__(self, *members, **k):
        if k:
            raise Unsupported("arguments of a group")
        self.members = list(members)

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a group")


def perm_of(cycles):
    """{column: column} of a list of transpositions."""
    out = {}
    for cyc in cycles:
        if not isinstance(cyc, tuple) or len(cyc) != 2 or not all(isinstance(x, Column) for x in cyc):
            raise Unsupported("generators")
        a, b = (x.key() for x in cyc)
        if a in out or b in out or a == b:
            raise Unsupported("generators")
        out[a], out[b] = b, a
    return out


def holds(arr, ctx):
    return all(not ctx.normal(b) for b in arr.cells.values())


def built(ctx, c, F, gates, deform):
    """Run get_transversal_automorphism_group; the Pauli operators whose columns are the sectors of its classical code."""
    checks = mat.matrix(F, ["r"], ["n", "n"], {(0, 0): "Hx", (0, 1): "Hz"})
    logical = mat.matrix(F, ["k", "k"], ["n", "n"], {(i, j): f"L{i}{j}" for i in range(2) for j in range(2)})
    code = plain_code(2)
    code.__dict__.update(matrix=checks.copy()) if not isinstance(getattr(type(code), "matrix", None), property) else code.__dict__.update(_matrix=checks.copy())
    type(code).get_logical_ops = lambda self, pauli=None: logical.copy()
    seen = {}

    def classical(m, **k):
        if k:
            raise Unsupported("arguments of ClassicalCode")
        return Instrumental(m)

    def sectors(m):
        if m.ndim != 2 or not all(Dim.of(mat.seg_size(s)).same("n") for s in m.axes[1].segs):
            raise Unsupported("columns of the classical code")
        rows = (logical if deform else checks).view(F)
        out = []
        for j in range(len(m.axes[1].segs)):
            got = m[:, Sel(j)].view(F)
            for letter, (a, b) in SECTORS.items():
                want = rows[:, Sel(0)] * a + rows[:, Sel(1)] * b
                if got.axes == want.axes and holds(got - want, ctx):
                    out.append(letter)
                    break
            else:
                out.append(None)
        return out

    def length(x):
        if x is code:
            return Dim.of("n")
        if isinstance(x, Instrumental):
            return Dim.of(x.matrix.shape[-1])
        return shim.sym_len(x)

    def intersection(a, b):
        if isinstance(b, Automorphisms):
            a, b = b, a
        seen["groups"] = a, b
        return "the intersection"

    def group(*m, **k):
        if m and isinstance(m[0], Member) and all(x.x in ("g1", "g2") for x in m if not isinstance(x.x, list)) and not isinstance(m[0].x, list):
            return ("group", [x.x for x in m])
        return Generated(*m, **k)

    def inter(a, b):
        intersection(a, b)
        return ("g1", "g2")

    live = circuits.__dict__["get_transversal_automorphism_group"]
    circuits.get_transversal_automorphism_group = live.__wrapped__
    old, loops.NESTED[0] = loops.NESTED[0], lambda parts: [x for p in parts for x in p]
    try:
        with shim.patched(circuits, len=length, range=qudits, codes=shim.Shim(codes, ClassicalCode=classical), _sympy_group_intersection_generators=inter,
                          abstract=shim.Shim(abstract, GroupMember=Member, Group=group)), \
                loops.cut(circuits, "get_transversal_automorphism_group", {}):
            got = circuits.get_transversal_automorphism_group(code, gates, deform_code=deform)
    finally:
        circuits.get_transversal_automorphism_group = live
        loops.NESTED[0] = old
    c.true(got == ("group", ["g1", "g2"]), "the group generated by the intersection")
    auts, moves = seen["groups"]
    if not isinstance(auts, Automorphisms) or not isinstance(moves, Generated):
        raise Unsupported("groups")
    m = auts.code.matrix
    if not all(isinstance(x, Family) for g in moves.members for x in (g.x if isinstance(g.x, list) and g.x and isinstance(g.x[0], Family) else [g.x])):
        raise Unsupported("generators")
    fams = [g.x for g in moves.members]
    return sectors(m), fams


def permutations(h):
    def body(ctx, c, F):
        gates = [g for g in GATES if ctx.decide(g)]
        deform = ctx.decide("deform_code")
        letters, fams = built(ctx, c, F, tuple(gates), deform)
        local = [g for g in gates if g != "SWAP"]
        c.true(None not in letters and len(set(letters)) == len(letters) >= 2, "the sectors are columns of different Pauli operators of the checks (logical operators if the code is deformed)")
        n = len(letters)
        swaps, flips = 0, set()
        for f in fams:
            p = perm_of(f.item)
            swap = {**{(s, 0): (s, 1) for s in range(n)}, **{(s, 1): (s, 0) for s in range(n)}}
            if p == swap and f.over.last == 1:
                swaps += 1
                continue
            if len(p) == 2 and all(q == 0 and 0 <= s < n for s, q in p) and f.over.last == 0:
                flips.add(tuple(sorted(s for s, _ in p)))
                continue
            if all(q == 0 for _, q in p) and not local or any(q for _, q in p) and "SWAP" not in gates:
                c.true(False, f"the operations {p} are not allowed")
            if set(p) != {(s, q) for s in range(n) for q in (0, 1)} and any(q for _, q in p):
                c.true(False, "all sectors move with a qubit")
            raise Unsupported("generators of the group")
        c.true(bool(swaps) == ("SWAP" in gates), "qubits are permuted iff SWAP is allowed")
        if len(local) == 0:
            c.true(not flips, "no local operations")
            return
        if len(local) == 1:
            fixed = {"S": "Z", "H": "Y", "SQRT_X": "X"}[local[0]]
            c.true(n == 2 and fixed not in letters, f"the columns are those that {local[0]} exchanges")
        else:
            c.true(n == 3, "all Pauli operators")
        link = set(range(n))
        groups = {s: s for s in link}
        for a, b in flips:
            x, y = groups[a], groups[b]
            groups = {s: (x if t == y else t) for s, t in groups.items()}
        c.true(len(set(groups.values())) == 1, "all permutations of Pauli operators at each qubit")

    prove(h, "the group of transversal operations: automorphisms of the columns of Pauli operators that permute qubits and Pauli operators", P + "get_transversal_automorphism_group", body, MODS, plain=True, min_paths=32)

    def search(ctx, c, F):
        asked = []

        class Sub:
            pass

        class A:
            def to_sympy(self):
                return SA()

        class SA:
            contains = object()

            def subgroup_search(self, prop, **k):
                if k:
                    raise Unsupported("arguments")
                asked.append(prop)
                return "searched"

        class B:
            def to_sympy(self):
                return SB()

        class SB:
            contains = object()

        class G:
            def __init__(self, x):
                c.true(x == "searched", "the subgroup that was found")

            def hashable_generators(self):
                return "generators"

        with shim.patched(circuits, abstract=shim.Shim(abstract, Group=G)):
            fn = circuits._sympy_group_intersection_generators
            got = getattr(fn, "__wrapped__", fn)(A(), B())
        c.true(got == "generators" and asked == [SB.contains], "the subgroup of members of the one group that the other group contains")

    prove(h, "the intersection is the subgroup of one group that the other one contains", P + "_sympy_group_intersection_generators", search, MODS, plain=True)

    def paulis(ctx, c, F):
        gates = [g for g in GATES if ctx.decide(g)]
        letters, _ = built(ctx, c, F, tuple(gates), False)
        local = [g for g in gates if g != "SWAP"]
        if None in letters or len(letters) > 3:
            raise Unsupported("sectors")
        n = len(letters)
        moves = [p for p in itertools.permutations(range(n)) if local or p == tuple(range(n))]
        pick = 0
        while pick < len(moves) - 1 and not ctx.decide(f"permutation {pick}"):
            pick += 1
        pi = moves[pick]
        log = Applied(c)
        code = plain_code(2)

        def auto(x):
            if not isinstance(x, Spot):
                raise Unsupported("argument of an automorphism")
            if not 0 <= x.sector < n:
                c.true(False, "the automorphism is asked for a column that does not exist")
            return Image(x.root, pi[x.sector])

        class Loop(Whole):
            mutates = loops.ANY

            def enter(self, it, env):
                if not isinstance(it, AllQubits) or not tracked(self, env):
                    raise Unsupported("iteration")
                log.expect = True

            def item(self, env):
                log.q = Spot()
                log.now = []
                return log.q

            def back(self, env):
                log.judge(pi, letters)

        class Items(Whole):
            mutates = loops.ANY

            def enter(self, it, env):
                if not isinstance(it, TargetItems) or not tracked(self, env):
                    raise Unsupported("iteration")

            def item(self, env):
                log.now = []
                return ("gate", Targets(log, "gate"))

            def back(self, env):
                c.true(log.now == [("circuit", "gate", "targets of gate")], "each gate acts on its targets")

            def done(self, env):
                log.listed = True

        cuts = [Loop(), Loop(), Items()]
        live = circuits.__dict__["_get_pauli_permutation_circuit"]
        circuits._get_pauli_permutation_circuit = live.__wrapped__
        try:
            with shim.patched(circuits, len=lambda x: Dim.of("n") if x is code else builtins.len(x), range=qubits, sorted=lambda x, **k: x if isinstance(x, Targets) else builtins.sorted(x, **k),
                              stim=shim.Shim(stim, Circuit=lambda: Log(log)), collections=shim.Shim(collections, defaultdict=lambda f: TargetMap(log))), \
                    loops.cut(circuits, "_get_pauli_permutation_circuit", {0: cuts[0], 1: cuts[1], 2: cuts[2]}):
                got = circuits._get_pauli_permutation_circuit(code, auto, tuple(gates))
        finally:
            circuits._get_pauli_permutation_circuit = live
        c.true(isinstance(got, Log) and all(x.whole in (None, True) for x in cuts), "a circuit for all qubits")
        if pi != tuple(range(n)):
            c.true(log.expect, "Pauli operators are permuted")
        if log.mapped:
            c.true(log.listed, "the gates are applied")

    prove(h, "local gates permute the Pauli operators at each qubit as the automorphism permutes their columns", P + "_get_pauli_permutation_circuit", paulis, MODS, plain=True, min_paths=16)

    def standard(ctx, c, F):
        chosen = [g for g in GATES if ctx.decide(g)]
        odd = ctx.decide("another gate")
        kind = tuple if ctx.decide("tuple") else set if ctx.decide("set") else list
        given = kind(chosen + (["T"] if odd else []))
        before = kind(given)
        try:
            got = circuits._standardize_local_gates(given)
        except ValueError:
            c.true(odd, "allowed gates are accepted")
            return
        c.true(not odd, "other gates are rejected")
        c.true(isinstance(got, set) and got == set(chosen) and got is not given and given == before, "a new set of these gates")

    prove(h, "local gate sets", P + "_standardize_local_gates", standard, MODS, plain=True, min_paths=60)


def tracked(loop, env):
    """Does the loop only modify circuits and lists that record what is done to them?"""
    return all(isinstance(env.get(r), (Log, TargetMap)) for r in loop.roots)


class TargetItems:
    pass


class Targets:
    def __init__(self, log, gate):
        self.log, self.gate = log, gate

    def append(self, q):
        self.log.mapped = True
        self.log.now.append(("later", self.gate, q))

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of targets")


class TargetMap:
    def __init__(self, log):
        self.log = log

    def __getitem__(self, gate):
        return Targets(self.log, gate)

    def items(self):
        return TargetItems()

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of targets")


class Log:
    """A circuit that is built gate by gate."""

    def __init__(self, log):
        self.log = log

    def append(self, gate, targets, *a, **k):
        if a or k:
            raise Unsupported("arguments")
        if isinstance(targets, Targets):
            self.log.now.append(("circuit", gate, "targets of " + targets.gate))
        else:
            self.log.now.append(("now", gate, targets))

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a circuit")


class Applied:
    def __init__(self, c):
        self.c, self.now, self.expect, self.listed, self.mapped = c, [], False, False, False

    def judge(self, pi, letters):
        """The gates at the qubit map the operator of sector s to that of sector pi[s], up to signs."""
        circuit = stim.Circuit("I 0")
        for kind, gate, q in self.now:
            if kind == "circuit":
                raise Unsupported("gates")
            x = q[0] if isinstance(q, list) and len(q) == 1 else q
            if not isinstance(x, Spot):
                raise Unsupported("targets")
            if x.root is not self.q or x.sector:
                self.c.true(False, "the gate acts on the qubit")
            try:
                circuit.append(gate, [0])
            except Exception:
                self.c.true(False, f"{gate} is a gate of stim on one qubit")
        t = circuit.to_tableau()
        if len(t) != 1:
            self.c.true(False, "a gate on one qubit")
        for s, letter in enumerate(letters):
            got = str(t(stim.PauliString(letter)))[-1]
            self.c.true(got == letters[pi[s]], f"{letter} is mapped to {letters[pi[s]]}")


# ---- lists of operations


def arguments(fn, a, k):
    return dict(inspect.signature(inspect.unwrap(fn)).bind(*a, **k).arguments)


class Exists:
    """any(...) over arbitrarily many items: `pick` gives an arbitrary one; some item satisfies the predicate, or none does."""

    def __init__(self, pick, cond, elt):
        self.pick, self.cond, self.elt = pick, cond, elt

    def __iter__(self):
        raise Unsupported("iteration")

    def any(self):
        x = self.pick()
        return bool(self.cond(x)) and bool(self.elt(x))


def any_(x):
    return x.any() if isinstance(x, Exists) else builtins.any(x)


class Earlier:
    """The operations found so far: arbitrarily many."""

    def __init__(self):
        self.added = []

    def append(self, x):
        self.added.append(x)

    def generator(self, cond, elt):
        return Exists(lambda: ("earlier tableau", "earlier circuit"), cond, elt)

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of operations")

    __iter__ = None


class EachGenerator(Whole):
    mutates, rebinds = loops.ANY, True

    def __init__(self, c, st):
        self.c, self.st = c, st

    def enter(self, it, env):
        if it != "generators":
            raise Unsupported("iteration")
        if len(self.roots) != 1 or env.get(min(self.roots)) != []:
            raise Unsupported("the operations found so far")
        self.name = min(self.roots)

    def havoc(self, env):
        self.st.list = Earlier()
        return {self.name: self.st.list}

    def item(self, env):
        return "generator"

    def back(self, env):
        c, st = self.c, self.st
        if env[self.name] is not st.list:
            raise Unsupported("the operations found so far")
        added = st.list.added
        c.true(len(st.asked) == 1 and st.asked[0][0] == "generator", "the data of the generator")
        known = st.pauli is True or True in st.same
        if added:
            c.true(len(added) == 1 and tuple(added[0]) == ("tableau", "circuit"), "the operation of the generator")
            c.true(not st.remove or (st.pauli is False and st.same == [False]), "redundant operations are not kept")
        else:
            c.true(st.remove and known, "only redundant operations are left out")


def lists(h):
    def ops(ctx, c, F):
        st = State()
        st.asked, st.pauli, st.same = [], None, []
        st.remove, deform = ctx.decide("remove_redundancies"), ctx.decide("deform_code")
        code, gates = plain_code(2), ("S", "H")

        class Group:
            generators = "generators"

            def __getattr__(self, name):
                raise Unsupported(f"attribute {name} of a group")

        def group(*a, **k):
            got = arguments(live_group, a, k)
            c.true(got["code"] is code and tuple(got.get("local_gates")) == gates and bool(got.get("deform_code", False)) == deform, "the group for these gates")
            return Group()

        def data_(*a, **k):
            got = arguments(live_data, a, k)
            c.true(got["code"] is code and tuple(got["local_gates"]) == gates and bool(got["deform_code"]) == deform, "data for the same gates")
            st.asked.append((got["automorphism"],))
            return "tableau", "circuit"

        def is_pauli(t):
            if t != "tableau":
                raise Unsupported("tableau")
            if st.pauli is None:
                st.pauli = ctx.decide("Pauli")
            return st.pauli

        def same(a, b):
            if {a, b} != {"tableau", "earlier tableau"}:
                raise Unsupported("tableaus")
            st.same.append(ctx.decide("equivalent"))
            return st.same[-1]

        each = EachGenerator(c, st)
        live, live_group, live_data = (circuits.__dict__[x] for x in ("get_transversal_ops", "get_transversal_automorphism_group", "_get_transversal_automorphism_data"))
        circuits.get_transversal_ops = live.__wrapped__
        try:
            with shim.patched(circuits, any=any_, get_transversal_automorphism_group=group, _get_transversal_automorphism_data=data_,
                              _is_pauli_tableau=is_pauli, _tableaus_are_equivalent_mod_paulis=same), \
                    loops.cut(circuits, "get_transversal_ops", {0: each}, generators=True):
                got = circuits.get_transversal_ops(code, gates, deform_code=deform, remove_redundancies=st.remove)
        finally:
            circuits.get_transversal_ops = live
        c.true(got is st.list and each.whole is True, "all operations that were found")

    prove(h, "the operations of all generators of the group, but for redundant ones", P + "get_transversal_ops", ops, MODS, plain=True, min_paths=8)

    def compare(ctx, c, F):
        eq = {}

        class Part:
            def __init__(self, owner, name):
                self.owner, self.name = owner, name

            def __getattr__(self, name):
                raise Unsupported(f"attribute {name} of a part of a tableau")

        class Tab:
            def __init__(self, owner):
                self.owner = owner

            def to_numpy(self, **k):
                if k:
                    raise Unsupported("arguments")
                return (*[Part(self.owner, p) for p in PARTS], Part(self.owner, "x_signs"), Part(self.owner, "z_signs"))

            def __len__(self):
                return 1

            def __getattr__(self, name):
                raise Unsupported(f"attribute {name} of a tableau")

        def equal(a, b):
            if isinstance(a, str) and isinstance(b, Part):
                a, b = b, a
            if not isinstance(a, Part):
                raise Unsupported("arrays")
            key = (a.name, "identity") if isinstance(b, str) else (a.name, "other") if b.name == a.name and b.owner != a.owner else None
            if key is None:
                return ctx.decide("unrelated arrays")
            if key not in eq:
                eq[key] = ctx.decide(f"{key} equal")
            return eq[key]

        def some(a):
            if not isinstance(a, Part):
                raise Unsupported("arrays")
            key = (a.name, "zero")
            if key not in eq:
                eq[key] = not ctx.decide(f"some {a.name}")
            return not eq[key]

        def ident(n, dtype=None):
            if n != 1:
                raise Unsupported("identity")
            return "identity"

        np_ = shim.Shim(np, array_equal=equal, any=some, identity=ident, eye=ident)
        with shim.patched(circuits, np=np_):
            got = bool(circuits._is_pauli_tableau(Tab(1)))
        need = [("x2x", "identity"), ("z2z", "identity"), ("x2z", "zero"), ("z2x", "zero")]
        if got:
            c.true(all(eq.get(k) is True for k in need), "a Pauli operator changes nothing but signs")
        else:
            c.true(any(eq.get(k) is False for k in need), "only Pauli operators change nothing but signs")
        eq.clear()
        with shim.patched(circuits, np=np_):
            got = bool(circuits._tableaus_are_equivalent_mod_paulis(Tab(1), Tab(2)))
        need = [(p, "other") for p in PARTS]
        if got:
            c.true(all(eq.get(k) is True for k in need), "equivalent tableaus differ in signs only")
        else:
            c.true(any(eq.get(k) is False for k in need), "tableaus that differ in signs only are equivalent")

    prove(h, "Pauli tableaus and equivalence up to Paulis", P + "_tableaus_are_equivalent_mod_paulis", compare, MODS, plain=True, min_paths=10)

    def single(ctx, c, F):
        code, gates, deform = plain_code(2), ("S", "H"), ctx.decide("deform_code")

        def many(*a, **k):
            got = arguments(live, a, k)
            c.true(got["code"] is code and list(got["logical_circuits_or_tableaus"]) == ["target"] and tuple(got.get("local_gates")) == gates
                   and bool(got.get("deform_code", False)) == deform, "the same question")
            return ["answer"]

        live = circuits.__dict__["get_transversal_circuits"]
        with shim.patched(circuits, get_transversal_circuits=many):
            got = circuits.get_transversal_circuit(code, "target", gates, deform_code=deform)
        c.true(got == "answer", "the circuit of the only operation")

    prove(h, "get_transversal_circuit asks for one operation", P + "get_transversal_circuit", single, MODS, plain=True, min_paths=2)


# ---- search for operations


class Index:
    """The position of an arbitrary target."""


class Slots:
    """A list with an entry for each target."""

    def __init__(self, init, length, read=None):
        self.init, self.length, self.read, self.writes = init, length, read, []

    def __getitem__(self, i):
        if not isinstance(i, Index) or self.read is None:
            raise Unsupported("entry")
        for j, v in reversed(self.writes):
            if j is i:
                return v
        return self.read()

    def __setitem__(self, i, v):
        if not isinstance(i, Index):
            raise Unsupported("entry")
        self.writes.append((i, v))

    def generator(self, cond, elt):
        if self.read is None:
            raise Unsupported("entries")
        return Exists(self._entry, cond, elt)

    def _entry(self):
        if self.writes:
            raise Unsupported("entries")
        return self.read()

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a list")

    __iter__ = None

    def __bool__(self):
        raise Unsupported("length of a list")


class Given:
    """The operations that a user asks for."""

    def __init__(self, st):
        self.st = st

    def comprehension(self, cond, elt):
        st, c = self.st, self.st.c
        x = AskedTableau() if self.st.ctx.decide("a tableau is given") else Operation("asked")
        if cond(x) is not True:
            raise Unsupported("selection")
        got = elt(x)
        if isinstance(x, AskedTableau):
            c.true(got is x, "a tableau stands for itself")
        else:
            c.true(isinstance(got, Physical), "the tableau of the circuit")
            c.true([p for p in got.what[1].parts if not is_identity(p)] == ["asked"], "the tableau of the circuit that was asked for")
            c.true(any(is_identity(p) and covers(p[1], st.k - 1) for p in got.what[1].parts), "extended to all logical qubits")
        return TargetTableaus()

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of the operations asked for")

    __iter__ = None


def covers(x, last):
    x = x[0] if isinstance(x, list) and len(x) == 1 else x
    x = LENGTHS.get(x, x)
    return isinstance(x, scalar.SInt) and bool(x == last)


class AskedTableau:
    pass


class Bit:
    def __init__(self, kind, whose, j, ctx, eq):
        self.kind, self.whose, self.j, self.ctx, self.eq = kind, whose, j, ctx, eq

    def __eq__(self, o):
        if not isinstance(o, Bit):
            raise Unsupported("sign")
        if o.kind == self.kind and o.j is self.j and {o.whose, self.whose} == {"target", "match"}:
            if self.kind not in self.eq:
                self.eq[self.kind] = self.ctx.decide(f"equal {self.kind} signs")
            return self.eq[self.kind]
        return self.ctx.decide("unrelated signs")

    def __ne__(self, o):
        return not self == o

    def __xor__(self, o):
        return self != o

    def __bool__(self):
        raise Unsupported("sign")

    __hash__ = None


class Bits:
    def __init__(self, kind, whose, st):
        self.kind, self.whose, self.st = kind, whose, st

    def __getitem__(self, j):
        if j is not self.st.j:
            raise Unsupported("signs")
        return Bit(self.kind, self.whose, j, self.st.ctx, self.st.eq)

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of signs")


class Known:
    """A tableau of which the signs are read: a target, or the logical tableau of an operation."""

    def __init__(self, whose, st, of=None):
        self.whose, self.st, self.of = whose, st, of

    def to_numpy(self, **k):
        if k:
            raise Unsupported("arguments")
        return (*["part"] * 4, Bits("x", self.whose, self.st), Bits("z", self.whose, self.st))

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of a tableau")


class TargetTableaus:
    pass


class Zipped:
    def __init__(self, *parts):
        self.parts = parts


class Numbered:
    def __init__(self, it):
        self.it = it


class Op:
    """A row of the logical operators, or a sum of them."""

    def __init__(self, terms=(), start=None):
        self.terms, self.start, self.complete = list(terms), start, False

    def __add__(self, o):
        if not isinstance(o, Op):
            raise Unsupported("sum")
        return Op(self.terms + o.terms, self.start or o.start)

    __radd__ = __add__

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of an operator")


class Rows:
    def __init__(self, pauli):
        self.pauli = pauli

    def __getitem__(self, j):
        return Op([(self.pauli, j)])


class Search(loops.Loop):
    """for automorphism in the group: an empty entry means that no operation so far matches the target."""

    mutates, rebinds = loops.ANY, True

    def __init__(self, st):
        self.st = st

    def enter(self, it, env):
        st = self.st
        if it != "all members":
            raise Unsupported("iteration")
        if len(self.roots) != 1 or not isinstance(env.get(min(self.roots)), Slots):
            raise Unsupported("matching operations")
        self.name = min(self.roots)
        s = env[self.name]
        if s.init is not None or s.writes:
            raise Unsupported("matching operations")
        st.c.valid((s.length == st.T).f, "an entry for each target")

    def havoc(self, env):
        st = self.st
        st.slots = Slots("any", st.T, read=st.entry)
        return {self.name: st.slots}

    def item(self, env):
        self.st.inner = False
        return "automorphism"

    def back(self, env):
        self.st.c.true(self.st.inner, "each member is compared with the targets")
        self.st.c.true(env[self.name].init == "any", "the matching operations")

    def done(self, env):
        self.st.exhausted = True


class Compare(Whole):
    """for each target: an empty entry is filled if the operation matches."""

    mutates, rebinds = loops.ANY, True

    def __init__(self, st):
        self.st = st

    def enter(self, it, env):
        st = self.st
        if not isinstance(it, Numbered) or not isinstance(it.it, TargetTableaus) or len(self.roots) != 1 or env[min(self.roots)] is not st.slots:
            raise Unsupported("iteration")
        self.name = min(self.roots)
        st.c.true(st.asked == ["automorphism"], "the data of the member")

    def havoc(self, env):
        st = self.st
        st.slots = Slots("any", st.T, read=st.entry)
        st.seen.clear()
        return {self.name: st.slots}

    def item(self, env):
        self.t, self.target = Index(), Known("target", self.st)
        self.st.pair = (self.target, None)
        return self.t, self.target

    def back(self, env):
        st, c = self.st, self.st.c
        w = st.slots.writes
        same = st.seen.get("same")
        if w:
            c.true(len(w) == 1 and w[0][0] is self.t and isinstance(w[0][1], tuple) and len(w[0][1]) == 2, "the entry of the target")
            tab, circ = w[0][1]
            c.true(isinstance(tab, Known) and tab.of == "automorphism" and isinstance(circ, Operation) and circ.parts == ["circuit of a member"], "the operation of the member")
            c.true(same is True, "the operation agrees with the target up to Paulis")
        else:
            c.true(same is False or st.seen.get("entry") is True, "an operation that agrees with the target is kept")

    def done(self, env):
        self.st.inner = True


class Correct(Whole):
    """for each target: its circuit is that of the match, after a logical Pauli correction."""

    mutates = loops.ANY

    def __init__(self, st):
        self.st = st

    def enter(self, it, env):
        st = self.st
        if not isinstance(it, Numbered) or not isinstance(it.it, Zipped) or len(it.it.parts) != 2 or not isinstance(it.it.parts[0], TargetTableaus) \
                or it.it.parts[1] is not st.slots:
            raise Unsupported("iteration")
        roots = [r for r in self.roots if isinstance(env.get(r), Slots)]
        if len(roots) != 1 or len(self.roots) != 1 or env[roots[0]] is st.slots:
            raise Unsupported("the answers")
        self.name = roots[0]
        st.answers = env[self.name]
        st.c.true(st.answers.init is None and not st.answers.writes, "no circuits at first")
        st.c.valid((st.answers.length == st.T).f, "an answer for each target")
        st.none = False

    def item(self, env):
        st = self.st
        self.t = Index()
        st.seen.clear()
        op = st.entry()
        self.op = op
        st.eq.clear()
        st.answers.writes.clear()
        if op is None:
            return self.t, (Known("target", st), None)
        return self.t, (Known("target", st), op)

    def back(self, env):
        st, c = self.st, self.st.c
        if env[self.name] is not st.answers:
            raise Unsupported("the answers")
        w = st.answers.writes
        if self.op is None:
            c.true(not w or w == [(self.t, None)], "no circuit without a match")
            c.true(st.exhausted, "the search goes on until all members are seen or all targets are matched")
            w.clear()
            return
        c.true(len(w) == 1 and w[0][0] is self.t and isinstance(w[0][1], Operation), "a circuit for the target")
        parts = w[0][1].parts
        c.true(len(parts) == 2 and parts[0][0] == "Pauli" and parts[1] == "circuit of a member", "the correction comes first, then the circuit of the match")
        v = parts[0][1]
        if not isinstance(v, Op):
            raise Unsupported("correction")
        c.true(v.complete, "corrections of all logical qubits")
        w.clear()

    def done(self, env):
        self.st.answers.writes.clear()


class Logical(Whole):
    """for each logical qubit j: Z_j if the sign of the image of X_j differs, X_j if that of Z_j differs."""

    mutates = loops.ANY

    def __init__(self, st):
        self.st = st

    def enter(self, it, env):
        st = self.st
        if not isinstance(it, Between) or it.step != 1:
            raise Unsupported("iteration")
        st.c.valid((it.lo == 0).f, "from the first logical qubit")
        st.c.valid((it.hi == st.k).f, "to the last logical qubit")
        names = [r for r in self.roots if isinstance(env.get(r), Op)]
        if len(names) != 1 or len(self.roots) != 1:
            raise Unsupported("the correction")
        self.name = names[0]
        v = env[self.name]
        st.c.true(v.start == "zero" and not v.terms, "no correction at first")

    def havoc(self, env):
        self.part = Op([], "earlier qubits")
        return {self.name: self.part}

    def item(self, env):
        self.st.j = Length(f"j{next(CTX[-1].fresh)}")
        self.st.eq.clear()
        return self.st.j

    def back(self, env):
        st, c = self.st, self.st.c
        v = env[self.name]
        if not isinstance(v, Op) or v.start != "earlier qubits" or any(j is not st.j for _, j in v.terms):
            raise Unsupported("the correction")
        for kind, pauli in (("x", Pauli.Z), ("z", Pauli.X)):
            added = sum(p is pauli for p, _ in v.terms) % 2
            c.true(kind in st.eq, f"the signs of the images of {kind.upper()} operators are compared")
            c.true(bool(added) == (not st.eq[kind]), f"logical {pauli} is applied iff the signs of the images of {kind.upper()} differ")

    def done(self, env):
        env[self.name].complete = True


def searches(h):
    def body(ctx, c, F):
        st = State()
        st.c, st.ctx = c, ctx
        st.T, st.n, st.k = Length("T"), Length("n"), Length("k")
        for x, lo in ((st.T, 0), (st.n, 1), (st.k, 1)):
            scalar.assume(x >= lo)
        st.seen, st.asked, st.eq, st.exhausted, st.j, st.inner, st.all = {}, [], {}, False, None, False, False
        deform, gates = ctx.decide("deform_code"), ("S", "H")
        given = Given(st)
        code = plain_code(2)

        def matched(of):
            return Known("match", st, of), Operation("circuit of a member")

        def entry():
            """An arbitrary entry: empty, or an operation that agrees with its target up to Paulis."""
            if st.all:
                return matched("earlier")
            got = ctx.decide("matched")
            st.seen["entry"] = got
            return matched("earlier") if got else None

        st.entry = entry

        def field(x):
            if not isinstance(x, Slots) or x.init != 0:
                raise Unsupported("field elements")
            c.valid((x.length == st.n * 2).f, "an operator on all qubits")
            return Op([], "zero")

        type(code).field = property(lambda self: field)
        type(code).dimension = property(lambda self: st.k)

        class Quantum:
            @staticmethod
            def get_logical_ops(x, pauli=None):
                if x is not code or pauli not in (Pauli.X, Pauli.Z):
                    raise Unsupported("logical operators")
                return Rows(pauli)

        def logical_ops(self, pauli=None):
            return Quantum.get_logical_ops(self, pauli)

        type(code).get_logical_ops = logical_ops

        class Group:
            @staticmethod
            def generate(*a, **k):
                if a or k:
                    raise Unsupported("arguments")
                return "all members"

            def __getattr__(self, name):
                raise Unsupported(f"attribute {name} of a group")

        def group(*a, **k):
            got = arguments(live_group, a, k)
            c.true(got["code"] is code and tuple(got.get("local_gates")) == gates and bool(got.get("deform_code", False)) == deform, "the group for these gates")
            return Group()

        def data_(*a, **k):
            got = arguments(live_data, a, k)
            c.true(got["code"] is code and tuple(got["local_gates"]) == gates and bool(got["deform_code"]) == deform, "data for the same gates")
            st.asked[:] = [got["automorphism"]]
            return Known("match", st, got["automorphism"]), Operation("circuit of a member")

        def same(a, b):
            if not isinstance(a, Known) or not isinstance(b, Known):
                raise Unsupported("tableaus")
            if {a.whose, b.whose} != {"target", "match"} or "automorphism" not in (a.of, b.of):
                raise Unsupported("tableaus")
            if "same" not in st.seen:
                st.seen["same"] = ctx.decide("equivalent")
            return st.seen["same"]

        def anything(x):
            c.true(cuts[1].whole in (None, True), "an operation is compared with all targets")
            got = any_(x)
            if isinstance(x, Exists) and not got and st.seen.get("entry") is True:
                st.all = True  # no entry is empty
            return got

        def string(x):
            if not isinstance(x, Op):
                raise Unsupported("operator")
            return Token("string", x)

        def pauli_circuit(x):
            if not isinstance(x, Token) or x.what[0] != "string":
                raise Unsupported("operator")
            return Operation(("Pauli", x.what[1]))

        def length_(x):
            return st.T if x is given or isinstance(x, TargetTableaus) else st.n if x is code else builtins.len(x)

        def enum(x, *a):
            if isinstance(x, (TargetTableaus, Zipped)):
                if a:
                    raise Unsupported("start")
                return Numbered(x)
            return builtins.enumerate(x, *a)

        cuts = {1: Compare(st), 2: Correct(st), 3: Logical(st)}
        names = ("get_transversal_circuits", "get_transversal_automorphism_group", "_get_transversal_automorphism_data")
        live, live_group, live_data = (circuits.__dict__[x] for x in names)
        circuits.get_transversal_circuits = live.__wrapped__
        try:
            with shim.patched(circuits, any=anything, len=length_, enumerate=enum, range=between,
                              zip=lambda *a, **k: Zipped(*a) if isinstance(a[0], TargetTableaus) else builtins.zip(*a, **k),
                              stim=shim.Shim(stim, Tableau=AskedTableau, Circuit=idle), codes=shim.Shim(codes, QuditCode=Quantum),
                              get_transversal_automorphism_group=group, _get_transversal_automorphism_data=data_, op_to_string=string,
                              _get_pauli_circuit=pauli_circuit, _tableaus_are_equivalent_mod_paulis=same), \
                    loops.cut(circuits, "get_transversal_circuits", {0: Search(st), **cuts}, generators=True):
                got = circuits.get_transversal_circuits(code, given, gates, deform_code=deform)
        finally:
            circuits.get_transversal_circuits = live
        c.true(got is st.answers and all(x.whole in (None, True) for x in cuts.values()) and cuts[2].whole is True, "the answers for all targets")

    prove(h, "a circuit for each operation that some member of the group implements up to Paulis, with its Pauli corrections", P + "get_transversal_circuits", body, MODS, plain=True, min_paths=20)


def transversal_lemmas(h):
    lemma.check(h, "Transversal")
