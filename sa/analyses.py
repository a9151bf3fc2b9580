"""Registry: analysis name -> function returning its obligations, and which properties it serves."""
from frontend import Program, PROGRAMS
import gkr
import evalcheck
import provercheck
import numcheck
import ranges
import polycheck
import verdict
import loadcheck
import memcheck
import racecheck
import gencheck

_progs = {}


def prog(w):
    if w not in _progs:
        _progs[w] = Program(w, PROGRAMS[w])
    return _progs[w]


def _verify(w):
    def f():
        v = gkr.VerifyCheck(prog(w), w)
        obs = v.run()
        return obs, {"verify:" + w: {"entry": "verifier::verify", "loops_summarised": len(v.I.loops),
                                     "events": len(v.I.events), "exits": len(v.fr.exits)}}
    return f


def _eval(w):
    def f():
        v = evalcheck.EvalCheck(prog(w), w)
        obs = v.run()
        return obs, {"evaluate:" + w: {"entry": "prover::evaluate", "loops_summarised": len(v.I.loops), "functions": sorted(v.I.nfun)}}
    return f


def _prover(w, cls):
    def f():
        v = cls(prog(w), w)
        obs = v.run()
        return obs, {"prover:" + w: v.units}
    return f


def _num(w, cls):
    def f():
        v = cls(prog(w), "num" if cls is numcheck.NumCheck else "field-" + w)
        obs = v.run()
        units = {v.which: v.units}
        if cls is numcheck.FieldCheck and v.p and v.limit_bits:
            r = ranges.Ranges(prog(w), "field-" + w, v.p, v.limit_bits)
            obs = obs + r.run()
            units["ranges-" + w] = r.units
        return obs, units
    return f


def _poly(w):
    def f():
        v = polycheck.PolyCheck(prog(w))
        obs = v.run()
        return obs, {"poly": v.units}
    return f


def _verdict(w):
    def f():
        v = verdict.VerdictCheck(prog(w), w)
        obs = v.run()
        return obs, {"verdict-" + w: v.units}
    return f


def _load(w):
    def f():
        v = loadcheck.LoadCheck(prog(w), w)
        obs = v.run()
        return obs, {"load-" + w: v.units}
    return f


def _mem(w):
    def f():
        v = memcheck.MemCheck(prog(w), w)
        obs = v.run()
        return obs, {"mem-" + w: v.units}
    return f


def _race(w):
    def f():
        v = racecheck.RaceCheck(prog(w), w)
        obs = v.run()
        return obs, {"race-" + w: v.units}
    return f


def _gen():
    v = gencheck.GenCheck(prog("gen"))
    obs = v.run()
    return obs, {"gen": v.units}


V = ("V01", "V02", "V03", "V04", "V05", "V06")
ANALYSES = {
    "linear": (V, _verify("linear")),
    "para": (V, _verify("para")),
    "bclogc": (V, _verify("bclogc")),
    "bc_clogc": (V, _verify("bc_clogc")),
    "eval-linear": (("E01",), _eval("linear")),
    "eval-para": (("E01",), _eval("para")),
    "eval-bclogc": (("E01",), _eval("bclogc")),
    "eval-bc_clogc": (("E01",), _eval("bc_clogc")),
    "prove-linear": (("H01",), _prover("linear", provercheck.LinearProver)),
    "prove-para": (("H01",), _prover("para", provercheck.ParaProver)),
    "prove-bclogc": (("H02",), _prover("bclogc", provercheck.TradProver)),
    "prove-bc_clogc": (("H02",), _prover("bc_clogc", provercheck.TradProver)),
    "verdict-linear": (("R01",), _verdict("linear")),
    "verdict-para": (("R01",), _verdict("para")),
    "verdict-bclogc": (("R01",), _verdict("bclogc")),
    "verdict-bc_clogc": (("R01",), _verdict("bc_clogc")),
    "load-linear": (("M01",), _load("linear")),
    "load-para": (("M01",), _load("para")),
    "load-bclogc": (("M01",), _load("bclogc")),
    "load-bc_clogc": (("M01",), _load("bc_clogc")),
    "mem-linear": (("M02",), _mem("linear")),
    "mem-para": (("M02",), _mem("para")),
    "mem-bclogc": (("M02",), _mem("bclogc")),
    "mem-bc_clogc": (("M02",), _mem("bc_clogc")),
    "race-para": (("P01",), _race("para")),
    "gen": (("G02",), _gen),
    "poly": (("F03",), _poly("linear")),
    "num": (("F01",), _num("linear", numcheck.NumCheck)),
    "field-linear": (("F02", "F03", "E01", "H01", "V02", "V05", "V06"), _num("linear", numcheck.FieldCheck)),
    "field-para": (("F02",), _num("para", numcheck.FieldCheck)),
    "field-bclogc": (("F02", "E01", "H02", "V02", "V05", "V06"), _num("bclogc", numcheck.FieldCheck)),
    "field-bc_clogc": (("F02", "E01", "H02", "V02", "V05", "V06"), _num("bc_clogc", numcheck.FieldCheck)),
}
EXPLAIN = {
    "V01": "Every way verify() can return true is turned into a condition over the prover's messages; the condition must contain each round check, each closing check and the final check, for every layer (first, inner, last; one-gate and wide). Prover answers are free values.",
    "V02": "The claim compared in each round, the value carried to the next, the value compared in the closing check and the combination carried to the next layer are normal forms over messages and challenges, compared with the protocol's.",
    "V03": "Each challenge's normal form must be a draw of the random source of its own (one draw site and iteration per use, no constant, no reuse), and the order of draw, message and hand-over is read off the recorded sequence of prover calls.",
    "V04": "Every leaf of the accepting condition is classified: circuit, claimed output, input, own coin, or a message; a message must be bound by one call, used with one value, and no other prover state may be read.",
    "V05": "The value the last claim is compared with is summarised as a sum over the gates of the layer; per gate type the summand is compared with selector(challenges) times the gate's function of the two claimed values.",
    "V06": "First claim and final comparison are compared with the multilinear extension (closed form of the summarised loops) of the claimed output and of the circuit's inputs, over the whole layer.",
    "R01": "main is interpreted with each verifier's answer a free truth value; the condition under which success is announced must equal the conjunction of the answers; verifier, prover and circuit objects must belong together.",
    "E01": "evaluate() is summarised as one value per gate of an arbitrary layer; per gate type it is compared with the type's function of the two wires' values; returned table = top layer.",
    "H01": "Each entry point of the linear-time prover is summarised (phase initialisation, update at an arbitrary round, closing values) and compared with the sumcheck polynomial of the layer equation; per gate type. In the parallel prover the workers' slices are shown to make up whole tables, and sums over the gates listed under a wire are read as sums over the gates with that wire.",
    "H02": "Each entry point of the two traditional provers is summarised and compared with the sumcheck polynomial of the layer equation over gate, copy and wire bits.",
    "F01": "Each limb-wise operation is evaluated over symbolic limbs as exact integer terms with floors and compared with the integer operation, by carry pattern.",
    "F02": "Each field operation is compared with its definition modulo p as exact integer terms; an interval analysis over the whole program bounds every direct combination of representations.",
    "F03": "Each operation of each polynomial class is compared coefficient by coefficient with its definition.",
    "M01": "The loader is interpreted with the file as a symbolic token sequence; each cell of the loaded tables is compared with the file's tokens.",
    "M02": "Every indexed access and release reachable from a run is recorded with its path condition; indices are bounded against allocation sizes, releases against later uses by object identity.",
    "G02": "main of the generator is interpreted once per mode with symbolic parameters; what it prints becomes a tree of numbers under counted loops, which is parsed by the grammar of circuit files: announced depth and widths, gate numbers, types, wire bounds and the block description are compared as polynomials over the parameters and loop counters.",
    "P01": "Every fork-join step is interpreted once per worker with a symbolic worker number; the recorded reads and writes (object, index as a normal form, path condition) of two different workers must not meet, the slices must cover the step's tables, and every started thread's handle must be joined before the parent reads.",
}
ASSUME = [
    "circuits are well formed: gate numbers in order, wires inside the layer below, layer sizes one or a power of two",
    "layer sizes and bit lengths do not overflow a machine integer; library functions behave as documented",
    "clang's type-checked syntax tree of the unit, built with the repository's include paths, is what is compiled",
    "obligations listed as undecided were not decided and raise no alarm",
]


def for_property(pid):
    return [n for n, (ps, _) in ANALYSES.items() if pid in ps]


def run(n):
    return ANALYSES[n][1]()
