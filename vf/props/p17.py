"""No file of any content makes the library misbehave: it is refused or it can be used."""
import glob, json, os

from hypothesis import strategies as st

from ..core import Prop, Violation, VERIF
from .. import fuzz

u16 = st.integers(0, 65535)
val = st.one_of(st.sampled_from(fuzz.INTERESTING), st.sampled_from(fuzz.INTERESTING), st.integers(0, 40), st.integers(0, 0xffffffff))
idx = st.integers(0, 14)
hexs = st.binary(max_size=12).map(bytes.hex)
newn = st.sampled_from(["\0A", "\0B", "\0C", "\0Tab", "\0Nope", "A.x", "B.x", "B.k0", "B", "stray", "\x05DigitalSignature", "\0_Streams", "\0_Validation"])
mut = st.one_of(st.tuples(st.just("set"), idx, u16, st.sampled_from([1, 2, 4]), val), st.tuples(st.just("set2"), idx, u16, val), st.tuples(st.just("set2"), idx, u16, val), st.tuples(st.just("set2"), st.integers(0, 3), u16, val),
                st.tuples(st.just("cut"), idx, st.integers(0, 1100)), st.tuples(st.just("ext"), idx, hexs), st.tuples(st.just("ins"), idx, u16, hexs), st.tuples(st.just("rep"), idx, st.integers(2, 3)),
                st.tuples(st.just("del"), idx), st.tuples(st.just("copy"), idx, idx), st.tuples(st.just("new"), idx, newn, hexs)).map(list)
raw = st.one_of(st.tuples(st.just("raw"), st.one_of(st.integers(0, 1 << 20), st.integers(-2048, -1)), st.sampled_from([1, 2, 4]), val), st.tuples(st.just("rawcut"), u16)).map(list)


@st.composite
def cases(draw):
    kind = draw(st.sampled_from([fuzz.DB, fuzz.DB, fuzz.MST, fuzz.MST, fuzz.MERGE, fuzz.PATCH]))
    flags = draw(st.sampled_from([0, fuzz.DEEP, fuzz.MODIFY, fuzz.DEEP | fuzz.MODIFY]))
    muts = draw(st.lists(mut, min_size=1, max_size=8))
    if draw(st.integers(0, 7)) == 0:
        muts = muts[:2] + draw(st.lists(raw, min_size=1, max_size=4))
    return {"kind": kind, "flags": flags, "seed": draw(st.integers(0, 400)), "muts": muts}


class P17(Prop):
    id = "P17"
    needs = ("fuzz_msi", "persist_msi")
    quick = 900
    thorough = 60000
    campaign = {"quick": (6, 2500), "thorough": (420, None)}
    corpus = "p17"
    binary, persist = "fuzz_msi", "persist_msi"
    rule = ("a case is a generated well-formed database, transform or merge module (tables, rows, streams, summary information) with up to eight of its values, lengths, streams or container bytes changed, which is opened, read "
            "through every query, export and summary function, and for some modified and committed, under AddressSanitizer; further inputs come from coverage-guided search (libFuzzer) starting from such inputs; "
            "non-trivial: at least one change was made to the well-formed input (searched inputs: those executed)")
    strategy = staticmethod(cases)

    def setup(self, paths, tmp):
        from ..core import Env
        env = Env()
        env.tmp, env.paths = tmp, paths
        env.drv = fuzz.Persist([paths[self.persist]], tmp)
        return env

    def fixed_cases(self):
        fn = os.path.join(VERIF, "corpus", self.corpus + ".json")
        return [{"input": h} for h in json.load(open(fn))] if os.path.exists(fn) else []

    def input(self, case):
        if "input" in case:
            return bytes.fromhex(case["input"])
        return fuzz.mutate(case["kind"] | case["flags"], fuzz.seed(case["kind"], case["seed"]), case["muts"])

    def run(self, case, env):
        env.drv.run(self.input(case))
        return "input" in case or bool(case["muts"]), ["regression" if "input" in case else ["database", "transform", "merge", "patch"][case["kind"]]] + sorted({m[0] for m in case.get("muts", [])})

    def shrink(self, case):
        if "input" in case:
            b = bytes.fromhex(case["input"])
            n = len(b) // 2
            while n:
                for i in range(1, len(b), n):
                    yield {"input": (b[:i] + b[i + n:]).hex()}
                n //= 2
        else:
            for i in range(len(case["muts"])):
                yield dict(case, muts=case["muts"][:i] + case["muts"][i + 1:])
            for s in range(6):
                if s < case["seed"]:
                    yield dict(case, seed=s)
            for f in (0, fuzz.DEEP, fuzz.MODIFY):
                if f != case["flags"]:
                    yield dict(case, flags=f)

    def seeds(self, n):
        out = [bytes.fromhex(c["input"]) for c in self.fixed_cases()]
        for i in range(n):
            k = i % 3
            out.append(fuzz.blob(k | [0, 4, 16, 20][i // 3 % 4], fuzz.seed(k, i)))
        return out

    def extra(self, ctx):
        s, runs = self.campaign[ctx["tier"]]
        ex, cov, found = fuzz.campaign(ctx["paths"][self.binary], self.seeds(150), ctx["tmp"], s, seed=ctx["seed"], runs=runs)
        out = {"evaluations": ex, "distinct_nontrivial": 0, "searched_inputs": ex, "coverage_edges": cov}
        for data, msg in found:
            # what only exhausts the memory of the fuzzer is not a failure
            if msg.startswith("oom"):
                continue
            out["fail"] = ({"input": data.hex()}, msg)
        return out


PROP = P17
