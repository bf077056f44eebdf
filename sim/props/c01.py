from .. import ops, pool, runner
from ..prop import Prop

FOCUS = ("references/kbs.py", "references/tag.py", "references/engine.py", "references/api.py", "authors/regexs.py",
         "references/text.py", "references/find.py", "references/record.py", "extract.py", "documents/", "references/pdf.py",
         "references/regexs.py")



def focus(rng, run):
    """Swarm: restrict most switch points of a run to one source file."""
    if rng.random() < 0.45:
        return (rng.choice(sorted({f.split(":")[0] for f in run["prof"]} or {""})),)
    return None


class P(Prop):
    id = "C01"
    quick, thorough = 2000, 30000
    warmable = 0.5
    rule = ("a run = 2-3 simulated threads with 1-3 public calls each, interleaved at seeded line/opcode/I-O events of the package; "
            "non-trivial = at least one forced context switch happened inside a call; distinct = distinct sequences of switches")
    components = {"real": ["all refextract code", "pypdf", "libmagic", "pdftotext output (memoised)", "OS threads (one runs at a time)"],
                  "stub": ["thread scheduling", "threading locks", "pdftotext process delivery", "temporary names"]}
    assumptions = ("context switches are explored at line and sampled opcode boundaries of package code and at I/O, lock and pipe events",)
    lists = ("stops",)

    def generate(self, rng, ctx, i, cfg):
        pl = pool.pool(cfg["seed"], 110 if cfg["tier"] == "quick" else 400)
        nt = rng.choice((2, 2, 2, 3))
        threads = []
        base = pl.pick(rng)
        hot = ctx.hot()
        docs = rng.random() < 0.2       # all threads read documents, some of them the same ones
        docops = pl.docops
        if docs and rng.random() < 0.4:
            docops = pl.urlops
        if docs:
            base = rng.choice(docops)
            if rng.random() < 0.35:      # all of them the same document
                docops = [o for o in docops if o["doc"] == base["doc"] and o.get("name") == base.get("name")]
        # swarm: most switches of this run inside one function that reaches shared state
        aim = (rng.choice(sorted(hot)),) if hot and rng.random() < 0.35 else None
        twins = rng.random() < (0.6 if aim else 0.25)      # one call with different knowledge bases, linkers, formats
        if twins:
            base = rng.choice(pl.bases)
        longs = not docs and rng.random() < 0.07
        if longs:
            nt, twins, base = 2, False, pl.longs[0]
        for t in range(nt):
            steps = []
            if longs:
                threads.append([{"op": rng.choice(pl.longs)} for _ in range(rng.choice((1, 1, 2)))])
                continue
            for s in range(rng.choice((1, 1, 2, 3))):
                if twins:
                    steps.append({"op": pl.twin(rng, base)})
                    continue
                if docs and rng.random() < 0.8:
                    op = rng.choice(docops)
                else:
                    op = pl.pick(rng, like=base)
                if s == 0 and (t == 0 or rng.random() < 0.2):
                    op = base
                if docs and op["k"] == "file" and rng.random() < 0.3:
                    op = dict(op, rel=1)
                steps.append({"op": op})
            threads.append(steps)
        stops = []
        mode = rng.random()
        if mode < (0.15 if aim else 0.35):
            k = rng.choice((1, 1, 2, 3, 5, 8, 13, 40, 100))
            where = None
            if rng.random() < 0.8:
                prof = ctx.pristine(base, profile=True)["prof"]
                h = sorted(f for f in prof if f in hot)
                if h and rng.random() < 0.4:
                    where = aim[0] if aim else rng.choice(h)
                else:
                    where = rng.choice(sorted({f.split(":")[0] for f in prof})) if prof else None
            for t in range(nt):
                stops.append({"t": t, "every": k if rng.random() < 0.8 else rng.choice((1, 3, 10))})
                if where:
                    stops[-1]["in"] = where
        else:
            n = rng.choice((1, 2, 3, 4, 6, 8)) if not aim else rng.choice((2, 4, 6, 9))
            for _ in range(n):
                t = rng.randrange(nt)
                s = rng.randrange(len(threads[t]))
                run = ctx.pristine(base if twins else threads[t][s]["op"], profile=True)
                prof = run["prof"]
                st = runner.sample_stop(rng, run, t, s, bias=0.7, hot=hot, only=aim if aim and aim[0] in prof and rng.random() < 0.85 else focus(rng, run))
                if st is None:
                    continue
                st["to"] = rng.choice([x for x in range(nt) if x != t])
                if rng.random() < 0.15:
                    st["g"] = "o"
                    st["n"] = rng.randrange(max(1, min(prof[st["fn"]], 200) * 8))
                stops.append(st)
            if rng.random() < 0.25:
                t = rng.randrange(nt)
                stops.append({"t": t, "io": rng.randrange(12), "to": rng.randrange(nt)})
        return {"threads": threads, "stops": stops, "first": rng.randrange(nt)}

    def execute(self, plan, ctx):
        return pool.exec_threads(plan, ctx)

    def judge(self, plan, hist, ctx):
        return pool.judge_threads(plan, hist, ctx)

    def simplify(self, plan):
        yield from pool.simplify_threads(plan)
        for i, st in enumerate(plan["stops"]):
            if st.get("every") and st["every"] < 200:
                yield dict(plan, stops=plan["stops"][:i] + [dict(st, every=st["every"] * 4)] + plan["stops"][i + 1:])
