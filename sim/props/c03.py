from .. import pool, runner
from ..prop import Prop
from .c01 import focus
from .c02 import bad_op

EXC = ("timeout", "cancel", "interrupt", "memory", "timeout", "recursion")


class P(Prop):
    id = "C03"
    quick, thorough = 2000, 30000
    warmable = 0.4
    rule = ("a run = 0-2 calls, then 1-5 calls into which an asynchronous exception is raised at a seeded line event of the package, then "
            "1-3 further calls, each compared with the same call in a fresh process; sometimes with a second thread running; "
            "non-trivial = the abort actually fired inside a call and a later call was judged; distinct = distinct event logs")
    components = {"real": ["all refextract code", "pypdf", "libmagic", "pdftotext output (memoised)"],
                  "stub": ["delivery of the asynchronous exception", "thread scheduling", "threading locks", "pdftotext process delivery"]}
    assumptions = ("aborts are delivered at line boundaries of package code, not inside with/try statement headers, except or finally "
                   "bodies (where CPython itself cannot guarantee clean-up) and not inside third-party code",)
    lists = ("stops",)

    def generate(self, rng, ctx, i, cfg):
        pl = pool.pool(cfg["seed"], 110 if cfg["tier"] == "quick" else 400)
        docs = rng.random() < 0.28
        base = rng.choice(pl.docops) if docs else pl.pick(rng)
        steps = []
        stops = []
        for _ in range(rng.choice((0, 0, 1, 2))):
            steps.append({"op": pl.pick(rng, like=base)})
        for a in range(rng.choice((1, 1, 1, 2, 3, 5))):
            op = base if a == 0 or rng.random() < 0.4 else pl.pick(rng, like=base)
            run = ctx.pristine(op, profile=True)
            only = focus(rng, run)
            if docs and rng.random() < 0.5:
                # functions that only run for whole documents
                other = ctx.pristine(pl.bases[0], profile=True)["prof"]
                only = [f for f in run["prof"] if f not in other] or None
            st = runner.sample_stop(rng, run, 0, len(steps), act="raise", bias=0.75, hot=ctx.hot(), only=only)
            steps.append({"op": op})
            if st:
                st["exc"] = rng.choice(EXC)
                stops.append(st)
        # the call most exposed to what the abort left: same KBs or same text
        for k in range(rng.choice((1, 2, 3)) if not docs else rng.choice((2, 3, 4))):
            op = base if (k == 0 and rng.random() < 0.6) else pl.pick(rng, like=base)
            if rng.random() < 0.1:
                op = pl.twin(rng, rng.choice(pl.bases))
            if docs and rng.random() < 0.75:
                op = rng.choice(pl.docops)
                if op["k"] == "file" and rng.random() < 0.5:
                    op = dict(op, rel=1)
            steps.append({"op": op})
        threads = [steps]
        if rng.random() < 0.25:
            threads.append([{"op": pl.pick(rng, like=base)} for _ in range(rng.choice((1, 2)))])
            run = ctx.pristine(base, profile=True)
            for _ in range(2):
                st = runner.sample_stop(rng, run, 0, rng.randrange(len(steps)), hot=ctx.hot(), only=focus(rng, run))
                if st:
                    st["to"] = 1
                    stops.append(st)
        return {"threads": threads, "stops": stops}

    def execute(self, plan, ctx):
        h = pool.exec_threads(plan, ctx)
        seen = False
        nt = False
        for o in h["outs"]:
            if o.get("hit"):
                seen = True
            elif seen and "out" in o:
                nt = True
        h["nontrivial"] = nt
        return h

    def judge(self, plan, hist, ctx):
        return pool.judge_threads(plan, hist, ctx)

    def simplify(self, plan):
        yield from pool.simplify_threads(plan)
