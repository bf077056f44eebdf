"""Base class of the per-property modules."""
import copy


def shrink_list(lst):
    """Candidate sublists: halves first, then single removals."""
    n = len(lst)
    if n == 0:
        return
    if n > 3:
        yield lst[: n // 2]
        yield lst[n // 2:]
    for i in range(n - 1, -1, -1):
        yield lst[:i] + lst[i + 1:]


class Prop:
    id = None
    quick = 200          # number of simulated runs
    thorough = 5000
    quick_s = 150.0      # soft deadline
    thorough_s = 1500.0
    technique = "deterministic simulation with fault injection"
    components = {"real": [], "stub": []}
    rule = ""
    assumptions = ()
    lists = ("stops", "faults")
    min_lists = {}
    warmable = 0         # share of runs in a process that has already served calls
    warm_oracle = False  # the reference process has already served calls, too

    def generate(self, rng, ctx, i, cfg):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def judge(self, plan, hist, ctx):
        raise NotImplementedError

    def stats(self, plan, hist):
        return {"faults": hist.get("fired", {}), "inter": hist.get("inter"), "nontrivial": bool(hist.get("nontrivial")),
                "simtime": hist.get("simtime", 0), "probes": hist.get("probes", {}), "events": hist.get("events", 0)}

    def reductions(self, plan):
        if plan.get("lib"):
            yield {k: v for k, v in plan.items() if k != "lib"}
        if plan.get("warm"):
            yield {k: v for k, v in plan.items() if k != "warm"}
        for key in self.lists:
            lst = plan.get(key)
            if not isinstance(lst, list):
                continue
            lo = self.min_lists.get(key, 0)
            for cand in shrink_list(lst):
                if len(cand) >= lo:
                    yield dict(plan, **{key: cand})
        yield from self.simplify(plan)

    def simplify(self, plan):
        return ()


def bad_status(st, val, what="run"):
    """Violations implied by how the child ended (None if it ended normally)."""
    if st == "ok":
        return None
    if st == "stuck":
        return [{"cls": "stuck", "what": f"{what}: a call blocks for ever: {val}"}]
    if st == "hang":
        return [{"cls": "hang", "what": f"{what}: no progress within the time limit"}]
    if st.startswith("died"):
        return [{"cls": "died", "what": f"{what}: the process was killed ({st})"}]
    return None
