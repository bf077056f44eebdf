from .. import corpus, ops, pool, steps
from ..prop import Prop, bad_status
from .c04 import KB

MISS = ("KeyError", "IndexError", "LookupSub")
OTHER = ("LinkerDown", "ValueError", "TypeError", "RuntimeError", "AttributeError", "OSError", "LookupError", "TimeoutError",
         "UnicodeError", "AssertionError", "ConnectionError", "cancel")

# lines whose elements are linked in unusual places
LINES = (
    "[1] Simul. Lett. A 3 (1977) 1; ibid. 4 (1978) 2; ibid. B 5, 6 (1979)",
    "[2] A. One, Phys. Rev. D 55 (1997) 100; 56 (1998) 200; 57 (1999) 300",
    "[3] B. Simbook, Simulated Books of Everything, Simpress 1990; C. Two, hep-th/9901001",
    "[4] D. Knuth, The Art of Simulation (1997); Phys. Lett. B 716 (2012) 30, hep-ph/9901002",
    "[5] E. Three, Simul. Lett. 5 (2003) 6, doi:10.1000/sim.1, doi:10.1000/sim.1; F. Four, arXiv:1503.07589 [hep-th], hep-th/9711200",
    "[6] G. Five, http://sim.example.org/a , Phys. Rev. Lett. 13 (1964) 508, ISBN 978-0-521-67053-1, hdl:10234/2263",
    "[7] H. Six, http://arxiv.org/abs/1207.7214, Nucl. Phys. B 1 (2000) 2; I. Seven, Nucl. Phys. B 1 (2000) 2",
    "[8] J. Eight, private communication; K. Nine, in preparation",
    "[9] L. Ten, Phys. Rev. D 60, 1 (1999) [hep-ph/9907001]; Phys. Rev. D 61, 2 (2000) [hep-ph/9907002]; M. Eleven, SIM-REP-12345",
    "[10] Sim Special 3 (2005) 17 and Sim Special 4 (2007) 21, J. High Energy Phys. 05 (2003) 031",
)


def own(ref, key):
    """Does the reference contain the element a linker was asked about?"""
    t, _, rest = key.partition("|")
    if t == "J":
        title, vol, year, page = rest.split("|")
        ok = title in ref.get("journal_title", ())
        for v, f in ((vol, "journal_volume"), (page, "journal_page")):
            if v and v != "None":
                ok = ok and v in ref.get(f, ())
        return ok
    f, pre = {"R": ("reportnumber", ""), "D": ("doi", "doi:"), "U": ("url", ""), "I": ("isbn", ""), "H": ("hdl", "hdl:"), "B": ("title", "")}[t]
    return pre + rest in ref.get(f, ())


class P(Prop):
    id = "C09"
    quick, thorough = 3200, 60000
    warmable = 0.6
    warm_oracle = True
    rule = ("a run = 1-3 extractions with a linker; at a seeded subset of its invocations (any of first/second linking pass, split citations, "
            "ibids, books) the linker raises a lookup error, or once any other exception; compared with the same call whose linker returns nothing "
            "there; every record id is traced to an invocation for one of the reference's own elements; non-trivial = a linker call failed or a "
            "record id was traced; distinct = distinct event logs")
    components = {"real": ["all refextract code", "pypdf", "libmagic"], "stub": ["the linker callback", "converter delivery"]}
    assumptions = ("the linker is a deterministic function of the element it is given", "the linker does not modify the element",
                   "StopIteration and GeneratorExit are not used as linker failures")

    def generate(self, rng, ctx, i, cfg):
        out = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            kb = KB if rng.random() < 0.6 else corpus.pick_kbs(rng)
            r = rng.random()
            if r < 0.8:
                src = "\n".join(rng.choice(LINES) if rng.random() < 0.6 else corpus.pick_line(rng) for _ in range(rng.choice((1, 1, 2, 3))))
                op = {"k": "string", "src": src, "kbs": kb}
            else:
                t = rng.choice(("txt", "pdf"))
                d = {"t": t, "seed": rng.randrange(12), "nrefs": rng.choice((2, 4))}
                if t == "pdf" and rng.random() < 0.5:
                    d.update(single=1, keys=1, nurls=2)
                op = {"k": "file", "doc": d, "kbs": kb}
            lk = {"mode": "hash", "salt": rng.randrange(3)}
            if rng.random() < 0.1:
                lk = {"mode": "const", "v": 77}
            op["linker"] = lk
            n = len(ctx.pristine(op)["links"])
            q = rng.random()
            calls = {}
            if n and q < 0.75:
                m = rng.choice((1, 1, 1, 2, 3, n))
                for k in sorted(rng.sample(range(n), min(m, n))):
                    calls[str(k)] = rng.choice(MISS)
            if n and q > 0.6 and q < 0.9:
                calls[str(rng.randrange(n))] = rng.choice(OTHER)
            if calls:
                lk["calls"] = calls
            elif rng.random() < 0.5:
                lk["types"] = {rng.choice(("JOURNAL", "REPORTNUMBER", "MISC", "AUTH", "DOI", "BOOK")): rng.choice(MISS)}
            out.append({"op": op})
        return {"steps": out}

    def quiet(self, op):
        l = dict(op["linker"])
        for k in ("calls", "types"):
            if k in l:
                l[k] = {a: ("none" if b in MISS else b) for a, b in l[k].items()}
        return dict(op, linker=l)

    def execute(self, plan, ctx):
        h = steps.exec_steps(plan, ctx)
        pr = {}
        for rec in h["outs"]:
            for n, t, key, v in rec.get("links", ()):
                if isinstance(v, str):
                    h["fired"]["linker." + v[1:]] = h["fired"].get("linker." + v[1:], 0) + 1
                elif v:
                    pr["linked " + t] = pr.get("linked " + t, 0) + 1
        h["probes"] = pr
        h["nontrivial"] = bool(h["fired"]) or bool(pr)
        return h

    def judge(self, plan, hist, ctx):
        if hist["status"] != "ok":
            return bad_status(hist["status"], hist.get("detail"))
        out = []
        for i, (st, rec) in enumerate(zip(plan["steps"], hist["outs"])):
            got, op = rec["out"], st["op"]
            if rec["nlraised"]:
                if "err" not in got:
                    out.append({"cls": "swallowed", "what": "call %d: an exception of the linker that is no lookup error was swallowed" % i})
                elif not rec["through"]:
                    out.append({"cls": "changed", "what": "call %d: the linker's exception reached the caller as %s" % (i, got["err"])})
                continue
            exp = ctx.pristine(self.quiet(op))["out"]
            if not ops.same(exp, got):
                out.append({"cls": "diff", "what": "call %d: result differs from the one with a linker that finds nothing at those calls" % i,
                            "diff": pool.diff(exp, got)})
            if "ok" in got:
                vals = {}
                for n, t, key, v in rec["links"]:
                    if v and not isinstance(v, str):
                        vals.setdefault(str(v), []).append(key)
                for ref in got["ok"]:
                    for r in ref.get("recid", ()):
                        if not any(own(ref, k) for k in vals.get(r, ())):
                            out.append({"cls": "foreign", "what": "call %d: a reference carries record id %s, which the linker did not return "
                                        "for any of its elements" % (i, r), "diff": [pool.clip(ref, 400), pool.clip(vals.get(r), 200)]})
        return out

    def simplify(self, plan):
        import copy
        for i, st in enumerate(plan["steps"]):
            for k in list(st["op"]["linker"].get("calls", ())):
                ns = copy.deepcopy(plan["steps"])
                del ns[i]["op"]["linker"]["calls"][k]
                yield dict(plan, steps=ns)
        for c in steps.simplify_steps(plan):
            if all(s["op"].get("linker") for s in c["steps"]):
                yield c
