from .. import corpus, ops, pool, runner, steps
from ..prop import Prop, bad_status
from .c04 import make_url_op

JKB = {"journals": ["dict", 0]}
API_FNS = ("extract_references_from_string", "extract_references_from_url", "extract_references_from_file", "extract_journal_reference")
EXC = ("fault", "fault", "memory", "recursion", "oserror", "runtime")


def armed(frame):
    """Only below one of the documented entry points, and not in best-effort enrichment (C13)."""
    f = frame
    ok = False
    while f is not None:
        fn = f.f_code.co_filename
        if fn.endswith("references/pdf.py"):
            return False
        if f.f_code.co_name in API_FNS and fn.endswith("references/api.py"):
            ok = True
        f = f.f_back
    return ok


ITEMS = ("", " ", "no reference here", "[1]", "\n", "[1] A. Author, Simul. Lett. 1 (2000) 2\n[2] B. Author, Phys. Rev. D 55 (1997) 100", None, 7, ["x"], {"a": 1})


class P(Prop):
    id = "C08"
    quick, thorough = 1100, 40000
    warmable = 0.6
    warm_oracle = True
    rule = ("a run = 1-2 calls of the service functions on a seeded batch (good, empty, multi-reference and unusable items) with 0-4 exceptions "
            "raised at seeded line events inside the library below the documented entry points, or bad KB data, or network and disk faults; each "
            "entry is compared with the item processed alone in a fresh process; non-trivial = something failed; distinct = event logs")
    components = {"real": ["all refextract code", "requests", "pypdf", "libmagic"],
                  "stub": ["the failure injected inside the library", "TCP sockets and server", "disk errors", "converter delivery"]}
    assumptions = ("injected failures are Exceptions that the library does not itself use for control flow, raised at line boundaries",
                   "failures inside best-effort PDF enrichment are covered by C13")

    def alone(self, op, item):
        if op["k"] == "x_list":
            return dict(op, items=[item])
        return dict(op, infos=[item])

    def generate(self, rng, ctx, i, cfg):
        out = []
        stops = []
        for s in range(rng.choice((1, 1, 2))):
            kb = rng.choice((JKB, JKB, {"journals": ["list", 1]}, {"journals": ["path", 2]}, {}))
            r = rng.random()
            st = {}
            if r < 0.5:
                n = rng.choice((1, 2, 3, 4, 6))
                items = []
                for _ in range(n):
                    items.append(rng.choice(ITEMS) if rng.random() < 0.25 else corpus.pick_line(rng))
                op = {"k": "x_list", "items": items, "kbs": kb}
            elif r < 0.72:
                infos = []
                for _ in range(rng.choice((1, 2, 3, 5))):
                    q = rng.random()
                    if q < 0.15:
                        infos.append({})
                    elif q < 0.22:
                        infos.append({"pubinfo_freetext": ""})
                    elif q < 0.3:
                        infos.append(rng.choice(({"pubinfo_freetext": 5}, None, {"year": 1999}, {"pubinfo_freetext": "nothing"})))
                    else:
                        infos.append({"pubinfo_freetext": corpus.strip_marker(corpus.pick_line(rng))})
                op = {"k": "x_jinfo", "infos": infos, "kbs": kb}
            elif r < 0.85:
                op = {"k": "x_text", "src": rng.choice((corpus.pick_source(rng), corpus.pick_source(rng), "", None, 3)), "kbs": kb}
            else:
                u, doc, final = make_url_op(rng)
                op = {"k": "x_url", "url": u["url"], "serve": u["serve"], "kbs": kb}
                st["doc"] = doc
                q = rng.random()
                if q < 0.2:
                    final["status"] = rng.choice((404, 500))
                    final["tags"] = ["status"]
                elif q < 0.4:
                    final["cut"] = {"where": rng.choice(("head", "body")), "frac": rng.random(), "end": rng.choice(("reset", "timeout"))}
                    final["tags"] = ["cut." + final["cut"]["end"]]
                elif q < 0.5:
                    st["faults"] = [{"at": rng.choice(("net.dns", "net.connect")), "n": 0, "kind": "refused"}]
                elif q < 0.8:
                    cnt = steps.dry({"op": op}, ctx)["counts"]
                    st["faults"] = steps.gen_faults(rng, cnt, 1, classes=("tmp",), ops_=("creat", "openw", "write"))
            st["op"] = op
            q = rng.random()
            if q < 0.15:
                bad = rng.choice((["missing"], ["lit", "list", [["lonely"]]], ["lit", "list", [["A", "B"], ["c"]]],
                                  ["lit", "path", "A---B\nmalformed\n"], ["lit", "dict", {"A": None}], ["lit", "int", 5]))
                op["kbs"] = {"journals": bad}
            elif q < 0.3 and op["k"] != "x_url":
                cnt = steps.dry({"op": op, "shorts": {"kb": 400}}, ctx)["counts"]
                st["shorts"] = {"kb": 400}
                st["faults"] = steps.gen_faults(rng, cnt, rng.choice((1, 1, 2)), classes=("kb",), ops_=("open", "read"))
            elif q < 0.85 and op["k"] != "x_url" or q < 0.4:
                run = ctx.pristine(op, profile=True)
                for _ in range(rng.choice((1, 1, 2, 3, 4))):
                    sp = runner.sample_stop(rng, run, 0, s, act="raise", bias=0.6)
                    if sp:
                        sp["exc"] = rng.choice(EXC)
                        stops.append(sp)
            out.append(st)
        return {"steps": out, "stops": stops}

    def execute(self, plan, ctx):
        h = steps.exec_steps(plan, ctx, armed=armed)
        h["nontrivial"] = bool(h["fired"]) or any("lit" in ops.canon(s["op"].get("kbs")) or "missing" in ops.canon(s["op"].get("kbs"))
                                                 or s["op"]["k"] in ("x_list",) for s in plan["steps"])
        return h

    def judge(self, plan, hist, ctx):
        if hist["status"] != "ok":
            return bad_status(hist["status"], hist.get("detail"))
        out = []
        for i, (st, rec) in enumerate(zip(plan["steps"], hist["outs"])):
            op, got = st["op"], rec["out"]
            if "err" in got:
                out.append({"cls": "raised", "what": "call %d: %s raised %s (%s)" % (i, op["k"], got["err"], got.get("msg"))})
                continue
            got = got["ok"]
            hits = rec["nraise"] + sum(v for k, v in rec["fired"].items())
            if op["k"] == "x_list":
                refs = (got or {}).get("extracted_references") if isinstance(got, dict) else None
                if not isinstance(refs, list) or len(refs) != len(op["items"]):
                    out.append({"cls": "alignment", "what": "call %d: %d items gave %s entries" % (
                        i, len(op["items"]), len(refs) if isinstance(refs, list) else None)})
                    continue
                wrong = 0
                for j, (item, entry) in enumerate(zip(op["items"], refs)):
                    e = ctx.pristine(self.alone(op, item))["out"]
                    exp = e["ok"]["extracted_references"][0] if "ok" in e and e["ok"].get("extracted_references") else {"raw_ref": [item]}
                    if entry == exp:
                        continue
                    if hits and entry == {"raw_ref": [item]}:
                        wrong += 1
                        continue
                    out.append({"cls": "entry", "what": "call %d, item %d: entry is neither the item's own extraction nor its raw text" % (i, j),
                                "diff": pool.diff(exp, entry)})
                if wrong > hits:
                    out.append({"cls": "spread", "what": "call %d: %d items degraded after %d failures" % (i, wrong, hits)})
            elif op["k"] == "x_jinfo":
                if got is None:
                    if not hits:
                        e = [ctx.pristine(self.alone(op, x))["out"] for x in op["infos"]]
                        if all(x.get("ok") for x in e):
                            out.append({"cls": "lost", "what": "call %d: nothing returned although no item fails" % i})
                    continue
                l = got.get("extracted_publication_infos")
                if not isinstance(l, list) or len(l) != len(op["infos"]):
                    out.append({"cls": "alignment", "what": "call %d: %d infos gave %s entries" % (
                        i, len(op["infos"]), len(l) if isinstance(l, list) else None)})
                    continue
                for j, (info, entry) in enumerate(zip(op["infos"], l)):
                    e = ctx.pristine(self.alone(op, info))["out"]
                    exp = e["ok"]["extracted_publication_infos"][0] if e.get("ok") else None
                    if entry != exp:
                        out.append({"cls": "entry", "what": "call %d, info %d differs from the info processed alone" % (i, j),
                                    "diff": pool.diff(exp, entry)})
            else:
                if op["k"] == "x_url":
                    e = ctx.pristine({"k": "file", "doc": st["doc"], "kbs": op["kbs"], "fmt": "{title},{volume},{page}"})["out"]
                    status_bad = any(k.startswith("net.") for k in rec["fired"])
                    hits = hits or status_bad
                else:
                    e = ctx.pristine({"k": "string", "src": op["src"], "kbs": op["kbs"], "fmt": "{title},{volume},{page}"})["out"]
                exp = {"extracted_references": e["ok"]} if "ok" in e else None
                if got == exp or (got is None and hits):
                    continue
                out.append({"cls": "diff:" + op["k"], "what": "call %d: %s returned neither the complete extraction nor nothing" % (i, op["k"]),
                            "diff": pool.diff(exp, got)})
        return out

    lists = ("stops",)

    def simplify(self, plan):
        yield from steps.simplify_steps(plan)
