from .. import corpus, ops, pool, steps
from ..prop import Prop, bad_status
from .c04 import KB
from .c06 import SCATTERED

ANNOT = (True, "noaction", "nullaction", "numaction", "norect", "badrect", "numuri", "byteuri", "nulluri", "array", "null")
DEST = ("null", "fit", "page", "bytes", "name", "int")
DAMAGE = ("annots_missing_obj", "names_loop", "names_null", "names_odd", "nocrop")
LINKS = ("words", "keys", "nurls", "bad_annot", "bad_dest", "damage", "tree")


def plain(op):
    """The same document text without any link data."""
    return dict(op, doc={k: v for k, v in op["doc"].items() if k not in LINKS})


class P(Prop):
    id = "C13"
    quick, thorough = 2600, 40000
    warmable = 0.7
    warm_oracle = True
    rule = ("a run = 1-2 extractions from PDFs with link data (destinations, URI annotations; intact or damaged in seeded ways) where opening, "
            "reading or seeking the document fails at a seeded operation of the enrichment pass, or the document disappears or changes after its "
            "conversion, or an allocation fails; compared with the same text in a PDF without link data; non-trivial = fault or damage present; "
            "distinct = distinct event logs")
    components = {"real": ["all refextract code", "pypdf", "libmagic", "pdftotext output (memoised)", "scratch file system"],
                  "stub": ["open/read/seek errors of the document", "disappearing documents", "converter delivery"]}
    assumptions = ("faults hit the document only after its conversion to text is complete",)

    def generate(self, rng, ctx, i, cfg):
        out = []
        for _ in range(rng.choice((1, 1, 2))):
            d = {"t": "pdf", "seed": rng.randrange(14), "nrefs": rng.choice((2, 3, 5)), "single": rng.choice((1, 2, 2)),
                 "keys": rng.choice((1, 1, 1, 1, "blank", "blank", "fewer")),
                 "nurls": rng.choice((0, 2, 5))}
            r = rng.random()
            if r < 0.15:
                d.update(seed=rng.choice(SCATTERED), nrefs=2, scattered=2, body=3, single=1)
            elif r < 0.3:
                d["body"] = 120
            elif r < 0.4:
                d["lead"] = 20
            elif r < 0.5:
                d.update(nrefs=rng.choice((6, 8)), cols=rng.choice((6, 8)), body=4, nurls=rng.choice((3, 8)))
            elif r < 0.6:
                d.update(nrefs=rng.choice((4, 7)), pp=rng.choice((10, 12)), body=4, nurls=rng.choice((3, 8)))
            if rng.random() < 0.25:
                d["words"] = 1
            if rng.random() < 0.2:
                d["tree"] = False
            q = rng.random()
            if q < 0.2:
                d["bad_annot"] = rng.choice(ANNOT)
            elif q < 0.4:
                d["bad_dest"] = rng.choice(DEST)
            elif q < 0.55:
                d["damage"] = rng.choice(DAMAGE)
            op = {"k": "file", "doc": d, "kbs": KB}
            if rng.random() < 0.3:
                op["linker"] = {"mode": "hash", "salt": 1}
            if rng.random() < 0.3:
                op["fmt"] = rng.choice(corpus.FORMATS)
            st = {"op": op}
            q = rng.random()
            if q < 0.7:
                if q < 0.5:
                    st["shorts"] = {"doc": rng.choice((100, 1000, 8192))}
                dr = steps.dry(dict(st), ctx)
                if q < 0.6:
                    st["faults"] = steps.gen_faults(rng, dr["counts"], rng.choice((1, 1, 2)), classes=("doc",), ops_=("open", "read", "seek"))
                    for f in st["faults"]:
                        f["conv"] = max(1, dr["nconv"])
                        if rng.random() < 0.3:
                            f["sticky"] = True
                            f["n"] = 0
                else:
                    st["vanish"] = {"conv": max(1, dr["nconv"]), "how": rng.choice(("unlink", "empty", "half", "text", "zeros"))}
            out.append(st)
        return {"steps": out}

    def execute(self, plan, ctx):
        h = steps.exec_steps(plan, ctx)
        for st in plan["steps"]:
            for k in ("bad_annot", "bad_dest", "damage"):
                if st["op"]["doc"].get(k):
                    f = "%s.%s" % (k, st["op"]["doc"][k])
                    h["fired"][f] = h["fired"].get(f, 0) + 1
        pr = {}
        for o in h["outs"]:
            if "ok" in o.get("out", ()):
                k = "enriched" if any("texkey" in r for r in o["out"]["ok"]) else "not enriched"
                pr[k] = pr.get(k, 0) + 1
        h["probes"] = pr
        h["nontrivial"] = bool(h["fired"])
        return h

    def judge(self, plan, hist, ctx):
        if hist["status"] != "ok":
            return bad_status(hist["status"], hist.get("detail"))
        out = []
        for i, (st, rec) in enumerate(zip(plan["steps"], hist["outs"])):
            got = rec["out"]
            exp = ctx.pristine(plain(st["op"]))["out"]
            if "ok" not in exp:
                continue
            if "ok" not in got:
                out.append({"cls": "lost", "what": "call %d raised %s (%s) because of the link data" % (i, got["err"], got.get("msg"))})
                continue
            a = [{k: v for k, v in r.items() if k not in ("texkey", "url")} for r in exp["ok"]]
            b = [{k: v for k, v in r.items() if k not in ("texkey", "url")} for r in got["ok"]]
            if a != b:
                out.append({"cls": "fields", "what": "call %d: references differ from those of the same document without link data" % i,
                            "diff": pool.diff(a, b)})
                continue
            for x, y in zip(exp["ok"], got["ok"]):
                bad = [u for u in y.get("url", ()) if not isinstance(u, str)]
                if bad:
                    out.append({"cls": "nourl", "what": "call %d: link data that is no URL was added to a reference" % i, "diff": [pool.clip(bad)]})
                elif not set(x.get("url", ())) <= set(y.get("url", ())):
                    out.append({"cls": "urls", "what": "call %d: a URL of the text was lost" % i, "diff": pool.diff(x.get("url"), y.get("url"))})
        return out

    def simplify(self, plan):
        import copy
        yield from steps.simplify_steps(plan)
        for i, st in enumerate(plan["steps"]):
            for k in ("damage", "bad_dest", "bad_annot", "nurls", "words", "lead", "tree"):
                if k in st["op"]["doc"]:
                    ns = copy.deepcopy(plan["steps"])
                    del ns[i]["op"]["doc"][k]
                    yield dict(plan, steps=ns)
            if "vanish" in st:
                ns = copy.deepcopy(plan["steps"])
                del ns[i]["vanish"]
                yield dict(plan, steps=ns)
