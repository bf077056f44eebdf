from .. import corpus, ops, pool, steps
from ..prop import Prop, bad_status
from .c04 import KB

SCATTERED = (0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 17, 18)
CHUNKS = (1, 2, 3, 10, 100, 511, 1000, 4096, 8192)


def make_doc(rng):
    r = rng.random()
    if r < 0.03:       # more text than any buffer holds
        return {"t": rng.choice(("pdf", "pdf", "txt")), "seed": rng.randrange(2), "nrefs": 3, "single": 1, "body": rng.choice((900, 1500, 3000))}
    if r < 0.4:
        d = {"t": "pdf", "seed": rng.randrange(16), "nrefs": rng.choice((2, 4, 8)), "single": 1}
        if rng.random() < 0.5:
            d["keys"] = 1
            d["nurls"] = 3
        if rng.random() < 0.2:
            d["lead"] = 25
        if rng.random() < 0.2:
            d["trail"] = 50
        if rng.random() < 0.3:
            d["body"] = 150       # several pages
        if rng.random() < 0.35:
            d["uni"] = 1
        return d
    if r < 0.7:
        d = {"t": "pdf", "seed": rng.choice(SCATTERED), "nrefs": 2, "single": 1, "scattered": 2, "body": 3}
        if d["seed"] % 2:
            d.update(keys=1, nurls=2)
        return d
    d = {"t": "txt", "seed": rng.randrange(16), "nrefs": rng.choice((2, 6)), "single": 1, "body": rng.choice((5, 200))}
    if rng.random() < 0.4:
        # mostly references: a part of it still looks like a complete document
        d.update(seed=rng.randrange(4), nrefs=24, body=2)
    if rng.random() < 0.4:
        d["uni"] = 1
    if rng.random() < 0.3:
        d["nl"] = "\r\n"
    if rng.random() < 0.25:
        d["pages"] = rng.choice((4, 7, 15))
    elif rng.random() < 0.25:
        d["shape"] = rng.choice(ops.SHAPES)
        d["single"] = rng.choice((0, 1))
    return d


def stripped(out):
    """Without what link enrichment adds."""
    if "ok" not in out or not isinstance(out["ok"], list):
        return out
    return {"ok": [{k: v for k, v in r.items() if k not in ("texkey", "url")} for r in out["ok"]]}


class P(Prop):
    id = "C06"
    quick, thorough = 3600, 50000
    warmable = 0.7
    warm_oracle = True
    rule = ("a run = 1-2 file extractions whose text arrives in seeded pieces from the converter (pipe segmentation, capacity, late exit) or "
            "from short reads; faults: converter killed or failing after part of its output in the first or second pass, not startable, read "
            "errors; non-trivial = a fault or segmentation took effect; distinct = distinct event logs")
    components = {"real": ["all refextract code", "pdftotext (its output bytes)", "pypdf", "libmagic", "scratch file system"],
                  "stub": ["delivery, exit status and life time of the converter process", "read errors and short reads"]}
    assumptions = ("a converter that exits with status 0 has delivered its complete output",
                   "a converter that fails without any output is treated as a document without text (as before)",
                   "reads made inside libmagic's C code are not faulted")

    def generate(self, rng, ctx, i, cfg):
        out = []
        for _ in range(rng.choice((1, 1, 2))):
            doc = make_doc(rng)
            op = {"k": "file", "doc": doc, "kbs": KB}
            if rng.random() < 0.2:
                op["rel"] = 1
            if rng.random() < 0.3:
                op["fmt"] = rng.choice(corpus.FORMATS)
            st = {"op": op}
            conv = [{}, {}]
            for c in conv:
                if rng.random() < 0.6:
                    c["chunks"] = [rng.choice(CHUNKS) for _ in range(rng.choice((1, 2, 3)))]
                    if max(c["chunks"]) < 10:
                        c["chunks"].append(500)
                    if doc.get("body", 0) >= 900:
                        c["chunks"] = [max(x, 4096) for x in c["chunks"]]
                if rng.random() < 0.3:
                    c["lag"] = rng.choice((1, 3))
                if rng.random() < 0.15:
                    c["slow"] = rng.choice((2, 20, 45, 45, 400, 5000))
                if rng.random() < 0.5:
                    c["cap"] = rng.choice((512, 4096))
            r = rng.random()
            if doc["t"] == "pdf" and r < 0.5:
                c = conv[1 if (doc.get("scattered") and rng.random() < 0.6) else 0]
                q = rng.random()
                if q < 0.85:
                    c["die"] = rng.random() if rng.random() < 0.8 else rng.choice((0.99, 0.999, 0.01))
                    c["rc"] = rng.choice((-9, -11, -15, -6, 1, 2, 99))
                    if rng.random() < 0.5:
                        c["atline"] = 1
                else:
                    c["spawn"] = rng.choice(("EAGAIN", "ENOMEM", "ENOENT"))
            elif r < 0.8:
                st["shorts"] = {"doc": 150 if doc["nrefs"] > 8 else 1000 if doc.get("body", 0) < 900 else 8000}
                cnt = steps.dry({"op": op, "shorts": st["shorts"]}, ctx)["counts"]
                st["faults"] = steps.gen_faults(rng, cnt, 1, classes=("doc", "pipe"), ops_=("read", "open"))
                for f in st["faults"]:
                    # a bad sector stays bad: every read from there on fails
                    if f["at"].endswith(".read") and rng.random() < 0.35:
                        f["sticky"] = True
            else:
                st["shorts"] = {"doc": rng.choice((1, 2, 3, 10, 1000) if doc.get("body", 0) < 900 else (1000, 8000))}
            if doc["t"] == "pdf":
                st["converter"] = conv
            out.append(st)
        return {"steps": out}

    def execute(self, plan, ctx):
        h = steps.exec_steps(plan, ctx)
        pr = {}
        for st, o in zip(plan["steps"], h["outs"]):
            if "out" in o:
                k = ("second_pass " if o["nconv"] > 1 else "") + ("returned" if "ok" in o["out"] else "raised")
                pr[k] = pr.get(k, 0) + 1
            if st.get("shorts"):
                pr["short_reads"] = pr.get("short_reads", 0) + 1
        h["probes"] = pr
        h["nontrivial"] = h["nontrivial"] or bool(pr.get("short_reads"))
        return h

    def judge(self, plan, hist, ctx):
        if hist["status"] != "ok":
            return bad_status(hist["status"], hist.get("detail"))
        out = []
        for i, (st, rec) in enumerate(zip(plan["steps"], hist["outs"])):
            exp = ctx.pristine(st["op"])["out"]
            got = rec["out"]
            bad = [k for k in rec["fired"] if k.startswith(("proc.die", "proc.spawn", "doc.", "pipe."))]
            if bad or "proc.slow:very" in rec["fired"]:
                if "ok" in got and not ops.same(stripped(exp), stripped(got)):
                    if any(c.get("die") is not None and c.get("rc", -9) > 0 and self.empty(c, rec, j)
                           for j, c in enumerate(st.get("converter") or ())):
                        continue
                    out.append({"cls": "partial", "what": "call %d: references of a partial document were returned (%s)" % (i, sorted(bad)),
                                "diff": pool.diff(stripped(exp), stripped(got))})
            elif not ops.same(exp, got):
                out.append({"cls": "diff", "what": "call %d: result depends on how the text was delivered" % i, "diff": pool.diff(exp, got)})
        return out

    def empty(self, c, rec, j):
        """The failing conversion produced no output at all."""
        return j in rec.get("empty", ())

    def simplify(self, plan):
        yield from steps.simplify_steps(plan)
