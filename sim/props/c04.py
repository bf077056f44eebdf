from urllib.parse import quote

from .. import corpus, ops, pool, steps
from ..prop import Prop, bad_status

KB = {t: ["list" if t in ("books",) or t in corpus.LINE_TYPES else "dict", 0] for t in corpus.KB_TYPES}
NAMES = ("paper.pdf", "1503.07589", "1503.07589.pdf", "doc.txt", "", "a%20b.pdf", "download?id=3&x=a.pdf", "n" * 180 + ".pdf",
         "x" * 255, "q?" + "long=" + "y" * 400, "weird;name=1", "tilde~file", "frag.pdf#page=2", "dots..pdf", "paper.ps.gz", "doc.txt.gz", "index.html", "PAPER.PDF", "paper.tar", "%2Fslash", "\u00e9t\u00e9.pdf", "\u4e2d" * 120 + ".pdf")
SIZES = (1, 2, 3, 7, 64, 100, 500, 1000, 1024, 1460, 4096, 65536)


def make_doc(rng):
    r = rng.random()
    if rng.random() < 0.06:
        return {"t": "txt", "seed": rng.randrange(4), "nrefs": 2, "single": 1, "uni": 1,
                "wrap": rng.choice(("gz", "bom", "html", "latin-1", "utf-16"))}
    if r < 0.012:
        return {"t": rng.choice(("pdf", "txt")), "seed": rng.randrange(2), "nrefs": 2, "single": 1, "size": 1300000}
    if r < 0.55:
        d = {"t": "pdf", "seed": rng.randrange(12), "nrefs": rng.choice((1, 3, 5)), "single": 1}
        if rng.random() < 0.5:
            d["keys"] = 1
            d["nurls"] = 2
        if rng.random() < 0.25:
            d["lead"] = 30
        if rng.random() < 0.25:
            d["trail"] = 300
        return d
    if r < 0.9:
        d = {"t": "txt", "seed": rng.randrange(12), "nrefs": rng.choice((1, 4)), "single": 1}
        if rng.random() < 0.4:
            d["uni"] = 1
        if rng.random() < 0.3:
            d["nl"] = "\r\n"
        return d
    if r < 0.95:
        return {"t": "bin", "seed": rng.randrange(4)}
    return {"t": "raw", "b64": ""}


def make_response(rng, doc):
    r = {"status": rng.choice((200, 200, 200, 203)), "doc": doc, "framing": rng.choice(("length", "length", "chunked", "close"))}
    if r["framing"] == "chunked":
        r["chunks"] = [rng.choice(SIZES) for _ in range(rng.choice((1, 2, 5)))]
        if rng.random() < 0.2:
            r["chunkext"] = 1
    if rng.random() < 0.25:
        r["gzip"] = 1
    if rng.random() < 0.7:
        r["segs"] = [rng.choice(SIZES) for _ in range(rng.choice((1, 2, 4)))]
        if sum(r["segs"]) < 20 * len(r["segs"]) and rng.random() < 0.7:
            r["segs"].append(4096)
    if doc.get("size"):
        for k in ("segs", "chunks"):
            if k in r:
                r[k] = [max(v, 16384) for v in r[k]]
    r["headers"] = {"Content-Type": rng.choice(("application/pdf", "text/plain", "text/html", "application/octet-stream",
                                                "text/plain; charset=latin-1", "text/plain; charset=utf-8", "application/gzip"))}
    if rng.random() < 0.06:
        del r["headers"]["Content-Type"]
    if rng.random() < 0.15:
        r["headers"]["Content-Disposition"] = "attachment; filename=other.pdf"
    return r


def make_url_op(rng, doc=None, kbs=KB):
    doc = doc or make_doc(rng)
    base = "http://h%d.example.org/" % rng.randrange(3)
    if rng.random() < 0.3:
        base += "some/dir/"
    url = base + rng.choice(NAMES)
    op = {"k": "url", "url": url, "kbs": kbs}
    if rng.random() < 0.7:
        op["chunk"] = rng.choice(SIZES if not doc.get("size") else (4096, 65536, 2000000))
    if rng.random() < 0.3:
        op["headers"] = {"Accept": "application/pdf", "X-Sim": "1"}
    if rng.random() < 0.4:
        op["fmt"] = rng.choice(corpus.FORMATS)
    if rng.random() < 0.2:
        op["linker"] = {"mode": "hash", "salt": 1}
    if rng.random() < 0.1:
        op["recid"] = 7
    final = make_response(rng, doc)
    serve = []
    cur = url if url.isascii() else quote(url, safe=":/")
    for k in range(rng.choice((0, 0, 0, 1, 2))):
        nxt = "http://r%d.example.org/hop%d" % (k, k)
        serve.append({"url": cur, "seq": [{"status": rng.choice((301, 302, 303, 307, 308)), "headers": {"Location": nxt},
                                           "body": "moved", "framing": "length"}]})
        cur = nxt
    serve.append({"url": cur, "seq": [final]})
    op["serve"] = serve
    return op, doc, final


class P(Prop):
    id = "C04"
    quick, thorough = 3600, 40000
    warmable = 0.7
    warm_oracle = True
    rule = ("a run = 1-3 URL extractions in one process against a scripted server: seeded framing, segmentation, compression, redirects, "
            "chunk sizes, URLs; faults: cut transfers, resets, timeouts, refusals, name-resolution failures, error statuses, disk errors of "
            "the local copy; non-trivial = a network or disk fault or a non-default segmentation was in effect; distinct = distinct event logs")
    components = {"real": ["all refextract code", "requests", "urllib3", "http.client", "pypdf", "libmagic", "scratch file system"],
                  "stub": ["TCP sockets and name resolution", "HTTP server", "pdftotext process delivery (output is real)", "temporary names",
                           "write errors"]}
    assumptions = ("plain http only (TLS is requests' business)", "a close-delimited body cut by an orderly close cannot be detected by any "
                   "client and is not injected", "a repeated attempt that delivers the complete document is accepted")

    def generate(self, rng, ctx, i, cfg):
        out = []
        for s in range(rng.choice((1, 1, 2, 3))):
            op, doc, final = make_url_op(rng)
            st = {"op": op, "doc": doc, "expect": "same", "faults": []}
            r = rng.random()
            if r < 0.12:
                final["status"] = rng.choice((400, 401, 403, 404, 404, 410, 429, 500, 502, 503)) if rng.random() < 0.6 else rng.randrange(400, 600)
                if rng.random() < 0.5:
                    final["doc"] = {"t": "txt", "seed": 1, "nrefs": 3, "single": 1}
                final["tags"] = ["status"]
                st["expect"] = "http"
            elif r < 0.34:
                cut = {"where": rng.choice(("head", "body", "body", "body")), "frac": rng.random(),
                       "end": rng.choice(("fin", "reset", "timeout"))}
                if cut["where"] == "body" and rng.random() < 0.3:
                    cut["drop"] = rng.choice((1, 2, 5, 6))
                if len(ops.doc_bytes(doc)) < 10:
                    cut["where"] = "head"
                    cut.pop("drop", None)
                if final["framing"] == "close" and cut["end"] == "fin" and cut["where"] == "body":
                    cut["end"] = "reset"
                final["cut"] = cut
                final["tags"] = ["cut." + cut["end"]]
                st["expect"] = "raise"
            elif r < 0.46:
                k = rng.choice(("net.dns", "net.connect", "net.send", "net.recv"))
                kind = {"net.dns": ("fail",), "net.connect": ("refused", "timeout", "unreach"), "net.send": ("reset",),
                        "net.recv": ("reset", "timeout")}[k]
                n = 0 if k != "net.recv" else rng.choice((0, 0, 1, 2, 5, 20))
                st["faults"] = [{"at": k, "n": n, "kind": rng.choice(kind), "sticky": rng.random() < 0.5}]
                st["expect"] = "raise"
            elif r < 0.64:
                cnt = steps.dry({"op": op}, ctx)["counts"]
                st["faults"] = steps.gen_faults(rng, cnt, 1, classes=("tmp",), ops_=("creat", "openw", "write"))
                st["expect"] = "raise"
            elif r < 0.70:
                st["shorts"] = {"tmp": rng.choice((1, 5, 100))}
            out.append(st)
        return {"steps": out}

    def execute(self, plan, ctx):
        h = steps.exec_steps(plan, ctx)
        h["nontrivial"] = bool(h["fired"]) or any("segs" in ops.canon(s["op"]["serve"]) for s in plan["steps"])
        pr = {}
        for o in h["outs"]:
            k = "references" if "ok" in o.get("out", {}) else "raised:" + o.get("out", {}).get("err", "?")
            pr[k] = pr.get(k, 0) + 1
        h["probes"] = pr
        return h

    def judge(self, plan, hist, ctx):
        if hist["status"] != "ok":
            return bad_status(hist["status"], hist.get("detail"))
        out = []
        for i, (st, rec) in enumerate(zip(plan["steps"], hist["outs"])):
            op = {k: v for k, v in st["op"].items() if k not in ("url", "chunk", "headers", "serve")}
            op.update(k="file", doc=st["doc"])
            exp = ctx.pristine(op)["out"]
            got = rec["out"]
            fired = any(k.split(":")[0] in ("tmp.creat", "tmp.openw", "tmp.write", "net.dns", "net.connect", "net.send", "net.recv")
                        or k.startswith("net.cut") for k in rec["fired"])
            if st["expect"] == "http":
                if got.get("err") != "FullTextNotAvailableError":
                    out.append({"cls": "status", "what": "call %d: HTTP error status did not raise FullTextNotAvailableError but %s"
                                % (i, pool.clip(got, 120))})
            elif st["expect"] == "raise" and fired:
                if "ok" in got and self.permanent(st, rec):
                    out.append({"cls": "unnoticed", "what": "call %d: references returned although the transfer or the store failed for good (%s)"
                                % (i, sorted(rec["fired"]))})
                elif "ok" in got and not ops.same(exp, got):
                    out.append({"cls": "partial", "what": "call %d: references returned after an incomplete transfer or failed store (%s)"
                                % (i, sorted(rec["fired"])), "diff": pool.diff(exp, got)})
            elif not ops.same(exp, got):
                out.append({"cls": "diff", "what": "call %d: result differs from extracting the served bytes from a local file" % i,
                            "diff": pool.diff(exp, got)})
        return out

    def permanent(self, st, rec):
        """The document can not have been obtained completely, by however many attempts."""
        if any(f.get("sticky") and f["kind"] != "shortw" for f in st["faults"]):
            return True
        resp = st["op"]["serve"][-1]["seq"][-1]
        cut = resp.get("cut")
        if not cut or not any(k.startswith("net.cut") for k in rec["fired"]):
            return False
        if cut["where"] == "head" or cut["end"] != "fin" or resp["framing"] == "length":
            return True
        # a missing end of the last (empty) chunk is not noticed by every client
        return resp["framing"] == "chunked" and not cut.get("drop") and cut["frac"] < 0.9 and len(ops.doc_bytes(st["doc"])) > 800

    def simplify(self, plan):
        yield from steps.simplify_steps(plan)
