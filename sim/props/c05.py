from .. import corpus, ops, pool, steps
from ..prop import Prop, bad_status
from .c04 import KB, make_doc, make_url_op


def path_kbs(rng):
    return {t: ["path", rng.randrange(3)] for t in corpus.KB_TYPES}


class P(Prop):
    id = "C05"
    quick, thorough = 3600, 40000
    warmable = 0.6
    warm_oracle = True
    rule = ("a run = 1-2 calls of any entry point with up to 3 seeded faults in network, temporary-file, document, converter, KB or linker "
            "operations (clean-up calls excepted); after each call, while its exception is still held, the temporary directory, the document "
            "directory, open descriptors and unreaped converter processes are inspected; non-trivial = a fault fired; distinct = event logs")
    components = {"real": ["all refextract code", "requests", "urllib3", "pypdf", "libmagic", "scratch file system"],
                  "stub": ["TCP sockets", "HTTP server", "pdftotext process (real output, scripted delivery and end)", "disk errors", "temporary names"]}
    assumptions = ("faults of the clean-up calls themselves (remove, close) are not injected",
                   "network sockets are counted after the exception is dropped and a collection ran")

    def generate(self, rng, ctx, i, cfg):
        out = []
        for _ in range(rng.choice((1, 1, 2))):
            r = rng.random()
            kbs = path_kbs(rng) if rng.random() < 0.5 else KB
            if r < 0.4:
                op, doc, final = make_url_op(rng, kbs=kbs)
                q = rng.random()
                if q < 0.15:
                    final["status"] = rng.choice((404, 403, 500))
                elif q < 0.3:
                    final["cut"] = {"where": rng.choice(("head", "body")), "frac": rng.random(), "end": rng.choice(("reset", "timeout", "fin"))}
                    final["tags"] = ["cut." + final["cut"]["end"]]
            elif r < 0.8:
                d = make_doc(rng)
                op = {"k": "file", "doc": d, "kbs": kbs}
                if rng.random() < 0.2:
                    op["rel"] = 1
            elif r < 0.9:
                op = {"k": "string", "src": corpus.pick_source(rng), "kbs": path_kbs(rng)}
            else:
                op = {"k": rng.choice(("x_list", "x_text", "x_jinfo", "x_url")), "kbs": {"journals": ["path", rng.randrange(3)]}}
                if op["k"] == "x_list":
                    op["items"] = [corpus.pick_line(rng) for _ in range(2)]
                elif op["k"] == "x_text":
                    op["src"] = corpus.pick_source(rng)
                elif op["k"] == "x_url":
                    o2, _, final = make_url_op(rng)
                    op.update(url=o2["url"], serve=o2["serve"])
                    if rng.random() < 0.3:
                        final["status"] = rng.choice((404, 500))
                else:
                    op["infos"] = [{"pubinfo_freetext": "Simul. Lett. 1 (2000) 2"}, {}]
            if op["k"] in ("file", "url", "string") and rng.random() < 0.2:
                op["linker"] = {"mode": "hash", "calls": {str(rng.randrange(3)): rng.choice(("LinkerDown", "ValueError", "KeyError", "cancel"))}}
            st = {"op": op}
            conv = []
            for _ in range(rng.choice((1, 2))):
                c = {}
                if rng.random() < 0.5:
                    c["lag"] = rng.choice((1, 2, 10))
                if rng.random() < 0.15:
                    c["slow"] = rng.choice((45, 400, 5000))
                q = rng.random()
                if q < 0.2:
                    c.update(die=rng.choice((0, rng.random(), rng.random())), rc=rng.choice((-9, -11, -15, 1, 99)))
                elif q < 0.28:
                    c["spawn"] = rng.choice(("EAGAIN", "ENOMEM", "EACCES", "ENOENT"))
                elif q < 0.36:
                    c["inject"] = rng.randrange(2000)      # bytes that are not UTF-8
                if rng.random() < 0.2:
                    c["cap"] = 4096
                conv.append(c)
            if op["k"] in ("file", "url"):
                st["converter"] = conv
            if rng.random() < 0.7:
                cnt = steps.dry({"op": op}, ctx)["counts"]
                st["faults"] = steps.gen_faults(rng, cnt, rng.choice((1, 1, 2, 3)), harmless=0.1)
            elif op["k"] == "url" and rng.random() < 0.5:
                k = rng.choice(("net.dns", "net.connect", "net.send", "net.recv"))
                kind = {"net.dns": "fail", "net.connect": rng.choice(("refused", "timeout")), "net.send": "reset",
                        "net.recv": rng.choice(("reset", "timeout"))}[k]
                st["faults"] = [{"at": k, "n": rng.choice((0, 0, 1, 3)) if k == "net.recv" else 0, "kind": kind}]
            out.append(st)
        return {"steps": out}

    def execute(self, plan, ctx):
        h = steps.exec_steps(plan, ctx)
        pr = {"nothing_left_after_raise": 0, "nothing_left_after_return": 0}
        for o in h["outs"]:
            if "out" in o:
                pr["nothing_left_after_return" if "ok" in o["out"] else "nothing_left_after_raise"] += 1
        h["probes"] = pr
        return h

    def judge(self, plan, hist, ctx):
        if hist["status"] != "ok":
            return bad_status(hist["status"], hist.get("detail"))
        out = []
        for i, rec in enumerate(hist["outs"]):
            res = rec.get("residue") or []
            for r in res:
                cls = "residue:" + r.split(" ")[0]
                out.append({"cls": cls, "what": "call %d (%s, %s) left behind: %s [faults %s]" % (
                    i, plan["steps"][i]["op"]["k"], "returned" if "ok" in rec["out"] else "raised " + rec["out"]["err"], r, sorted(rec["fired"]))})
            if rec.get("socks"):
                out.append({"cls": "residue:socket", "what": "call %d left %d open sockets" % (i, rec["socks"])})
        return out

    def simplify(self, plan):
        yield from steps.simplify_steps(plan)
