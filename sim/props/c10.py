import json
import os
import shutil
import subprocess

from .. import core, corpus, ops, pool, runner, world
from ..prop import Prop
from .c04 import KB, make_url_op

MODULES = ("refextract.references.tag", "refextract.references.kbs", "refextract.references.regexs", "refextract.references.pdf",
           "refextract.references.record", "refextract.authors.regexs", "refextract.documents.pdf", "refextract.documents.text",
           "refextract.references.find", "refextract.references.text", "refextract.extract", "refextract", "refextract.references.api",
           "refextract.references.engine")
# 2026-06-15, 2026-12-31T23:30Z, 2027-01-01T00:30Z
CLOCKS = (1781524800.0, 1798759800.0, 1798763400.0)
ENVS = {
    "locale": ({"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
               {"LC_ALL": "C.UTF-8"}, {"LC_ALL": "C"}, {"LANG": "de_DE.ISO-8859-1", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {}),
    "tz": ("UTC", "Pacific/Kiritimati", "America/Los_Angeles", "XXX+11", "XXX-14"),
    "cwd": ("/", "scratch", "tmp"),
    "root": ("run", "run", "r u n", "r\u00fcn", "d" * 80),
}
YEARLINE = "[1] A. Author, 2601.12345 ; B. Author, 2612.01234 ; C. Author, 2701.00001 , Simul. Lett. 1 (2000) 2"


def op_pool(seed):
    import random
    rng = random.Random("c10/%s" % seed)
    out = []
    for k in range(16):
        d = {"t": "pdf", "seed": rng.randrange(99), "nrefs": rng.choice((2, 3, 5)), "single": 1, "keys": 1, "nurls": rng.choice((6, 10, 14))}
        if k % 5 == 4:
            d["lead"] = 30
        elif k % 5 == 3:
            d.update(nrefs=8, cols=8, body=4)
        elif k % 5 == 2:
            d.update(nrefs=6, pp=10, body=4)
        out.append({"k": "file", "doc": d, "kbs": KB})
        if k % 3 == 1:
            out[-1]["rel"] = 1
    for k in range(8):
        out.append({"k": "file", "doc": {"t": "txt", "seed": rng.randrange(99), "nrefs": 3, "uni": k % 2}, "kbs": KB, "rel": k % 3 == 1})
    for k in range(24):
        out.append({"k": "string", "src": corpus.pick_source(rng), "kbs": corpus.pick_kbs(rng)})
        if k % 3 == 0:
            out[-1]["linker"] = {"mode": "hash", "salt": 1}
    out.append({"k": "string", "src": "[1] J. D\u00fchrssen and \u00c9. \u0160imic, Simul. Lett. 8 (2004) 9", "kbs": KB})
    for k in range(6):        # lines whose reading depends on the order of KB entries
        out.append({"k": "string", "src": "\n".join(corpus.SYNTH[16:]), "kbs": KB if k == 0 else corpus.pick_kbs(rng)})
    for k in range(4):
        out.append(make_url_op(rng)[0])
    d = {"t": "txt", "seed": 3, "nrefs": 3}
    out.append({"k": "url", "url": "http://h0.example.org/p\u00e4per.pdf", "kbs": KB, "doc": d,
                "serve": [{"url": "http://h0.example.org/p%C3%A4per.pdf", "seq": [{"status": 200, "doc": d, "framing": "length"}]}]})
    for k in range(6):
        out.append({"k": "journal", "line": corpus.strip_marker(rng.choice(corpus.SYNTH)).replace("{0}", "1"), "kbs": KB})
    for k in range(3):
        out.append({"k": "x_list", "items": [corpus.pick_line(rng) for _ in range(3)], "kbs": {"journals": ["path", k]}})
    out.append({"k": "string", "src": "\n".join(corpus.SYNTH).replace("{0}", "2")})     # the default knowledge bases
    return out


class P(Prop):
    id = "C10"
    quick, thorough = 200, 6000
    rule = ("a run = one fresh interpreter started in a seeded environment (hash seed, locale and encoding mode, time zone, working, temporary and "
            "document directory, umask, extra descriptors, module import order, noise variables) that performs 6-24 operations in seeded order; every "
            "outcome, list order included, is compared with the same operation alone in a fresh baseline process; non-trivial = all runs; distinct = "
            "distinct (environment, operations)")
    components = {"real": ["all refextract code", "CPython with the given environment", "pdftotext (run in that environment)", "pypdf", "libmagic"],
                  "stub": ["clock (fixed per run)", "converter delivery"]}
    assumptions = ("only locales present in the sandbox are real locales; others fall back to C",)

    def generate(self, rng, ctx, i, cfg):
        P = op_pool(cfg["seed"])
        n = rng.choice((6, 10, 16, 24))
        assert P[59]["k"] == "url"
        sel = [rng.choice(P[:16]) for _ in range(3)] + [rng.choice(P[16:24]), rng.choice(P[49:55]), P[59] if rng.random() < 0.3 else rng.choice(P[:-1])] + [rng.choice(P[:-1]) for _ in range(n - 6)]
        rng.shuffle(sel)
        if rng.random() < 0.06:
            sel.append(P[-1])
        clock = CLOCKS[0]
        if rng.random() < 0.3:
            clock = rng.choice(CLOCKS)
            sel.insert(rng.randrange(len(sel)), {"k": "string", "src": YEARLINE, "kbs": KB})
        e = {"hashseed": rng.choice((str(rng.randrange(2 ** 32)), str(rng.randrange(100)))), "locale": rng.randrange(len(ENVS["locale"])),
             "tz": rng.choice(ENVS["tz"]), "cwd": rng.choice(ENVS["cwd"]), "root": rng.choice(ENVS["root"]), "umask": rng.choice((0o22, 0, 0o77)),
             "fds": rng.choice((0, 0, 5, 60)), "closestdin": rng.random() < 0.2,
             "imports": rng.sample(MODULES, rng.choice((0, 1, 3))), "noise": {"NOISE%d" % k: "x" * k for k in range(rng.choice((0, 3)))}}
        if rng.random() < 0.35:
            # the working directory holds unrelated files with the names of the library's own data files
            e.update(cwd="scratch", decoy=True)
            sel.insert(rng.randrange(len(sel)), rng.choice(P[-4:-1]))
        if rng.random() < 0.5:
            e["tmpvar"] = rng.choice(("TMPDIR", "TMPDIR", "TEMP", "HOME"))
        if rng.random() < 0.15:
            e["optimize"] = rng.choice(("1", "2"))
        return {"env": e, "ops": sel, "clock": clock}

    def child(self, ctx, env, oplist, clock, sub):
        base = ctx.scratch(sub)
        root = os.path.join(base, env.get("root", "run"))
        os.makedirs(root)
        job = os.path.join(base, "job.json")
        out = os.path.join(base, "out.json")
        with open(job, "w", encoding="utf-8") as fh:
            json.dump({"root": root, "ops": oplist, "clock": clock, "imports": env.get("imports", []), "fds": env.get("fds", 0),
                       "umask": env.get("umask"), "closestdin": env.get("closestdin"), "out": out}, fh)
        ev = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONHASHSEED": env.get("hashseed", "0"), "TZ": env.get("tz", "UTC"),
              "PYTHONDONTWRITEBYTECODE": "1", "PYTHONWARNINGS": "ignore", "VERIF_REPO": core.REPO, "no_proxy": "*"}
        ev.update(ENVS["locale"][env["locale"]] if "locale" in env else {"LC_ALL": "C.UTF-8", "PYTHONUTF8": "1"})
        ev.update(env.get("noise", {}))
        if env.get("tmpvar"):
            ev[env["tmpvar"]] = os.path.join(root, "tmp")
        if env.get("optimize"):
            ev["PYTHONOPTIMIZE"] = env["optimize"]
        cwd = {"/": "/", "scratch": base, "tmp": os.path.join(root, "tmp")}[env.get("cwd", "/")]
        os.makedirs(cwd, exist_ok=True)
        if env.get("decoy"):
            for d, _, fs in os.walk(core.PKG):
                for f in fs:
                    if not f.endswith((".py", ".pyc")) and not os.path.exists(os.path.join(cwd, f)):
                        with open(os.path.join(cwd, f), "w") as fh:
                            fh.write("SIMUL LETT---Decoy Lett\nDECOY---decoy\n")
        try:
            p = subprocess.run(["/opt/venv/bin/python", os.path.join(runner.VERIF, "sim", "envchild.py"), runner.VERIF, job],
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ev, cwd=cwd, timeout=150)
            if p.returncode != 0:
                if b"STAGE setup" in p.stdout or b"STAGE imports" not in p.stdout:
                    raise runner.HarnessError(p.stdout.decode("utf-8", "replace")[-1500:])
                return {"fail": p.stdout.decode("utf-8", "replace")[-1500:]}
            with open(out, encoding="utf-8") as fh:
                return json.load(fh)
        except subprocess.TimeoutExpired:
            return {"fail": "timeout"}
        finally:
            shutil.rmtree(base, ignore_errors=True)

    def baseline(self, ctx, op, clock):
        """The op alone in a fork of the (baseline environment) zygote with a freshly imported package."""
        def fn(op, w, env):
            world.set_clock(clock)
            runner.reimport()
            return {"out": ops.run_op(op, env)}
        return ctx.pristine(op, key_extra="c10/%s" % clock, fn=fn)["out"]

    def execute(self, plan, ctx):
        r = self.child(ctx, plan["env"], plan["ops"], plan["clock"], "run")
        if "fail" in r:
            return {"log": ["fail"], "fail": r["fail"], "fired": {}, "outs": []}
        if os.path.realpath(r["repo"]) != os.path.realpath(core.PKG):
            raise runner.HarnessError("child imported " + r["repo"])
        e = plan["env"]
        log = r["log"] + [ops.canon(plan["env"])] + [ops.sha(ops.canon([o.get("ok"), o.get("err")])) for o in r["outs"]]
        fired = {"hashseed": 1, "locale.%s" % r["enc"]: 1, "tz." + e["tz"]: 1, "import_order": int(bool(e["imports"])),
                 "cwd": int(e["cwd"] != "/"), "decoy_files": int(bool(e.get("decoy"))), "TMPDIR": int(bool(e.get("tmpvar"))), "python_O": int(bool(e.get("optimize"))), "odd_directory": int(e["root"] != "run"), "umask": int(e["umask"] != 0o22),
                 "descriptors": int(bool(e["fds"] or e["closestdin"])), "year_end_clock": int(plan["clock"] != CLOCKS[0])}
        return {"log": log, "outs": r["outs"], "fired": {k: v for k, v in fired.items() if v}, "nontrivial": True, "events": len(r["log"])}

    def judge(self, plan, hist, ctx):
        if hist.get("fail"):
            return [{"cls": "process", "what": "the process failed in environment %s" % ops.canon(plan["env"]), "diff": [hist["fail"][-600:]]}]
        out = []
        for i, (op, got) in enumerate(zip(plan["ops"], hist["outs"])):
            exp = self.baseline(ctx, op, plan["clock"])
            if not ops.same(exp, got):
                out.append({"cls": "diff:" + op["k"], "what": "operation %d (%s) differs from the baseline process" % (i, op["k"]),
                            "diff": pool.diff(exp, got)})
        return out

    lists = ("ops",)
    min_lists = {"ops": 1}

    def simplify(self, plan):
        e = plan["env"]
        for k, v in (("optimize", False), ("tmpvar", False), ("decoy", False), ("noise", {}), ("imports", []), ("fds", 0), ("closestdin", False), ("umask", 0o22), ("cwd", "/"), ("root", "run"), ("tz", "UTC"),
                     ("locale", 2), ("hashseed", "0")):
            if e.get(k, False if k in ("decoy", "optimize", "tmpvar") else None) != v:
                yield dict(plan, env=dict(e, **{k: v}))
        if plan["clock"] != CLOCKS[0]:
            yield dict(plan, clock=CLOCKS[0])
