import calendar
import time

from .. import core, corpus, ops, pool, runner, world
from ..prop import Prop, bad_status
from .c04 import KB


def ts(y, mo=1, d=1, h=0, mi=0, s=0):
    return float(calendar.timegm((y, mo, d, h, mi, s)))


YEARS = tuple(range(2023, 2034)) + (2013, 2040, 2099, 2000, 1999, 1992)


def moment(rng, years=YEARS):
    y = rng.choice(years)
    if rng.random() < 0.15:
        return ts(rng.choice((2024, 2028, 2032, 2000)), 2, 29, rng.choice((0, 12, 23)), 30)
    return rng.choice((ts(y, 12, 31, 23, 59, 59), ts(y), ts(y, 6, 15, 12), ts(y, 1, 1, 0, 0, 1), ts(y, 2, 28, 23, 59) + 3600, ts(y, 12, 31, 12)))


REF = ts(2024, 6, 15, 12)


def year_of(t):
    return time.gmtime(t).tm_year


class P(Prop):
    id = "C11"
    quick, thorough = 1000, 40000
    rule = ("a run = a process started at a simulated instant that makes 2-5 calls at later (or, after clock steps, earlier) instants, across year "
            "ends, leap days and jumps, some of them while a call is running, in one or two threads; each call is compared with the same call in a "
            "process started at the instant of the call; non-trivial = the year of a call differs from the year of process start; distinct = event logs")
    components = {"real": ["all refextract code, imported at the simulated start instant", "pypdf", "libmagic"],
                  "stub": ["clock (datetime, date, time)", "thread scheduling", "converter delivery"]}
    assumptions = ("the clock is read through datetime/date/time of the standard library",)
    lists = ("stops",)

    def line(self, rng, t):
        y = year_of(t) + rng.choice((0, 0, 0, -1, 1, -2, 2))
        yy = "%02d" % (y % 100)
        mm = "%02d" % rng.choice((1, 2, 6, 12, 12, 1))
        num = rng.choice(("%05d" % rng.randrange(1, 30000), "%05d" % rng.randrange(1, 30000), "%04d" % rng.randrange(1, 9999)))
        idv = yy + mm + "." + num + rng.choice(("", "v2", " [hep-ph]"))
        return rng.choice((
            "[1] A. Author, Simul. Lett. 12 (2001) 345, " + idv,
            "[2] B. Author, " + idv + "; C. Author, Phys. Rev. D 55 (1997) 100",
            "[3] D. Author, arXiv:" + idv + ", hep-th/9901001",
            "[4] E. Author, in preparation (" + str(y) + "), " + idv + ", SIM-REP-12345",
            "[5] F. Author, Simul. Lett. 7 (%d) 12; Phys. Lett. B 716, 30 (%d), %s" % (y, y, idv),
            "[6] G. Author, JHEP 05 (%d) 031, Simpress %d; H. Author, Ph.D. thesis, Simul University, %d" % (y, y, y),
            "[7] I. Author et al., SIM-REP-%d-012, CERN-TH-%d-001, LHCb-CONF-%d-002, astro-ph/%s%s001" % (y, y, y, yy, mm),
        ))

    def generate(self, rng, ctx, i, cfg):
        t0 = moment(rng)
        t = t0
        steps = []
        for k in range(rng.choice((2, 2, 3, 4, 5))):
            q = rng.random()
            if k == 0 and q < 0.4:
                pass
            elif q < 0.45:
                t = ts(year_of(t) + 1)            # the next year begins
            elif q < 0.6:
                t = ts(year_of(t) + rng.choice((1, 2, 5)), 3, 1)
            elif q < 0.65:
                g = time.gmtime(t)                # a year later or earlier, on the same day
                t = ts(g.tm_year + rng.choice((1, 1, 1, -1)), g.tm_mon, min(g.tm_mday, 28), g.tm_hour, g.tm_min)
            elif q < 0.7:
                t = moment(rng, (year_of(t), year_of(t) + 1))
            elif q < 0.85:
                t = moment(rng)                   # clock step
            else:
                t = rng.choice((t - 86400 * 366, t0))
            op = {"k": "string", "src": "\n".join(self.line(rng, t) for _ in range(rng.choice((1, 2)))), "kbs": KB}
            z = rng.random()
            if z < 0.1:
                op = {"k": "journal", "line": corpus.strip_marker(self.line(rng, t)), "kbs": KB}
            elif z < 0.25:
                op = {"k": "string", "src": corpus.pick_source(rng, 2), "kbs": KB}
            elif z < 0.35:
                op = {"k": "x_list", "items": [self.line(rng, t), self.line(rng, t)], "kbs": {"journals": ["dict", 1]}}
            elif z < 0.45:
                op = {"k": "file", "doc": {"t": rng.choice(("txt", "pdf")), "seed": rng.randrange(6), "nrefs": 3}, "kbs": KB}
            st = {"clock": t, "op": op}
            if 2013 <= year_of(t) < 2091 and rng.random() < 0.3:
                # an identifier of the current month must be recognised, whatever the oracle says
                must = time.strftime("%y%m", time.gmtime(t)) + ".%05d" % rng.randrange(1, 30000)
                st["op"] = {"k": "string", "src": "[1] A. Author, Simul. Lett. 12 (2001) 345, %s%s" % (rng.choice(("", "arXiv:")), must), "kbs": KB}
                st["must"] = must
            if rng.random() < 0.2:
                # the clock moves while the call runs: at its n-th reading
                st["jump"] = {"n": rng.choice((0, 0, 1, 2)), "to": rng.choice((ts(year_of(t) + 1), ts(year_of(t) - 1), ts(1985), t + 1))}
            steps.append(st)
        plan = {"start": t0, "steps": steps, "stops": []}
        return plan

    def execute(self, plan, ctx):
        def body():
            log = []
            w = ctx.world("run", log=log)
            w.activate()
            world.set_clock(plan["start"])
            runner.reimport()
            env = ops.Env(w)
            outs = []
            for st in plan["steps"]:
                w.begin_step()
                world.set_clock(st["clock"])
                world.set_jump(st.get("jump"))
                out = ops.run_op(st["op"], env)
                outs.append({"out": out, "jumped": world.set_jump(None)})
                log.append("out %s %s" % (st["clock"], ops.sha(ops.canon([out.get("ok"), out.get("err")]))[:12]))
            return {"outs": outs, "log": log}
        st, val = runner.in_child(body, 90)
        if st == "error":
            raise runner.HarnessError(val)
        if st != "ok":
            return {"status": st, "detail": val, "outs": [], "log": [st], "fired": {}}
        fired = {}
        prev = plan["start"]
        for s, o in zip(plan["steps"], val["outs"]):
            d = s["clock"] - prev
            k = "clock.back" if d < 0 else "clock.year_end" if year_of(s["clock"]) == year_of(prev) + 1 else "clock.years" if year_of(s["clock"]) != year_of(prev) else "clock.same_year"
            fired[k] = fired.get(k, 0) + 1
            if o["jumped"]:
                fired["clock.jump_in_call"] = fired.get("clock.jump_in_call", 0) + 1
            prev = s["clock"]
        val.update(status="ok", fired=fired, events=len(val["log"]), simtime=sum(abs(s["clock"] - plan["start"]) for s in plan["steps"]),
                   nontrivial=any(year_of(s["clock"]) != year_of(plan["start"]) for s in plan["steps"]))
        return val

    def fresh(self, ctx, op, clock):
        def fn(op, w, env):
            world.set_clock(clock)
            runner.reimport()
            return {"out": ops.run_op(op, env)}
        return ctx.pristine(op, key_extra="clock%s" % clock, fn=fn)["out"]

    def judge(self, plan, hist, ctx):
        if hist["status"] != "ok":
            return bad_status(hist["status"], hist.get("detail"))
        out = []
        for i, (st, rec) in enumerate(zip(plan["steps"], hist["outs"])):
            exp = self.fresh(ctx, st["op"], st["clock"])
            got = rec["out"]
            if rec["jumped"]:
                exp2 = self.fresh(ctx, st["op"], st["jump"]["to"])
                if "err" in got and "ok" in exp and "ok" in exp2:
                    out.append({"cls": "jumpfail", "what": "call %d fails because the clock moved while it was running: %s" % (i, got["err"])})
            elif "err" in got and "ok" in self.fresh(ctx, st["op"], REF):
                out.append({"cls": "fails", "what": "call %d fails at %s but not at another instant: %s" % (i, st["clock"], got["err"])})
            elif not ops.same(exp, got):
                out.append({"cls": "diff", "what": "call %d (at %s) in a process started at %s differs from a process started at the time of the call"
                            % (i, st["clock"], plan["start"]), "diff": pool.diff(exp, got)})
            elif st.get("must") and not any("arXiv:" + st["must"] in r.get("reportnumber", ()) for r in got.get("ok", ())):
                out.append({"cls": "unrecognised", "what": "call %d (at %s): the identifier %s of the current month is not recognised"
                            % (i, st["clock"], st["must"]), "diff": [pool.clip(got)]})
        return out

    def simplify(self, plan):
        s = plan["steps"]
        for i in range(len(s)):
            if len(s) > 1:
                yield dict(plan, steps=s[:i] + s[i + 1:])
        for i in range(len(s)):
            if "jump" in s[i]:
                yield dict(plan, steps=s[:i] + [{k: v for k, v in s[i].items() if k != "jump"}] + s[i + 1:])
            src = s[i]["op"].get("src", "")
            if "\n" in src:
                for l in (src.split("\n") if "must" not in s[i] else ()):
                    yield dict(plan, steps=s[:i] + [dict(s[i], op=dict(s[i]["op"], src=l))] + s[i + 1:])
