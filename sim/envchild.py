"""A fresh interpreter in a given environment: runs a list of ops and reports the outcomes.

argv: VERIF-dir JOB-file.  JOB: {"root", "ops", "clock", "imports", "fds", "umask", "out"}
"""
import json
import os
import sys

verif, job = sys.argv[1:3]
sys.path.insert(0, verif)
sys.dont_write_bytecode = True


def main():
    with open(job, encoding="utf-8") as fh:
        j = json.load(fh)
    import importlib
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    from sim import core, ops, world
    sys.path.insert(0, core.REPO)
    import email, encodings.idna, http.client, queue, tempfile  # noqa
    import magic, pypdf, requests, unidecode  # noqa
    world.install()
    if j.get("clock"):
        world.set_clock(j["clock"])
    print("STAGE imports", flush=True)
    for m in j.get("imports", ()):
        importlib.import_module(m)
    print("STAGE setup", flush=True)
    extra = [os.open("/dev/null", os.O_RDONLY) for _ in range(j.get("fds", 0))]  # noqa
    if j.get("umask") is not None:
        os.umask(j["umask"])
    if j.get("closestdin"):
        os.close(0)
    root = os.fsdecode(j["root"].encode("utf-8"))
    w = world.World(root, memo=None)
    w.setup()
    w.activate()
    env = ops.Env(w)
    env.cwd = os.getcwd()
    outs = []
    for op in j["ops"]:
        outs.append(ops.run_op(op, env))
        w.begin_step()
    world.W = None
    res = {"outs": outs, "log": w.log, "hs": hash("probe") & 0xffff, "enc": sys.getfilesystemencoding(),
           "repo": os.path.dirname(os.path.abspath(sys.modules["refextract"].__file__))}
    with open(os.fsdecode(j["out"].encode("utf-8")), "w", encoding="utf-8") as fh:
        json.dump(res, fh)


main()
