"""Public-API operations as data: build, execute, canonicalise."""
import base64
import collections
import copy
import gzip
import hashlib
import json
import os
import random
import sys

from . import core, corpus, minipdf, world

API = None


def api():
    """The public entry points of the current package instance."""
    import importlib
    r = importlib.import_module("refextract")
    e = importlib.import_module("refextract.extract")
    err = importlib.import_module("refextract.references.errors")
    return r, e, err


def canon(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=True, default=_default)


def _default(o):
    if isinstance(o, (set, frozenset)):
        return {"__set__": sorted(map(str, o))}
    if isinstance(o, (collections.deque, type({}.items()))):
        return list(o)
    return {"__repr__": type(o).__name__}


def sha(s):
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogatepass")
    return hashlib.sha256(s).hexdigest()


# ---------------------------------------------------------------- documents
_doc_cache = {}
SHAPES = ("sameline", "blank", "indent", "email", "after", "axis", "contents", "notitle")


def doc_bytes(spec):
    """Bytes of a document spec (pure function of the spec)."""
    key = canon(spec)
    b = _doc_cache.get(key)
    if b is None:
        b = _doc_cache[key] = _doc_bytes(spec)
        if len(_doc_cache) > 400:
            _doc_cache.clear()
            _doc_cache[key] = b
    return b


def wrap(b, how):
    """The document in another coating: what a server may have at a URL."""
    if how == "gz":
        return gzip.compress(b, mtime=0)
    if how == "bom":
        return b"\xef\xbb\xbf" + b
    if how == "html":
        return b"<!DOCTYPE html>\n<html><head><title>A paper</title></head><body><pre>\n" + b + b"\n</pre></body></html>\n"
    return b.decode("utf-8", "replace").encode(how, "replace")     # another charset


def _doc_bytes(spec):
    m = spec.get("mangle")
    if m:
        return mangle(_doc_bytes({k: v for k, v in spec.items() if k != "mangle"}), m)
    m = spec.get("wrap")
    if m:
        return wrap(_doc_bytes({k: v for k, v in spec.items() if k != "wrap"}), m)
    t = spec["t"]
    if t == "raw":
        return base64.b64decode(spec["b64"])
    if t == "bin":
        rng = random.Random(spec["seed"])
        return bytes([0x7f, 0x45, 0x4c, 0x46, 2, 1, 1, 0]) + rng.randbytes(spec.get("size", 600))
    rng = random.Random("doc%s" % spec["seed"])
    n = spec.get("nrefs", 5)
    if spec.get("single"):
        pool = [corpus.SYNTH[i] for i in (0, 3, 4, 5, 8, 12)]
        if spec["single"] == 2:      # repeated elements and free text
            pool += ["H. Hand, some words, SIM-REP-12345, SIM-REP-12345 , more words, in preparation",
                     "I. Inv and J. Jot, private words, to be published in Simpress",
                     "K. Kay, SIM-REP-54321, notes on more words , http://sim.example.org/words"] * 2
            pool += ['L. Link, <a href="http://sim.example.org/anchor">an anchor</a> , Simul. Lett. 4 (2004) 5',
                     "M. Mark, hdl:10234/2263, ISBN 978-0-521-67053-1, http://sim.example.org/book, Simpress 1999"]
            pool += [corpus.SYNTH[i] for i in (12, 25, 30)]
        refs = [corpus.strip_marker(rng.choice(pool)).replace("{0}", str(rng.randrange(9))) for _ in range(n)]
    else:
        refs = [corpus.strip_marker(corpus.pick_line(rng)) for _ in range(n)]
    if t == "txt":
        out = ["A simulated paper", "", "1 Introduction"]
        out += [f"This is line {i} of the body, which cites things." for i in range(spec.get("body", 8))]
        marked = corpus.remark(refs, spec["marks"]) if spec.get("marks") else [f"[{i + 1}] {r}" for i, r in enumerate(refs)]
        shape = spec.get("shape")
        if shape == "sameline":
            marked[0] = "References " + marked[0]
        elif shape == "blank":       # no markers, blank lines between the references
            marked = ["References"] + [x for r in refs for x in (r[:40], r[40:] or "and more", "")]
        elif shape == "indent":
            marked = ["References"] + [x for r in refs for x in (r[:50], "     " + r[50:])]
        elif shape == "email":
            marked = ["References", " ", "e-mail: sim@example.org", ""] + marked
        elif shape == "after":
            marked = ["References"] + marked + ["", "Figure Captions", "Figure 1: a simulated figure", "Acknowledgements", "Nobody."]
        elif shape == "axis":
            marked = ["References"] + marked + ["1000 2000 3000 4000", "1.5 2.5 3.5 4.5 5.5 6.5", "100 200 300 400 500", "0.1 0.2 0.3 0.4 0.55 0.66"] * 2
        elif shape == "contents":    # the title appears twice, page numbers between the references
            out[3:3] = ["Contents", "References 12", "[1] not a reference"]
            marked = ["REFERENCES"] + [x for k, r in enumerate(marked) for x in ([r, str(k + 7)] if k % 2 else [r])]
        elif shape != "notitle":
            marked = ["References"] + marked
        out += [""] + marked
        if spec.get("last"):
            out.append("and references therein")
        if spec.get("uni"):
            out.insert(3, "Schr\u00f6dinger \u2013 na\u00efve \u03b1\u03b2 caf\u00e9")
            out.append(f"[{n + 1}] J. D\u00fchrssen and \u00c9. \u0160imic, Simul. Lett. 8 (2004) 9")
        if spec.get("pages"):    # page breaks with running heads and feet
            paged = []
            for k in range(0, len(out), spec["pages"]):
                if k:
                    paged += ["Simulated Letters Vol. 1", "\f", "S. Imulator and others", "On simulated pages"] if not spec.get("heads") else [
                        "many words " * (k // spec["pages"] % 3 + 1), "\f", "such words" * (k % 3), "more words " * (k // spec["pages"])]
                paged += out[k:k + spec["pages"]]
            out = paged
        nl = spec.get("nl", "\n")
        if spec.get("size"):     # pad the introduction to a given size
            have = len((nl.join(out) + nl).encode(spec.get("enc", "utf-8")))
            out.insert(3, "x" * max(0, spec["size"] - have - len(nl)))
        return (nl.join(out) + nl * (not spec.get("noeol"))).encode(spec.get("enc", "utf-8"))
    if t == "pdf":
        if spec.get("uni"):
            refs = ["J. D\u00fchrssen and \u00c9. \u0160imic, Simul. Lett. 8 (2004) 9, \u00fc\u00e9\u0160\u00d8\u00e6\u00e5\u00f1\u00e7" if k % 2 else r
                    for k, r in enumerate(refs)]
        keys = None
        if spec.get("keys"):
            keys = [f"Key{i}:20{i:02d}ab" for i in range(n)]
            if spec["keys"] == 2:
                keys = [f"Other{i}:19{i:02d}cd" for i in range(n)]
            elif spec["keys"] == "fewer":
                keys = keys[:-1]
            elif spec["keys"] == "blank":
                keys[rng.randrange(n)] = rng.choice(("", " ", "\u00e9", "a b", "x" * 60))
        urls = []
        for k in range(spec.get("nurls", 0)):
            urls.append((rng.randrange(n), f"http://link{rng.randrange(5)}.example.org/{k}"))
        if spec.get("words"):        # link targets that are also words of the text
            urls += [(rng.randrange(n), rng.choice(("words", "Hand", "http://sim.example.org/words", "http://sim.example.org/words/", "https://sim.example.org/words",
                                                  "http://sim.example.org/word", "HTTP://SIM.EXAMPLE.ORG/words", "notes on", "2001", "1"))) for _ in range(4)]
        junk = spec.get("lead", 0)
        lead = bytes((32 + (i * 7) % 90) for i in range(junk)).replace(b"%", b".") if junk else b""
        if spec.get("leadnl"):
            lead += b"\n"
        trail = b"\n" if not spec.get("trail") else b"\n" + bytes((32 + (i * 11) % 90) for i in range(spec["trail"])).replace(b"%", b".")
        if spec.get("notrail"):
            trail = b""
        kw = {}
        if spec.get("scattered"):
            kw["scattered"] = spec["scattered"]
        if spec.get("bad_annot"):
            kw["bad_annot"] = spec["bad_annot"]
        if spec.get("damage"):
            kw["damage"] = spec["damage"]
        if spec.get("bad_dest"):
            kw["bad_dest"] = {
                "null": ("cite.Bad", b"[4 0 R /XYZ null null null]"),
                "fit": ("cite.BadFit", b"[4 0 R /Fit]"),
                "page": ("cite.BadPage", b"[999 0 R /XYZ 10 10 null]"),
                "bytes": (b"cite.\xff\xfe\x80bad", b"[4 0 R /XYZ 40 700 null]"),
                "name": (b"\xe9\xff", b"[4 0 R /XYZ 40 700 null]"),
                "int": ("cite.BadInt", b"7"),
            }[spec["bad_dest"]]
        for k, a in (("size", "size"), ("cols", "twocol"), ("pp", "per_page")):
            if spec.get(k):
                kw[a] = spec[k]
        return minipdf.paper(refs, body=spec.get("body", 10), keys=keys, urls=urls, leading=lead,
                             trailing=trail, names_tree=spec.get("tree", True), **kw)
    raise KeyError(t)


def mangle(b, how):
    """Unusual but possible documents."""
    if how == "noeof":
        return b[:b.rindex(b"%%EOF")]
    if how == "eof_first":
        k = b.index(b"%PDF-")
        return b[:k] + b"%%EOF\njunk\n" + b[k:]
    if how == "eof_only_first":
        b = b[:b.rindex(b"%%EOF")]
        k = b.index(b"%PDF-")
        return b[:k] + b"%%EOF\njunk\n" + b[k:]
    if how == "two_eof":
        return b.rstrip() + b"\n% incremental\nstartxref\n0\n%%EOF\n\x00\x00"
    if how == "big_update":      # an incremental update larger than a read buffer
        return b.rstrip() + b"\n" + b"% incremental update \n" * 900 + b"startxref\n0\n%%EOF\n\x00\x00"
    if how == "header_in_trail":
        return b + b"garbage %PDF-1.1 garbage\n" * 3
    if how == "mention":
        return b.replace(b"References", b"the header %PDF-1.4 is explained below\nReferences", 1)
    if how == "mention_first":
        return b"ab %PDF-1.4 \n" + b
    if how == "eof_mention":
        return b.replace(b"References", b"a file ends in %%EOF and more\nReferences", 1)
    raise KeyError(how)


# ---------------------------------------------------------------- KBs
def kb_object(t, ks, root):
    """Materialise one KB spec entry.

    [form, variant] | ["lit", form, content] | ["none"] | ["missing"]
    """
    if ks[0] == "none":
        return None
    if ks[0] == "missing":
        return os.path.join(root, "kb", "missing.kb")
    if ks[0] == "at":            # a file that is (re)written before the call
        p = os.path.join(root, "kb", ks[1] + ".kb")
        with world.real["open"](p, "wb") as fh:
            fh.write(base64.b64decode(ks[2]))
        return p
    if ks[0] in ("iter", "failiter"):
        return kb_iter(t, ks)
    if ks[0] == "lit":
        form, val = ks[1], copy.deepcopy(ks[2])
        name = f"{t}-{sha(canon(val))[:10]}"
    else:
        form, val = ks[0], corpus.kb_value(t, ks[1], {"rdict": "dict", "set": "list", "deque": "list"}.get(ks[0], ks[0]))
        name = f"{t}-{ks[1]}"
    if form == "pairs":
        return dict(val)
    if form == "rdict":          # equal to the "dict" form, but in another order
        return dict(list(val.items())[::-1])
    if form in ("set", "deque"):
        return set(val) if form == "set" else collections.deque(val)
    if form == "path":
        # every list has the same file name, in a directory of its own
        p = os.path.join(root, "kb", name, "list.kb")
        if not os.path.exists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with world.real["open"](p, "w", encoding="utf-8") as fh:
                fh.write(val)
        return p
    return val


class KBSourceError(Exception):
    pass


def kb_iter(t, ks):
    """A one-shot iterable override; may fail after ks[2] entries."""
    vals = corpus.kb_value(t, ks[1], "list")
    for n, v in enumerate(vals):
        if ks[0] == "failiter" and n == ks[2] % len(vals):
            raise {"source": KBSourceError, "OSError": OSError, "ValueError": ValueError, "RuntimeError": RuntimeError,
                   "KeyError": KeyError, "cancel": core.SimAbortBase}[ks[3]]("simulated")
        yield v


def kb_objects(spec, root):
    if spec is None:
        return None
    return {t: kb_object(t, ks, root) for t, ks in spec.items()}


# ---------------------------------------------------------------- linkers
def el_key(el):
    """The content a linker would look an element up by."""
    t = el.get("type")
    if t == "JOURNAL":
        return "J|%s|%s|%s|%s" % (el.get("title"), el.get("volume"), el.get("year"), el.get("page"))
    if t == "REPORTNUMBER":
        return "R|%s" % el.get("report_num")
    if t == "DOI":
        return "D|%s" % el.get("doi_string")
    if t == "URL":
        return "U|%s" % el.get("url_string")
    if t == "ISBN":
        return "I|%s" % el.get("ISBN")
    if t == "HDL":
        return "H|%s" % el.get("hdl_id")
    if t == "BOOK":
        return "B|%s" % el.get("title")
    return None


def make_linker(spec, env, log):
    if not spec:
        return None
    mode = spec["mode"]

    def rid(el):
        k = el_key(el)
        if k is None:
            return None
        if mode == "const":
            return int(spec["v"])
        return int(sha(str(spec.get("salt", "")) + k)[:6], 16) + 1

    state = {"n": 0}
    calls = spec.get("calls", {})
    types = spec.get("types")

    def linker(el):
        env.w.event("link", "call")
        n = state["n"]
        state["n"] = n + 1
        act = calls.get(str(n))
        if act is None and types:
            act = types.get(el.get("type"))
        if act is not None:
            log.append([n, el.get("type"), el_key(el), "!" + act if act != "none" else None])
            if act == "KeyError":
                raise KeyError("no record %d" % n)
            if act == "IndexError":
                raise IndexError("no record %d" % n)
            if act == "none":
                return None
            if act == "LookupSub":
                raise LinkMiss(n)
            e = LINK_EXC[act]("linker failed %d" % n)
            env.raised.append(e)
            raise e
        if mode == "reenter" and n in spec["at"]:
            # a nested, complete use of the library from inside the callback
            out = run_op(spec["op"], env, [])
            env.nested.append([spec["op"], out])
        v = rid(el)
        log.append([n, el.get("type"), el_key(el), v])
        return v

    return linker


class LinkMiss(KeyError):
    pass


class LinkerDown(Exception):
    pass


LINK_EXC = {"LinkerDown": LinkerDown, "ValueError": ValueError, "TypeError": TypeError, "RuntimeError": RuntimeError,
            "AttributeError": AttributeError, "OSError": OSError, "LookupError": LookupError,
            "StopIteration": StopIteration, "TimeoutError": TimeoutError, "UnicodeError": UnicodeError,
            "AssertionError": AssertionError, "cancel": core.SimAbortBase, "ConnectionError": ConnectionError}


# ---------------------------------------------------------------- execution
class Env:
    def __init__(self, w):
        self.w = w
        self.nested = []
        self.raised = []     # exceptions a linker raised that must reach the caller
        self.live = []       # (op index, live result object, canonical form at return)
        self.kbargs = []

    def doc(self, spec, name=None, fresh=False):
        b = doc_bytes(spec)
        ext = {"pdf": "pdf", "txt": "txt"}.get(spec["t"], "dat")
        name = name or ("%s.%s" % (sha(b)[:12], ext))
        p = os.path.join(self.w.root, "doc", name)
        if fresh or not os.path.exists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with world.real["open"](p, "wb") as fh:
                fh.write(b)
            os.utime(p, (1500000000, 1500000000))    # as on a file system with coarse or preserved times
        return p


def call(fn, keep=None):
    """Run fn; outcome is {"ok": result} or {"err": exception type name}."""
    try:
        r = fn()
    except core.Stuck:
        raise
    except BaseException as e:  # noqa: B902
        if keep is not None:
            keep.append(e)
        return {"err": type(e).__name__, "msg": str(e)[:200]}
    return {"ok": r}


def run_op(op, env, linklog=None, kbs=None, keep=None, hold=None, api_=None):
    """Execute one op; returns a JSON-able outcome."""
    R, X, _ = api_ or api()
    k = op["k"]
    root = env.w.root
    if kbs is None:
        kbs = kb_objects(op.get("kbs"), root)
    ll = linklog if linklog is not None else []
    kw = {}
    for r in op.get("serve", ()):
        env.w.served[:] = [r] + [x for x in env.w.served if x["url"] != r["url"]]
    if k in ("string", "file", "url"):
        if op.get("fmt"):
            kw["reference_format"] = op["fmt"]
        if op.get("linker"):
            kw["linker_callback"] = make_linker(op["linker"], env, ll)
        if op.get("recid") is not None:
            kw["recid"] = op["recid"]
        if kbs is not None:
            kw["override_kbs_files"] = kbs
    if k == "string":
        if "only" in op:
            kw["is_only_references"] = op["only"]
        fn = lambda: R.extract_references_from_string(op["src"], **kw)  # noqa
    elif k == "journal":
        fn = (lambda: R.extract_journal_reference(op["line"], override_kbs_files=kbs)) if kbs is not None else \
            (lambda: R.extract_journal_reference(op["line"]))
    elif k == "file":
        p = op["path"] if "path" in op else env.doc(op["doc"], op.get("name"), op.get("fresh"))
        if not os.path.isabs(p):
            p = os.path.join(root, p)
        if op.get("rel"):
            p = os.path.relpath(p, getattr(env, "cwd", root))
        fn = lambda: R.extract_references_from_file(p, **kw)  # noqa
    elif k == "url":
        if op.get("chunk"):
            kw["chunk_size"] = op["chunk"]
        if op.get("headers"):
            kw["headers"] = op["headers"]
        fn = lambda: R.extract_references_from_url(op["url"], **kw)  # noqa
    elif k == "x_list":
        fn = lambda: X.extract_references_from_list(op["items"], (kbs or {}).get("journals"))  # noqa
    elif k == "x_text":
        fn = lambda: X.extract_references_from_text(op["src"], (kbs or {}).get("journals"))  # noqa
    elif k == "x_jinfo":
        fn = lambda: X.extract_journal_info(op["infos"], (kbs or {}).get("journals"))  # noqa
    elif k == "x_url":
        fn = lambda: X.extract_references_from_file_url(op["url"], (kbs or {}).get("journals"))  # noqa
    else:
        raise KeyError(k)
    out = call(fn, keep)
    if hold is not None and "ok" in out:
        hold.append(out["ok"])
    if "ok" in out:
        return {"ok": json.loads(canon(out["ok"]))}
    out["msg"] = out["msg"].replace(root, "<S>")
    return out


def same(a, b):
    """Outcomes equal: same result, or same exception type."""
    if "ok" in a or "ok" in b:
        return "ok" in a and "ok" in b and a["ok"] == b["ok"]
    return a["err"] == b["err"]
