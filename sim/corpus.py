"""Workload material: reference lines, knowledge-base variants, documents.

Every KB variant of a type maps the same tokens to replacement values that name
the type and the variant, so a result shows exactly which KB produced it.
"""
import json
import os

from . import minipdf

HERE = os.path.dirname(os.path.abspath(__file__))
CORPUS = os.path.join(os.path.dirname(HERE), "corpus")

KB_TYPES = (
    "journals", "journals_re", "report-numbers", "authors",
    "books", "publishers", "special_journals", "collaborations",
)
PAIR_TYPES = ("journals", "publishers", "collaborations")
LINE_TYPES = ("journals_re", "report-numbers", "authors", "special_journals")
FORMS = {t: (("path", "dict", "list") if t in PAIR_TYPES else ("path", "list")) for t in KB_TYPES}
FORMATS = ("{title} {volume} ({year}) {page}", "{title},{volume},{page}", "{title}|{volume}|{year}|{page}")


NVAR = 8


def kb_value(kb_type, variant, form):
    """JSON-able contents of variant `variant` of a KB type in a given form.

    For "path" the value is the text of the file.  Variants 4-7 are the variants
    0-3 with the right-hand sides permuted: the same search terms, the same
    replacements and the same sizes, but another mapping.  The order of entries
    matters in every type that has an order.
    """
    v, rot = int(variant) % 4, int(variant) >= 4
    if kb_type == "journals":
        pairs = [["SIMUL LETT", f"Simul.Lett.J{v}"], ["SIM SPECIAL", "Sim.Special"],
                 ["PHYS REV", "Phys.Rev."], ["J HIGH ENERGY PHYS", "JHEP"], ["JHEP", "JHEP"],
                 ["NUCL PHYS", f"Nucl.Phys.J{v}"], ["PHYS LETT", "Phys.Lett."],
                 ["TWIN ALPHA", "Twin.First"], ["ALPHA TWIN", "Twin.Second"],
                 ["ECHO SIM", "\u00c9cho.Sim."]]
        if v % 2:
            pairs.append([f"ONLY IN J{v}", f"Only.In.J{v}"])
        if v % 3 == 0:
            pairs.append(["SIMUL SERIES", "Simul.Series;B"])
    elif kb_type == "publishers":
        pairs = [["SIMPRESS", f"Simpress P{v}"], ["SPRINGER", f"Springer P{v}"], ["SIMPRESS BERLIN", f"Simpress Bln P{v}"]]
    elif kb_type == "collaborations":
        pairs = [["ATLAS Collaboration", f"ATLAS C{v}"], ["SIMGRP and SIMDET", f"SIMGRP C{v}"], ["SIMDET", f"SIMDET C{v}"]]
        if v & 1:
            pairs.append(["SIMCOL Collaboration", f"SIMCOL C{v}"])
        if v & 2:
            pairs.append(["SIMEXP Collaboration", f"SIMEXP C{v}"])
    elif kb_type == "journals_re":
        pairs = [["SIMRE", f"SimRe.Trans.R{v}"], ["SIMRE DAN", "Simre.Dan"], ["DAN", "Dokl.Akad.Nauk"]]
        if v % 2:
            pairs.append(["SIMUL LETT", f"Simul.Lett.Re{v}"])
    elif kb_type == "report-numbers":
        c = [["SIM REP", f"SIM-REP-N{v}"], ["HEP TH", "hep-th"], ["HEP PH", f"hep-ph-N{v}"]]
        if rot:
            c = _rotate(c, kb_type)
        lines = ["*****SIMINST*****", "<s99999>", "<syymm999>", "", "---".join(c[0]),
                 "*****LANL*****", "<s/syymm999>", "<syymm999>", "", "---".join(c[1]), "---".join(c[2])]
    elif kb_type == "authors":
        pairs = [["Qxz Simauthor", f"Q. Simauthor{'abcd'[v]}"], ["B. Writer", "B. Writerx"], ["Writerx", f"Wryter{'abcd'[v]}"]]
    elif kb_type == "special_journals":
        lines = ["JHEP"] + (["Sim.Special"] if v % 2 else []) + [f"Special{v}"]
        if rot:
            lines = ["Phys.Rev."] + lines[1:]
    elif kb_type == "books":
        rows = [[f"Simbook, B{v}.", "Simulated Books of Everything", f"{1990 + v};"],
                ["Knuth, D.", "The Art of Simulation", "1997;"],
                ["Knuth, E.", "Art of Simulation", "1997;"],
                ["Anon, A.", "Undated Simulations", ";"]]
        if rot:
            rows = [[a[0], b[1], b[2]] for a, b in zip(rows[1:3] + rows[:1] + rows[3:], rows)]
            rows[0][2], rows[1][2], rows[2][2] = "1992;", f"{1990 + v};", "1997;"
        if form == "path":
            return "\n".join("|".join(r) for r in rows) + "\n"
        return rows
    else:
        raise KeyError(kb_type)
    if kb_type in PAIR_TYPES:
        if rot:
            pairs = _rotate(pairs, kb_type)
        if form == "path":
            return "".join(f"{a}---{b}\n" for a, b in pairs)
        return dict(pairs) if form == "dict" else pairs
    if kb_type in ("journals_re", "authors"):
        if rot:
            pairs = _rotate(pairs, kb_type)
        lines = ["---".join(x) for x in pairs]
    if form == "path":
        return "\n".join(lines) + "\n"
    return lines


def _rotate(pairs, kb_type):
    """The same left and right sides, matched differently (same order of keys of the loaded KB)."""
    if kb_type == "collaborations":       # keyed by the right-hand side
        lhs = ("SIMEXP Collaboration", "SIMCOL Collaboration", "SIMGRP and SIMDET", "SIMDET", "ATLAS Collaboration")
        return [[a, b] for a, (_, b) in zip(lhs, pairs)]
    rhs = [b for _, b in pairs]
    if kb_type == "report-numbers":
        return [[a, b] for (a, _), b in zip(pairs, rhs[::-1])]
    return [[a, b] for (a, _), b in zip(pairs, rhs[1:] + rhs[:1])]


# Lines whose result depends on every KB type.
SYNTH = [
    "[1] A. Author, Simul. Lett. 12 (2001) 345.",
    "[2] Qxz Simauthor and B. Writer, Simul. Lett. B 7 (1999) 12; Phys. Rev. D 55 (1997) 100.",
    "[3] C. Coder, SIM-SPECIAL 03 (2005) 17, Sim Special 4 (2007) 21",
    "[4] SIMCOL Collaboration, D. Dev et al., SIM-REP-12345, Nucl. Phys. B 1 (2000) 2",
    "[5] SIMEXP Collaboration, E. Editor, Simulated Books of Everything (Simpress, 1991)",
    "[6] B. Simbook, \"Simulated Books of Everything\", Simpress, Berlin 1992",
    "[7] F. Fiz, SIMRE 33 (1988) 44, DAN 12 (1970) 3",
    "[8] G. Guy, hep-ph/9901001, hep-th/9711200, arXiv:1503.07589 [hep-th]",
    "[9] H. Hand, Simul. Lett. 5 (2003) 6, doi:10.1000/sim.{0} , http://sim.example.org/p{0}",
    "[10] I. Inv, J. High Energy Phys. 05 (2003) 031, JHEP 0301 (2003) 002",
    "[11] Simul. Lett. A 3 (1977) 1; ibid. 4 (1978) 2; ibid. B 5, 6 (1979)",
    "[12] J. Jot, Only in J1 7 (2001) 8; Only in J3 9 (2002) 10, Springer Verlag 1990",
    "[13] ATLAS Collaboration, K. Kay, Phys. Lett. B 716 (2012) 1, ISBN 978-0-521-67053-1, hdl:10234/2263",
    "[14] L. Lim, Simul. Series 9 (2010) 11; M. Mim, Phys. Rev. Lett. 13 (1964) 508; N. Nim, hep-th/9901002",
    "[15] O. Oak, arXiv:1207.7214; P. Pal, Phys. Lett. B 716, 30 (2012); SIM-REP-54321",
    "[16] Q. Quo et al., \"A quoted title\", Sim Special 11 (2001) 5 , 1508.05632 , 0704.0001",
    "[17] R. Roe, Twin Alpha Twin 3 (2001) 5; B. Writer and S. Sim, Simul. Lett. 4 (2002) 6, hep-th/9902003",
    "[18] SIMGRP and SIMDET Collaborations, T. Tau, SIMRE DAN 44 (1999) 5",
    "[19] D. Knuth, The Art of Simulation, Simpress Berlin 1997",
    "[20] U. Uno,  Nucl. Phys.  B 4 , 55 (1967) ; V. Vee ,  Phys. Lett. . 9 (1964) 12 ,  SIM-REP-11111",
    "[21] W. Wu, ibid. 7 (1980) 3; Echo Sim 8 (1981) 4; ibid. B 9 (1982) 5",
    "[23] X. Xi, Undated Simulations, Simpress 1984",
    "[24] Y. Yt, Undated Simulations (1985), vol. 2",
    "[25] Z. Zed, JHEP 11, 1998; A. Abe, Sim Special 9, 2001",
    "[26] C. Cee, JHEP 08 (2004) 12; D. Dee, Sim Special 3 (1999) 77",
    "[22] ibid. 17 (1983) 30, http://arxiv.org/abs/1207.7214 , hdl.handle.net/10234/2264",
    "[27] A. Roman, Simul. Lett. XII (2001) 345; B. Romani, Phys. Rev. xiv (1988) 6",
    "[28] C. Suppl, Nucl. Phys. Proc. Suppl. B 37 (1994) 22; D. Mangle, Phys. Lett. 100B (1981) 117, Phys. Lett. 107B, 201 (1981)",
    "[29] E. Extra, Phys. Rev. D 12 (1975) 1502; 13 (1976) 4; B14, 335 (1977), see also some words; and more words without anything",
    "[30] F. Posit, PoS LAT2007 (2007) 369; G. Posit, PoS(EPS-HEP2009)044; H. Posit, Proc. Sci. LATTICE2010 (2010) 12",
    "[31] I. M\u00fcller, J. D\u00fcrr et al., in K. Edit and L. Redit (eds.), Simulated Proceedings, edited by M. Booker, Simpress 1999 [SIM-REP-77777]",
    "[32] N. Html, <a href=\"http://sim.example.org/h\">a description</a>, http://hdl.handle.net/10234/2265 , http://sim.example.org/dot.",
    "[33] O. Doiman, doi:10.1000%2Fsim.7, DOI 10.1000/sim.8, http://dx.doi.org/10.1000/sim.8; SIMDET Collaboration and SIMDET Collaboration, P. Dup, SIM-REP-88888",
    "[34] Q. Thesis, Ph. D. thesis, Simulated University, 2003 (unpublished), private communication; and R. Later et al, T. Soon, in preparation",
    "[35] S. Conf, Proceedings of the Simulated Conference, C99-08-01, p. 12, vol. 3, no. 4 (1999) pp. 10-20; Simul. Lett. vol. 5, no. 3, pp. 10-20 (1999)",
    "[36] T. Old, hep-ph 9901234; ASTRO-PH/0101234v2; arXiv:math.GT/0309136; cond-mat/9612001 , quant-ph/0001001, CERN-TH-6012-91",
    "[37] Phys. Rev. D 44 (1991) 1; 7 (1992) 2, [Erratum: ibid. 45 (1992) 3], Simul. Lett. 9 (2001) 120-129, JINST 3 (2008) P08001, S08004",
    "[38] U. Vee and W. Exx, \"A title with Simul. Lett. in it\", hep-th/9901001 [hep-th/9901002], (1999), 2-921-12345-6, ISBN 0-521-67053-3",
    "[39] et al. Nothing; words, words; 12 (1999) 5; Alpha Twin 9 (2003) 4; SIMDET",
]


def _load_lines():
    with open(os.path.join(CORPUS, "lines.json"), encoding="utf-8") as fh:
        return json.load(fh)


_LINES = None


def lines():
    global _LINES
    if _LINES is None:
        _LINES = _load_lines()
    return _LINES


def pick_line(rng):
    r = rng.random()
    if r < 0.75:
        line = rng.choice(SYNTH)
        return line.replace("{0}", str(rng.randrange(4)))
    return rng.choice(lines())


MARKS = ("[%d]", "%d.", "(%d)", "%d)", "{%d}", "<%d>", "%d]", "%d", "[Ab%d]", "*")


def remark(lines, style):
    """The lines with markers of another style, numbered from 1."""
    return [(style % (i + 1) if "%" in style else style) + " " + strip_marker(ln) for i, ln in enumerate(lines)]


def pick_source(rng, maxlines=4):
    n = rng.choice((1, 1, 2, 3, maxlines))
    ls = [pick_line(rng) for _ in range(n)]
    if rng.random() < 0.4:
        ls = remark(ls, rng.choice(MARKS))
    return "\n".join(ls)


def pick_kbs(rng, full=True, nvar=NVAR, types=KB_TYPES, forms=None):
    """A KB override spec: {type: [form, variant]}; `full` overrides all types."""
    spec = {}
    for t in types:
        if full or rng.random() < 0.4:
            f = rng.choice(forms or FORMS[t])
            if f not in FORMS[t]:
                f = FORMS[t][-1]
            spec[t] = [f, rng.randrange(nvar)]
    return spec


def fulltext(rng, nrefs=None, body=12):
    """Lines of a plain-text document with a reference section."""
    n = nrefs or rng.randrange(3, 9)
    out = ["A simulated paper", "", "1 Introduction"]
    out += [f"This is line {i} of the body, which cites things [{1 + i % n}]." for i in range(body)]
    out += ["", "References"]
    out += [f"[{i + 1}] " + strip_marker(pick_line(rng)) for i in range(n)]
    return out


def strip_marker(line):
    line = line.strip()
    if line.startswith("[") and "]" in line[:8]:
        return line[line.index("]") + 1:].strip()
    return line
