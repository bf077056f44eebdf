"""Hand-made small PDFs: text, cite.* named destinations, URI annotations.

make_pdf(...) is a pure function of its arguments; documents are a few KB.
"""


def _esc(s):
    s = s.replace("\\", "\\\\").replace("(", "\\(").replace(")", "\\)")
    return s.encode("cp1252", "replace")


def make_pdf(pages, dests=(), links=(), names_tree=True, leading=b"", trailing=b"\n",
             bad_annot=False, bad_dest=None, header=b"%PDF-1.4\n", scattered=False, damage=None, size=None):
    """pages: list of lists of text lines.
    dests: (name, page index, left, top);  links: (page index, rect, uri)
    scattered: draw the text column by column, so that only a layout-preserving
    conversion finds lines in it.
    bad_annot: add an annotation without an action; bad_dest: raw extra dest array.
    """
    objs = {}  # num -> bytes
    npg = len(pages)
    cat, pgs, font = 1, 2, 3
    page_no = {i: 4 + 2 * i for i in range(npg)}
    nxt = 4 + 2 * npg
    annots = {i: [] for i in range(npg)}
    for pg, rect, uri in links:
        objs[nxt] = b"<< /Type /Annot /Subtype /Link /Rect [%s] /Border [0 0 0] /A << /S /URI /URI (%s) >> >>" % (
            " ".join(str(x) for x in rect).encode(), _esc(uri))
        annots[pg].append(nxt)
        nxt += 1
    if bad_annot:
        bpg, rect = npg - 1, b"[60 700 70 710]"
        if dests:      # inside the first reference
            _, bpg, left, top = dests[0]
            rect = b"[%d %d %d %d]" % (left + 20, top - 11, left + 30, top - 1)
        objs[nxt] = {
            True: b"<< /Type /Annot /Subtype /Text /Rect [0 0 1 1] >>",
            "noaction": b"<< /Type /Annot /Subtype /Link /Rect [0 0 1 1] >>",
            "nullaction": b"<< /Type /Annot /Subtype /Link /Rect [0 0 1 1] /A null >>",
            "numaction": b"<< /Type /Annot /Subtype /Link /Rect [0 0 1 1] /A 7 >>",
            "norect": b"<< /Type /Annot /Subtype /Link /A << /S /URI /URI (http://norect.example.org/) >> >>",
            "badrect": b"<< /Type /Annot /Subtype /Link /Rect [1 /x] /A << /S /URI /URI (http://badrect.example.org/) >> >>",
            "numuri": b"<< /Type /Annot /Subtype /Link /Rect %s /A << /S /URI /URI 12 >> >>" % rect,
            "byteuri": b"<< /Type /Annot /Subtype /Link /Rect %s /A << /S /URI /URI (\\377\\376\\001http) >> >>" % rect,
            "nulluri": b"<< /Type /Annot /Subtype /Link /Rect %s /A << /S /URI /URI null >> >>" % rect,
            "array": b"[1 2 3]",
            "null": b"null",
        }[bad_annot]
        annots[bpg].append(nxt)
        nxt += 1
    ditems = []
    for name, pg, left, top in sorted(dests):
        ditems.append((name, b"[%d 0 R /XYZ %s %s null]" % (page_no[pg], str(left).encode(), str(top).encode())))
    if bad_dest is not None:
        ditems.append(bad_dest)
        ditems.sort(key=lambda d: d[0] if isinstance(d[0], bytes) else d[0].encode())
    extra = b""
    if ditems:
        def nm(n):
            return n if isinstance(n, bytes) else n.encode()
        if names_tree:
            body = b" ".join(b"(%s) %s" % (nm(n), d) for n, d in ditems)
            objs[nxt] = b"<< /Names [%s] >>" % body
            extra = b" /Names << /Dests %d 0 R >>" % nxt
            nxt += 1
        else:
            body = b" ".join(b"/%s %s" % (nm(n), d) for n, d in ditems)
            objs[nxt] = b"<< %s >>" % body
            extra = b" /Dests %d 0 R" % nxt
            nxt += 1
    objs[cat] = b"<< /Type /Catalog /Pages %d 0 R%s >>" % (pgs, extra)
    objs[pgs] = b"<< /Type /Pages /Count %d /Kids [%s] >>" % (
        npg, b" ".join(b"%d 0 R" % page_no[i] for i in range(npg)))
    objs[font] = b"<< /Type /Font /Subtype /Type1 /BaseFont /%s /Encoding /WinAnsiEncoding >>" % (b"Courier" if scattered else b"Helvetica")
    for i, lines in enumerate(pages):
        y = 760
        parts = [b"BT /F1 9 Tf"]
        if scattered:
            for col in range(0, max([len(ln) for ln in lines] or [0]), scattered):
                for k, ln in enumerate(lines):
                    piece = ln[col:col + scattered]
                    if piece.strip():
                        parts.append(b"1 0 0 1 %.1f %d Tm (%s) Tj" % (40 + 5.4 * col, y - 12 * k, _esc(piece)))
            lines = []
        for ln in lines:
            if isinstance(ln, tuple):
                x, y_, txt = ln
                parts.append(b"1 0 0 1 %d %d Tm (%s) Tj" % (x, y_, _esc(txt)))
            else:
                parts.append(b"1 0 0 1 40 %d Tm (%s) Tj" % (y, _esc(ln)))
                y -= 12
        parts.append(b"ET")
        stream = b"\n".join(parts)
        an = b""
        if annots[i]:
            an = b" /Annots [%s]" % b" ".join(b"%d 0 R" % a for a in annots[i])
        objs[page_no[i]] = (
            b"<< /Type /Page /Parent %d 0 R /MediaBox [0 0 612 792] /Contents %d 0 R"
            b" /Resources << /Font << /F1 %d 0 R >> >>%s >>" % (pgs, page_no[i] + 1, font, an))
        objs[page_no[i] + 1] = b"<< /Length %d >>\nstream\n%s\nendstream" % (len(stream), stream)
    if damage == "annots_num":
        objs[page_no[0]] = objs[page_no[0]].replace(b" /Contents", b" /Annots 5 /Contents", 1) if b"/Annots" not in objs[page_no[0]] else objs[page_no[0]]
    elif damage == "annots_missing_obj":
        objs[page_no[0]] = objs[page_no[0]].replace(b"/Annots [", b"/Annots [9999 0 R ", 1)
    elif damage == "names_loop" and b"/Names" in extra:
        objs[nxt - 1] = b"<< /Kids [%d 0 R] >>" % (nxt - 1)
    elif damage == "names_null" and b"/Names" in extra:
        objs[nxt - 1] = b"null"
    elif damage == "names_odd" and b"/Names" in extra:
        objs[nxt - 1] = objs[nxt - 1].replace(b"/Names [", b"/Names [(cite.Odd) ", 1)
    elif damage == "nocrop":
        for n in list(objs):
            objs[n] = objs[n].replace(b"/MediaBox [0 0 612 792]", b"/MediaBox [0 0 612 792] /CropBox [0 /q]")
    out = bytearray(header + b"%\xe2\xe3\xcf\xd3\n")
    offs = {}
    for n in sorted(objs):
        offs[n] = len(out)
        out += b"%d 0 obj\n" % n + objs[n] + b"\nendobj\n"
    total = max(objs) + 1
    if size:      # a comment that makes the file exactly so long
        tail = 20 * total + len(b"xref\n0 %d\n" % total) + len(
            b"trailer\n<< /Size %d /Root %d 0 R >>\nstartxref\n%d\n%%%%EOF" % (total, cat, size))
        pad = size - len(out) - tail - len(leading) - len(trailing)
        if pad > 2:
            out += b"%" + b"x" * (pad - 2) + b"\n"
    xref = len(out)
    out += b"xref\n0 %d\n0000000000 65535 f \n" % total
    for n in range(1, total):
        out += b"%010d 00000 n \n" % offs[n] if n in offs else b"0000000000 65535 f \n"
    out += b"trailer\n<< /Size %d /Root %d 0 R >>\nstartxref\n%d\n%%%%EOF" % (total, cat, xref)
    return leading + bytes(out) + trailing


def paper(reflines, body=20, keys=None, urls=(), per_page=40, twocol=False, **kw):
    """A paper whose last lines are a reference section with one texkey per line.

    urls: list of (ref index, uri).  reflines: text without markers.
    twocol: 0 or the number of references on a page of two columns.
    """
    pages = [[]]
    dests, links = [], []
    pages[0] = ["A simulated paper", "", "1 Introduction"] + [
        f"This is line {i} of the body, which cites many other papers." for i in range(body)]
    if kw.get("scattered"):
        pages[0] = ["A simulated paper", "", "Introduction"] + ["This is a line of the body, which cites papers."] * body
    elif len(pages[0]) > 55:
        pages = [pages[0][k:k + 50] for k in range(0, len(pages[0]), 50)]
    width = 48 if twocol else 95
    flat = ["References"]
    owner = [None]
    for i, r in enumerate(reflines):
        words = f"[{i + 1}] {r}".split(" ")
        cur = ""
        first = True
        for w in words:
            if len(cur) + len(w) > width:
                flat.append(cur)
                owner.append((i, first))
                first = False
                cur = w
            else:
                cur = (cur + " " + w).strip()
        flat.append(cur)
        owner.append((i, first))
    page = len(pages) - 1
    pos = {}
    if twocol:      # on new pages, left column first, half of the references in each
        half = (len(reflines) + 1) // 2
        for part in range(0, len(reflines), twocol):
            pages.append([(40, 760, "References" if not part else "Page %d" % len(pages))])
            page += 1
            half = (min(twocol, len(reflines) - part) + 1) // 2
            for c in (0, 1):
                y = 745
                for ln, ow in zip(flat, owner):
                    if ow and (ow[0] - part) // half == c and part <= ow[0] < part + twocol:
                        pages[page].append((40 + 280 * c, y, ln))
                        if ow[1]:
                            pos[ow[0]] = (page, y, 40 + 280 * c)
                        y -= 12
        flat = []
    for ln, ow in zip(flat, owner):
        if len(pages[page]) >= per_page:
            pages.append([])
            page += 1
        y = 760 - 12 * len(pages[page])
        pages[page].append(ln)
        if ow and ow[1]:
            pos[ow[0]] = (page, y, 40)
    if keys:
        for i, k in enumerate(keys):
            if k is None or i not in pos:
                continue
            pg, y, x = pos[i]
            dests.append((f"cite.{k}", pg, x, y + 9))
    for k, (i, uri) in enumerate(urls):
        pg, y, x = pos[i]
        links.append((pg, (x + 20 + 3 * k, y - 2, x + 120 + 3 * k, y + 8), uri))
    return make_pdf(pages, dests=dests, links=links, **kw)
