"""Sources and formatter configurations for C05 and C06."""
import os, re
import fmtgen, mesonparse
from vlib import REPO, read

BOOLS = ["space_array", "kwargs_force_multiline", "wide_colon", "no_single_comma_function"]


def config(r):
    """random formatter configuration -> dict of files and fmt arguments"""
    if r.random() < .15:
        return {}, []
    out = []
    if r.random() < .6:
        out.append("max_line_len = %d" % r.choice([0, 1, 5, 20, 40, 60, 79, 80, 81, 100, 1000, 100000]))
    if r.random() < .35:
        out.append("indent_by = '%s'" % r.choice(["\t", " ", "  ", "        ", "   ", "", " " * 40]))
    for b in BOOLS:
        if r.random() < .35:
            out.append("%s = %s" % (b, r.choice(["true", "true", "true", "false"])))
    r.shuffle(out)
    files, args = {"c.ini": "\n".join(out) + "\n"}, ["-c", "c.ini"]
    if r.random() < .2:
        ec = ["root = true", r.choice(["[*]", "[*.build]", "[{meson.build,*.build,*.meson}]", "[f.*]"])]
        for k, v in (("indent_style", r.choice(["space", "tab"])), ("indent_size", r.choice(["1", "2", "3", "8", "tab"])), ("tab_width", "4"),
                     ("max_line_length", r.choice(["40", "80", "off", "1"]))):
            if r.random() < .6:
                ec.append("%s = %s" % (k, v))
        files[".editorconfig"] = "\n".join(ec) + "\n"
        args = args + ["-e"] if r.random() < .5 else ["-e"]
    return files, args


def corpus():
    out = []
    for d, dn, fn in os.walk(os.path.join(REPO, "tests")):
        dn.sort()
        for f in sorted(fn):
            if f.endswith(".meson") or f in ("meson.build", "meson_options.txt", "meson.options"):
                p = os.path.join(d, f)
                if os.path.getsize(p) < 9000:
                    try:
                        t = read(p).decode()
                    except UnicodeDecodeError:
                        continue
                    ext = f.endswith(".meson")
                    try:
                        mesonparse.parse(t, ext)
                    except mesonparse.Bad:
                        continue
                    out.append((t, ext))
    return out


def relayout(r, text, comments, wild):
    """the tokens of a real file laid out in another way"""
    t, _ = mesonparse.tokens(text)
    return fmtgen.layout(r, [x[1] for x in t], comments, wild)


NOISE = re.compile(r"\A[^\n]*leaving it unchanged\n")


def strip_notice(text):
    """output of fmt without the notice that the file is left alone"""
    m = NOISE.match(text)
    return (text[m.end():], True) if m else (text, False)
