"""A reader for N-Triples and Turtle (without collections), independent of the libraries hangover uses.
Facts are (subject, predicate, object), names as they are, texts as (text, language)."""
import re

XSD = "http://www.w3.org/2001/XMLSchema#"
TYPE = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"


class Bad(Exception):
    pass


def unescape(s, iri=False):
    def sub(m):
        t = m.group(0)
        if t[1] in "uU":
            return chr(int(t[2:], 16))
        if iri or t[1] not in "tbnrf\"'\\":
            raise Bad(f"escape {t}")
        return dict(t="\t", b="\b", n="\n", r="\r", f="\f").get(t[1], t[1])
    return re.sub(r"\\(u[0-9A-Fa-f]{4}|U[0-9A-Fa-f]{8}|.|$)", lambda m: sub(m), s, flags=re.S)


IRI = re.compile(r'<((?:[^\x00-\x20<>"{}|^`\\]|\\u[0-9A-Fa-f]{4}|\\U[0-9A-Fa-f]{8})*)>')
STR = re.compile(r'"((?:[^"\\\n\r]|\\.)*)"')
LANG = re.compile(r"@([a-zA-Z]+(?:-[a-zA-Z0-9]+)*)")
WS = re.compile(r"[ \t]*")


def absolute(i):
    if not re.match(r"[A-Za-z][A-Za-z0-9+.-]*:", i):
        raise Bad(f"relative name <{i}>")
    return i


def ntriples(text):
    """facts of an N-Triples document, in order"""
    out = []
    for line in re.split(r"[\r\n]+", text):
        at = WS.match(line).end()
        if at == len(line) or line[at] == "#":
            continue

        def iri(at):
            m = IRI.match(line, at)
            if not m:
                raise Bad(f"no name at {at} in {line!r}")
            return absolute(unescape(m.group(1), True)), WS.match(line, m.end()).end()
        s, at = iri(at)
        p, at = iri(at)
        m = STR.match(line, at)
        if m:
            o, at, lang = unescape(m.group(1)), m.end(), ""
            l = LANG.match(line, at)
            if l:
                lang, at = l.group(1), l.end()
            elif line.startswith("^^", at):
                dt, at = iri(at + 2)
                if dt != XSD + "string":
                    raise Bad(f"datatype {dt}")
            o = (o, lang)
            at = WS.match(line, at).end()
        else:
            o, at = iri(at)
        if line[at:at + 1] != "." or not re.match(r"[ \t]*(#.*)?$", line[at + 1:]):
            raise Bad(f"no end of statement at {at} in {line!r}")
        out.append((s, p, o))
    return out


PNB = "A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF"
PNU = PNB + "_"
PNC = PNU + "0-9\u00B7\u0300-\u036F\u203F-\u2040-"
PLX = r"%[0-9A-Fa-f]{2}|\\[_~.\-!$&'()*+,;=/?#@%]"
TOKENS = re.compile("|".join([
    r"(?P<ws>[ \t\r\n]+|#[^\r\n]*)",
    r"(?P<iri><(?:[^\x00-\x20<>\"{}|^`\\]|\\u[0-9A-Fa-f]{4}|\\U[0-9A-Fa-f]{8})*>)",
    r'(?P<long>"""(?:(?:"|"")?(?:[^"\\]|\\.))*"""|\'\'\'(?:(?:\'|\'\')?(?:[^\'\\]|\\.))*\'\'\')',
    r'(?P<str>"(?:[^"\\\n\r]|\\.)*"|\'(?:[^\'\\\n\r]|\\.)*\')',
    r"(?P<dir>@prefix\b|@base\b)",
    r"(?P<lang>@[a-zA-Z]+(?:-[a-zA-Z0-9]+)*)",
    rf"(?P<pn>(?:[{PNB}](?:[{PNC}.]*[{PNC}])?)?:(?:(?:[{PNU}:0-9]|{PLX})(?:(?:[{PNC}.:]|{PLX})*(?:[{PNC}:]|{PLX}))?)?)",
    r"(?P<num>[+-]?(?:[0-9]+\.[0-9]*[eE][+-]?[0-9]+|\.[0-9]+[eE][+-]?[0-9]+|[0-9]+[eE][+-]?[0-9]+|[0-9]*\.[0-9]+|[0-9]+))",
    r"(?P<word>a\b|true\b|false\b|PREFIX\b|BASE\b)",
    r"(?P<punct>\^\^|[.;,])"]), re.S)


def turtle(text):
    """facts of a Turtle document, in order"""
    toks, at = [], 0
    while at < len(text):
        m = TOKENS.match(text, at)
        if not m:
            raise Bad(f"no token at {at}: {text[at:at + 40]!r}")
        if m.lastgroup != "ws":
            toks.append((m.lastgroup, m.group(0)))
        at = m.end()
    toks.append(("end", ""))
    pos, ns, base, out = 0, {}, None, []

    def take(kind=None, val=None):
        nonlocal pos
        t = toks[pos]
        if (kind and t[0] != kind) or (val and t[1] != val):
            raise Bad(f"{t} instead of {kind} {val}")
        pos += 1
        return t[1]

    def name():
        k, v = toks[pos]
        if k == "iri":
            take()
            return absolute(unescape(v[1:-1], True)) if base is None else v[1:-1]
        if k == "pn":
            take()
            pre, local = v.split(":", 1)
            if pre not in ns:
                raise Bad(f"prefix {pre}")
            return ns[pre] + re.sub(r"\\(.)", r"\1", local)
        raise Bad(f"{v!r} instead of a name")

    def obj():
        k, v = toks[pos]
        if k in ("str", "long"):
            take()
            q = 3 if k == "long" else 1
            s, lang = unescape(v[q:-q]), ""
            if toks[pos][0] == "lang":
                lang = take()[1:]
            elif toks[pos] == ("punct", "^^"):
                take()
                dt = name()
                if dt != XSD + "string":
                    raise Bad(f"datatype {dt}")
            return (s, lang)
        if k in ("num", "word"):
            raise Bad(f"{v} is not a string")
        return name()
    while toks[pos][0] != "end":
        k, v = toks[pos]
        if v in ("@prefix", "PREFIX"):
            take()
            p = take("pn")
            ns[p[:-1]] = unescape(take("iri")[1:-1], True)
            if v[0] == "@":
                take("punct", ".")
            continue
        if v in ("@base", "BASE"):
            raise Bad("base")
        s = name()
        while True:
            if toks[pos] == ("word", "a"):
                take()
                p = TYPE
            else:
                p = name()
            out.append((s, p, obj()))
            while toks[pos] == ("punct", ","):
                take()
                out.append((s, p, obj()))
            if toks[pos] != ("punct", ";"):
                break
            while toks[pos] == ("punct", ";"):
                take()
            if toks[pos] == ("punct", "."):
                break
        take("punct", ".")
    return out
