"""Sites: data sets served by the viewer (C11 to C15, C18, C22, C23)."""
import graphlib as g
from scen import R, D  # noqa


def bundle(id, path, fields=(), children=(), **kw):
    return dict(dict(id=id, path=path, fields=list(fields), children=list(children)), **kw)


def field(id, path, dt="", type="", **kw):
    return dict(dict(id=id, path=path, dt=dt, type=type), **kw)


# names of resources as they occur in the wild
ODD = ["a%2Fb", "a+b", "a%2Bb", "a&b=c", "x?y=1&z=2", "x#frag", "x?uri=http://v.example/x1", "%20", "%25", "100%", "%zz", "a;b", "a,b", "it's", "(x)", "~me", "*", "$", "!", "@",
       "\u00e4\u00f6", "\u4e2d\u6587", "\U0001f600", "%C3%A4", "a/", "a//b", "a/../b", "..", "a:b", "a=b", "A", "a", "x%00y", "a b", "a  b", "a\"b", "a<b>c", "</a><b>", "a|b", "{{.}}", "a\\b", "a^b", "a`b", "a\tb", "&amp;", "&lt;b&gt;", "%3Cb%3E"]
SCHEMES = ["http://w.example/", "https://w.example/", "http://v.example/", "urn://w/", "HTTP://W.example/", "http://w.example:8080/", "http://w.example/wisski/navigate/"]


def odd(rng, fixed=(), share=.8):
    """a renaming of resources to odd names, some of them to those given"""
    def make():
        names, used, fix = {}, set(), list(fixed)
        rng.shuffle(fix)

        def f(l):
            if not l.startswith("x"):
                return l
            while l not in names:
                n = fix.pop() if fix and rng.random() < .4 else rng.choice(SCHEMES) + rng.choice(ODD) + (l if rng.random() < .2 else "") if rng.random() < share else "http://v.example/" + l
                if n.startswith("http://v.example/"):
                    n = n[len("http://v.example/"):]
                    if "://" in n or n in ("", "type", "same", "eqc", "eqp", "inv", "-") or n.startswith("#"):
                        continue
                if n not in used:
                    used.add(n)
                    names[l] = n
            return names[l]
        return f
    return make
