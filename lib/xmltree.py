"""Independent XML reading (expat) and writing for the XML checks."""
import math, random, re
from xml.parsers import expat


class Node:
    __slots__ = ("name", "kids", "text", "kind", "ns", "attrs")

    def __init__(self, name):
        self.name, self.kids, self.text, self.kind, self.ns, self.attrs = name, [], "", None, None, {}


def parse_expected(s):
    """Canonical lines -> list of root nodes ("(name" / "=kind:value" / ")" / "?name" absent)."""
    root = Node("")
    st = [root]
    for l in s.split("\n"):
        if l[:1] == "(":
            n = Node(l[1:])
            st[-1].kids.append(n)
            st.append(n)
        elif l[:1] == ")":
            st.pop()
        elif l[:1] == "=":
            k, v = l[1:].split(":", 1)
            st[-1].kind = k
            st[-1].text = bytes.fromhex(v) if k in "sc" else v.encode()
    return root.kids


class BadXml(Exception):
    pass


def parse_xml(doc):
    p = expat.ParserCreate(namespace_separator="|")
    p.buffer_text = True
    root = Node("")
    st = [root]

    def start(name, attrs):
        n = Node(name.split("|")[-1])
        n.ns = name.split("|")[0] if "|" in name else None
        n.attrs = attrs
        st[-1].kids.append(n)
        st.append(n)

    def end(_):
        st.pop()

    def data(d):
        st[-1].text += d
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, data
    try:
        p.Parse(doc, True)
    except expat.ExpatError as e:
        raise BadXml(str(e))
    return root.kids[0]


def _float(t):
    t = t.strip()
    if t in ("NaN",):
        return "nan"
    if t in ("INF", "-INF"):
        return t
    if not re.fullmatch(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?", t):
        raise ValueError(t)
    from decimal import Decimal
    return Decimal(t)


def _floatexp(t):
    t = t.decode()
    if "nan" in t:
        return "nan"
    if t in ("inf", "-inf"):
        return t.upper()
    from decimal import Decimal
    return Decimal(t)


def leaf_problem(kind, want, got):
    """None if the text of a leaf denotes the wanted value."""
    try:
        if kind == "s":
            return None if got.encode("utf-8") == want else "text"
        if kind == "c":
            return None if got.encode("utf-8") == want else "char"
        if kind == "b":
            return None if got == want.decode() else "bool"
        if kind == "e":
            return None if got == want.decode() else "enum"
        if kind == "i":
            return None if re.fullmatch(r"-?\d+", got) and int(got) == int(want) else "int"
        if kind == "f":
            return None if _float(got) == _floatexp(want) else "float"
    except (ValueError, ArithmeticError):
        return "unreadable"
    return "kind"


def compare(exp, act, ns, path=""):
    """First difference between expected and actual tree, or None."""
    path += "/" + act.name
    if exp.name != act.name:
        return ("name", "%s instead of %s" % (path, exp.name))
    if act.ns != ns:
        return ("namespace", "%s in namespace %s, not %s" % (path, act.ns, ns))
    if exp.kind is not None:
        if act.kids:
            return ("kids-in-leaf", path + " contains " + act.kids[0].name)
        p = leaf_problem(exp.kind, exp.text, act.text)
        return (p, "%s: %r, expected %s:%r" % (path, act.text, exp.kind, exp.text)) if p else None
    if act.text.strip(" \t\n\r"):
        return ("stray-text", "%s: %r" % (path, act.text))
    if len(exp.kids) != len(act.kids):
        return ("children", "%s has %s, expected %s" % (path, [k.name for k in act.kids][:30], [k.name for k in exp.kids][:30]))
    for e, a in zip(exp.kids, act.kids):
        d = compare(e, a, ns, path)
        if d:
            return d
    return None


# ------------------------------------------------------------- writing
class Writer:
    """Writes the tree with layout choices an XML reader may not care about."""

    def __init__(self, rng, plain=0.0):
        self.r = rng
        self.on = {k: rng.random() < 0.5 for k in ("comment", "pi", "ws", "attr", "empty", "cdata", "ref", "shuffle", "unknown", "decl", "tagws", "doctype", "leafws", "intext")}
        self.n = 0

    def w(self, must=False):
        return "".join(self.r.choice(" \n\t") for _ in range(self.r.randint(1 if must else 0, 3)))

    def misc(self):
        o = ""
        if self.on["ws"] and self.r.random() < .6:
            o += self.w()
        if self.on["comment"] and self.r.random() < .25:
            o += self.comment()
        if self.on["pi"] and self.r.random() < .2:
            o += self.r.choice(["<?foo?>", "<?foo bar > \"baz?>", "<?p <a>x</a>?>", "<?x '?>"])
        if self.on["ws"] and self.r.random() < .3:
            o += self.w()
        return o

    def comment(self):
        return self.r.choice(["<!---->", "<!-- x -->", "<!-- a > b -->", "<!-- \" -->", "<!-- ' -->", "<!--<a>1</a>-->", "<!-- - -->", "<!--&x; ]]> -->", "<!-- <!x -->", "<!-- it's \"so\" <b/> -->"])

    def attrs(self):
        o = ""
        names = ["at", "x", "name", "first", "id", "y.z", "q-r"]
        self.r.shuffle(names)
        for n in names[:self.r.randint(0, 3)]:
            q = self.r.choice("\"'")
            v = self.r.choice(["", "1", "a b", "a>b", "x=y", "a/b", "/>", "&lt;&amp;", "&#65;&#x42;", "'" if q == '"' else '"', "  ", "</a>"]).replace("<", "&lt;")
            o += self.w(True) + n + (self.w() if self.on["tagws"] else "") + "=" + (self.w() if self.on["tagws"] else "") + q + v + q
        return o

    def ref(self, ch):
        k = ord(ch)
        m = self.r.randint(0, 3)
        return ["&#%d;" % k, "&#x%x;" % k, "&#x%X;" % k, "&#%06d;" % k][m]

    def text(self, kind, t):
        r = self.r
        if kind in "sc":
            s = t.decode("utf-8")
        else:
            s = t.decode()
            if kind == "f":
                s = "NaN" if "nan" in s else s.replace("inf", "INF")
            if kind == "b":
                s = r.choice({"true": ["true", "1"], "false": ["false", "0"]}[s])
        o, i = "", 0
        while i < len(s):
            ch = s[i]
            if self.on["cdata"] and r.random() < .1:
                n = r.randint(1, 6)
                seg = s[i:i + n]
                if "]]>" not in seg and "\r" not in seg:
                    o += "<![CDATA[" + seg + "]]>"
                    i += len(seg)
                    continue
            if ch in "<&" or ch == "\r" or (ch == ">" and (s[max(0, i - 2):i] == "]]" or r.random() < .7)):
                e = {"<": "&lt;", "&": "&amp;", ">": "&gt;"}.get(ch)
                o += e if e and not (self.on["ref"] and r.random() < .5) else self.ref(ch)
            elif self.on["ref"] and r.random() < .2:
                o += self.ref(ch)
            elif ch in "\"'" and r.random() < .5:
                o += {"\"": "&quot;", "'": "&apos;"}[ch]
            else:
                o += ch
            if self.on["intext"] and r.random() < .05:
                o += r.choice([self.comment(), "<?pi x?>"])
            i += 1
        if kind in "bife" and self.on["leafws"]:
            o = self.w() + o + self.w()
        return o

    def unknown(self, depth=0):
        self.n += 1
        n = self.r.choice(["unk", "zz-top", "a.b", "_u", "Unk2"]) if depth == 0 else self.r.choice(["unk", "first", "second", "string", "int", "m1"])
        if self.r.random() < .3:
            return "<%s%s/>" % (n, self.attrs())
        body = self.r.choice(["", "1", "text", "&lt;"]) if depth > 1 or self.r.random() < .5 else "".join(self.unknown(depth + 1) for _ in range(self.r.randint(1, 3)))
        return "<%s%s>%s</%s>" % (n, self.attrs() if self.on["attr"] else "", body, n)

    def elem(self, n, extra=""):
        r = self.r
        at = self.attrs() if self.on["attr"] and r.random() < .4 else ""
        at = extra + at
        tw = self.w() if self.on["tagws"] else ""
        if n.kind is not None:
            body = self.text(n.kind, n.text)
        else:
            kids = list(n.kids)
            if self.on["shuffle"]:
                # any order in which equally named siblings keep theirs
                names = [k.name for k in kids]
                byname = {}
                for k in kids:
                    byname.setdefault(k.name, []).append(k)
                r.shuffle(names)
                kids = [byname[x].pop(0) for x in names]
            parts = [self.elem(k) for k in kids]
            if self.on["unknown"]:
                for _ in range(r.choice([0, 0, 1, 2])):
                    parts.insert(r.randint(0, len(parts)), self.unknown())
            body = "".join(self.misc() + p for p in parts) + self.misc()
        if not body and (self.on["empty"] and r.random() < .7):
            return "<%s%s%s/>" % (n.name, at, tw)
        return "<%s%s%s>%s</%s%s>" % (n.name, at, tw, body, n.name, self.w() if self.on["tagws"] else "")

    def doc(self, root):
        o = ""
        if self.on["decl"]:
            o += self.r.choice(["<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>", "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>"])
        o += self.misc()
        if self.on["doctype"] and self.r.random() < .3:
            o += self.r.choice(["<!DOCTYPE %s>", "<!DOCTYPE %s SYSTEM \"a>b.dtd\">", "<!DOCTYPE %s [<!ELEMENT x ANY>]>"]) % root.name + self.misc()
        o += self.elem(root, self.r.choice(["", " xmlns=\"urn:x\"", " xmlns='urn:y>z'"]))
        o += self.misc()
        return o


def drops(n, path=""):
    """(path, kind) of every part below the root reachable through classes."""
    for i, k in enumerate(n.kids):
        if k.name.startswith("base_"):
            for x in drops(k, path):
                yield x
            continue
        p = path + "." + k.name if path else k.name
        yield (n, i, p, k)
        if k.kind is None:
            for x in drops(k, p):
                yield x
