#!/usr/bin/env python3
"""gen_types.py SEED TIER OUT: writes a Go file of random struct types for the harness.

Families are drawn independently of one another, so the families of a lower tier are a prefix of those of a greater one.
"""
import random, sys

SCALARS = ["bool", "int", "string", "float64", "time.Time", "MyStr", "MyInt", "MyBool", "MyFloat"]
KIND = {"bool": "bool", "MyBool": "bool", "int": "int", "MyInt": "int", "string": "string", "MyStr": "string",
        "float64": "float64", "MyFloat": "float64", "time.Time": "time.Time"}
# Field types that are of no use as attributes, but may be in structs untagged.
ODD = ["chan int", "func()", "any", "error", "uint8", "int64", "int32", "float32", "complex128", "[3]int", "[]byte", "map[string]int",
       "*chan int", "**int", "*[]int", "*map[string]int", "uint", "uint64", "uintptr", "struct{}", "struct{ X int }",
       "[2]string", "[]*int", "map[string]func()", "*struct{ y int }", "sync.Mutex", "unsafe.Pointer"]


class Family:
    def __init__(self, seed, i):
        self.r = random.Random("%s/%d" % (seed, i))
        self.i = i
        self.decls = []
        self.regs = []
        self.attrs = 0
        self.make()

    def name(self, k):
        return "T%d_%d" % (self.i, k)

    def lowest(self, k):
        """The first of the types to which the kth may refer."""
        return 0

    def ident(self):
        self.attrs += 1
        return self.r.choice(["f%d/a%d", "f%d.x/a%d", "f%d/é-a%d", "F%d/A %d"]) % (self.i, self.attrs)

    def emit(self, name, fields, role, base):
        lines = ["type %s struct {" % name]
        for f in fields:
            decl = "\t%s %s" % (f["name"], f["go"]) if not f.get("embed") else "\t%s" % f["go"]
            if f.get("ident") is not None:
                tag = ",".join([f["ident"]] + f["dirs"])
                decl += " `attr:\"%s\"`" % tag
            elif f.get("tag"):
                decl += " `%s`" % f["tag"]
            lines.append(decl)
        lines.append("}")
        self.decls.append("\n".join(lines))
        self.regs.append('regType[%s](typeInfo{Name: "%s", Role: "%s", Base: "%s", Family: %d})' % (name, name, role, base, self.i))

    def struct(self, k, n):
        r = self.r
        fields = []
        if r.random() < 0.65:
            fields.append(dict(go="uint64", ident="sys/db/id", dirs=[]))
        if r.random() < 0.6:
            ident, typ = self.keys[k]
            f = dict(go=typ, ident=ident, dirs=[], key=True)
            if KIND[typ] in ("string", "int") and r.random() < 0.3:
                f["dirs"] = [r.choice(["identity", "unique"])]
            fields.append(f)
            has_key = True
        else:
            has_key = False
        self.has_key = getattr(self, "has_key", {})
        self.has_key[k] = has_key
        for _ in range(r.choice([0, 1, 2, 3, 4, 6]) + getattr(self, "more", 0)):
            fields.append(self.field(k, n))
        if k == 0 and getattr(self, "more", 0):
            for t in range(1, n):
                form = r.choice(["", "*", "[]", "map[uint64]", "map[uint64]*"])
                fields.append(dict(go=form + self.name(t), ident=self.ident(), dirs=[]))
        # Types with fields shared with another type of the family.
        if k and r.random() < 0.4:
            other = [f for f in self.types[r.randrange(k)] if f.get("ident") and f["ident"] != "sys/db/id" and not f.get("key") and isinstance(f["go"], str) and f["go"].lstrip("*") in KIND]
            mine = {f.get("ident") for f in fields}
            for f in other[:2]:
                if f["ident"] not in mine:
                    fields.append(dict(f))
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            f = dict(go=r.choice(ODD), ident=None)
            if r.random() < 0.3:
                f["unexported"] = True
            elif r.random() < 0.3:
                f["tag"] = r.choice(['json:\\"x\\"', 'attrs:\\"x\\"']).replace('\\"', '"')
            fields.append(f)
        if not any(f["ident"] for f in fields):
            # Pointers to distinct values without a size may be equal.
            fields.append(dict(go="int", ident=None))
        r.shuffle(fields)
        for j, f in enumerate(fields):
            f["name"] = ("u%d" if f.get("unexported") else "F%d") % j
        return fields

    def field(self, k, n):
        r = self.r
        ident = self.ident()
        dirs = []
        kind = r.choices(["scalar", "pointer", "value", "ref", "map", "idmap", "structs", "scalars", "anon"], [35, 15, 9, 12, 9, 4, 8, 8, 4])[0]
        if kind == "anon":
            inner = ["F%d %s `attr:\"%s\"`" % (j, r.choice(["", "*"]) + r.choice(SCALARS), self.ident()) for j in range(r.choice([1, 2, 3]))]
            if r.random() < 0.5:
                inner.insert(r.randrange(len(inner) + 1), "ID uint64 `attr:\"sys/db/id\"`")
            return dict(go=r.choice(["", "*", "[]", "map[uint64]"]) + "struct { " + "; ".join(inner) + " }", ident=ident, dirs=[])
        if kind == "value":
            if k + 1 >= n:
                kind = "ref"
            else:
                return dict(go=self.name(r.randrange(k + 1, n)), ident=ident, dirs=["ignoreempty"] if r.random() < 0.1 else [])
        if kind in ("scalar", "pointer"):
            typ = r.choice(SCALARS)
            if KIND[typ] != "bool" and r.random() < 0.2:
                dirs.append(r.choice(["identity", "unique"]))
            if r.random() < 0.3:
                dirs.append("ignoreempty")
            r.shuffle(dirs)
            return dict(go=("*" if kind == "pointer" else "") + typ, ident=ident, dirs=dirs)
        t = r.randrange(self.lowest(k), n)
        if kind == "ref":
            if r.random() < 0.1:
                dirs.append(r.choice(["identity", "unique"]))
            return dict(go="*" + self.name(t), ident=ident, dirs=dirs)
        star = "*" if r.random() < 0.5 else ""
        # A collection is empty when it has no elements, whatever these are.
        ignore = ["ignoreempty"] if r.random() < 0.15 else []
        if r.random() < 0.08:
            ignore.append(r.choice(["identity", "unique"]))
        def shuffled(dirs):
            if len(dirs) > 1:
                r.shuffle(dirs)
            return dirs
        if kind == "map":
            # The key field of the target is made to exist once all types are known.
            return dict(go=("map", self.keys[t][1], star, t), ident=ident, dirs=shuffled(["key=" + self.keys[t][0]] + ignore), needs=t)
        if kind == "idmap":
            return dict(go="map[uint64]%s%s" % (star, self.name(t)), ident=ident, dirs=shuffled((["key=sys/db/id"] if r.random() < 0.5 else []) + ignore))
        if kind == "structs":
            return dict(go="[]" + self.name(t), ident=ident, dirs=shuffled(ignore))
        return dict(go="[]" + r.choice(SCALARS), ident=ident, dirs=shuffled(["value=" + self.ident()] + ignore))

    def agree(self, fields):
        """A type that agrees with the given about attributes, with other fields."""
        r = self.r
        result = []
        for f in fields:
            f = dict(f, dirs=list(f.get("dirs") or []))
            if f.get("ident") is None or r.random() < 0.25:
                continue
            if f["ident"] != "sys/db/id":
                bare = f["go"].lstrip("*") if isinstance(f["go"], str) else None
                if bare in KIND and r.random() < 0.5:
                    same = [s for s in SCALARS if KIND[s] == KIND[bare]]
                    f["go"] = r.choice(["", "*"]) + r.choice(same)
                elif isinstance(f["go"], str) and f["go"].startswith("[]") and f["go"][2:] in KIND and r.random() < 0.5:
                    f["go"] = "[]" + r.choice([s for s in SCALARS if KIND[s] == KIND[f["go"][2:]]])
                if r.random() < 0.3:
                    f["dirs"] = [d for d in f["dirs"] if d not in ("unique", "identity")]
                if bare in KIND and r.random() < 0.3:
                    f["dirs"] = [d for d in f["dirs"] if d != "ignoreempty"] + (["ignoreempty"] if r.random() < 0.5 else [])
            result.append(f)
        if r.random() < 0.5 and not any(f["ident"] == "sys/db/id" for f in result):
            result.append(dict(go="uint64", ident="sys/db/id", dirs=[]))
        if r.random() < 0.4:
            result.append(dict(go=r.choice(SCALARS), ident=self.ident(), dirs=[]))
        if not any(f["ident"] for f in result):
            result.append(dict(go="int", ident=None))
        r.shuffle(result)
        for j, f in enumerate(result):
            f["name"] = "G%d" % j
        return result

    def conflict(self, fields):
        """A type that disagrees with the given about one attribute."""
        r = self.r
        usable = [f for f in fields if f.get("ident") not in (None, "sys/db/id") and isinstance(f["go"], str)]
        if not usable:
            return None
        victim = r.choice(usable)
        f = dict(victim, dirs=list(victim["dirs"]))
        bare = f["go"].lstrip("*")
        unique = [d for d in f["dirs"] if d in ("unique", "identity")]
        choice = r.random()
        if bare in KIND:
            if choice < 0.6 or KIND[bare] == "bool":
                f["go"] = r.choice([s for s in SCALARS if KIND[s] != KIND[bare]])
                if choice < 0.1:
                    f["go"] = "*" + self.name(0)
                f["dirs"] = []
            elif unique:
                f["dirs"] = ["unique" if unique[0] == "identity" else "identity"]
            else:
                f["dirs"] = [r.choice(["unique", "identity"])]
        elif f["go"][2:] in KIND and choice < 0.7:
            # The elements' attribute alone, as a collection's or a field's.
            kind = KIND[f["go"][2:]]
            go = r.choice([s for s in SCALARS if KIND[s] != kind])
            if choice < 0.4:
                f["go"] = "[]" + go
            else:
                f["go"], f["ident"], f["dirs"] = go, [d[6:] for d in f["dirs"] if d.startswith("value=")][0], []
        elif f["go"].startswith("map") or f["go"].startswith("[]"):
            f["go"], f["dirs"] = r.choice(["int", "string", "*bool"]), []
        else:
            if choice < 0.4:
                f["go"], f["dirs"] = "[]" + self.name(len(self.types) - 1), []
            elif choice < 0.7:
                f["go"], f["dirs"] = r.choice(["int", "string", "*bool", "time.Time"]), []
            elif unique:
                f["dirs"] = ["unique" if unique[0] == "identity" else "identity"]
            else:
                f["dirs"] = [r.choice(["unique", "identity"])]
        result = [f]
        # Other fields that agree, and so must not be recorded either.
        for g in fields:
            if g is not victim and g.get("ident") and g["ident"] != f["ident"] and r.random() < 0.5:
                result.append(dict(g))
        if r.random() < 0.2:
            # It disagrees with itself as well.
            ident = self.ident()
            result.append(dict(go=r.choice(["int", "string"]), ident=ident, dirs=[]))
            result.append(dict(go="[]" + r.choice(["bool", "float64"]), ident=self.ident(), dirs=["value=" + ident]))
        result.append(dict(go="int", ident=self.ident(), dirs=[]))
        r.shuffle(result)
        for j, g in enumerate(result):
            g["name"] = "H%d" % j
        return result

    def make(self):
        r = self.r
        n = r.choice([1, 2, 2, 3, 3, 4, 6, 8])
        # Some have a type that refers to many others, of many attributes.
        wide = self.i % 13 == 12
        if wide:
            n = r.choice([9, 12, 14])
        self.more = 6 if wide else 0
        self.keys = [(self.ident(), r.choice(["string", "string", "int", "MyStr", "MyInt", "float64", "bool", "time.Time"])) for _ in range(n)]
        self.types = []
        for k in range(n):
            self.types.append(self.struct(k, n))
        for fields in self.types:
            for f in fields:
                if isinstance(f["go"], tuple):
                    _, key, star, t = f["go"]
                    if not self.has_key[t]:
                        self.has_key[t] = True
                        self.types[t].append(dict(go=self.keys[t][1], ident=self.keys[t][0], dirs=[], key=True, name="K"))
        # The attributes of scalars in slices are those of fields, too.
        for fields in self.types:
            for f in list(fields):
                values = [d[6:] for d in f.get("dirs") or [] if d.startswith("value=")]
                if values and r.random() < 0.25:
                    t = r.randrange(n)
                    if not any(g.get("ident") == values[0] for g in self.types[t]):
                        go = r.choice(["", "*"]) + r.choice([s for s in SCALARS if KIND[s] == KIND[f["go"][2:]]])
                        self.types[t].insert(r.randrange(len(self.types[t]) + 1), dict(go=go, ident=values[0], dirs=[], name="V%d" % len(self.types[t])))
        for fields in self.types:
            for f in fields:
                if isinstance(f["go"], tuple):
                    _, key, star, t = f["go"]
                    f["go"] = "map[%s]%s%s" % (key, star, self.name(t))
                # Named collection types.
                if f.get("ident") and (f["go"].startswith("map[") or f["go"].startswith("[]")) and r.random() < 0.15:
                    self.attrs += 1
                    alias = "N%d_%d" % (self.i, self.attrs)
                    self.decls.append("type %s %s" % (alias, f["go"]))
                    f["alias"] = alias
        for k, fields in enumerate(self.types):
            self.emit(self.name(k), [dict(f, go=f.get("alias") or f["go"]) for f in fields], "base", "")
        for v in range(r.choice([1, 2, 3])):
            k = r.randrange(n)
            self.emit("A%d_%d" % (self.i, v), self.agree(self.types[k]), "agree", self.name(k))
        for v in range(r.choice([1, 2])):
            k = r.randrange(n)
            fields = self.conflict(self.types[k])
            if fields:
                self.emit("C%d_%d" % (self.i, v), fields, "conflict", self.name(k))


class Twins(Family):
    """A family of types all of which have the same name, in nested scopes."""

    def lowest(self, k):
        return k

    def name(self, k):
        return "Node" if k == self.current else "N%d" % k

    def struct(self, k, n):
        self.current = k
        return Family.struct(self, k, n)

    def make(self):
        r = self.r
        n = r.choice([2, 3, 3, 4])
        self.keys = [(self.ident(), r.choice(["string", "string", "int", "MyStr", "float64"])) for _ in range(n)]
        self.types = []
        for k in range(n):
            self.types.append(self.struct(k, n))
        for k, fields in enumerate(self.types):
            for f in fields:
                if isinstance(f["go"], tuple):
                    _, key, star, t = f["go"]
                    if not self.has_key[t]:
                        self.has_key[t] = True
                        self.types[t].append(dict(go=self.keys[t][1], ident=self.keys[t][0], dirs=[], key=True, name="K"))
        for k, fields in enumerate(self.types):
            self.current = k
            for f in fields:
                if isinstance(f["go"], tuple):
                    _, key, star, t = f["go"]
                    f["go"] = "map[%s]%s%s" % (key, star, self.name(t))
        # Every type but the innermost is referred to.
        for k in range(n - 1):
            self.current = k
            if not any("N%d" % (k + 1) in f["go"] for f in self.types[k]):
                self.types[k].append(dict(name="X", go=r.choice(["", "*", "[]"]) + self.name(k + 1), ident=self.ident(), dirs=[]))
        text, regs = "", ""
        for k in reversed(range(n)):
            self.decls, self.regs = [], []
            self.current = k
            self.emit("Node", self.types[k], "base", "")
            name = "T%d_%d" % (self.i, k)
            text += self.decls[0] + "\n" + self.regs[0].replace('Name: "Node"', 'Name: "%s"' % name) + "\n"
            text += "type N%d = Node\nvar _ N%d\n{\n" % (k, k)
        self.decls, self.regs = [], []
        self.emit("Agree", self.agree([dict(f, go=f["go"].replace("Node", "N0")) for f in self.types[0]]), "agree", "T%d_0" % self.i)
        text += self.decls[0] + "\n" + self.regs[0].replace('Name: "Agree"', 'Name: "A%d_0"' % self.i) + "\n"
        text += "}\n" * n
        self.decls, self.regs = ["func init() {\n" + text + "}"], []


GOOD = ["int", "string", "bool", "float64", "time.Time", "*int", "MyStr", "*time.Time"]
BADTYPES = ["int64", "int32", "int8", "uint", "uint8", "float32", "complex128", "chan int", "func()", "any", "error", "[3]int", "uintptr",
            "[2]string", "**int", "*[]int", "*map[string]int", "*int64", "*uint64", "*chan int", "*any", "*func()", "uint64",
            "map[string]int", "map[string]string", "map[uint64]int", "map[string]*int", "map[uint64]time.Time", "map[string]any",
            "[]any", "[][]int", "[]chan int", "[]int64", "[]map[string]int", "[]byte", "[]*int", "**struct{ X int }",
            "unsafe.Pointer", "map[uint64][]int", "map[uint64]**struct{}"]
BADTAGS = [("int", "x,identity,unique"), ("int", "x,unique,unique"), ("int", "x,identity,identity"), ("string", "x,bogus"), ("string", "x,"),
           ("string", "x, unique"), ("int", "x,Identity"), ("int", "x,unique,identity,ignoreempty"), ("int", "x,ignoreempty,keys=y"),
           ("int", "x,key"), ("int", "x,value"), ("string", "x,ignoreempty=true"), ("string", "x,unique=1"), ("time.Time", "x,type=ref"),
           ("*int", "x,nope"), ("bool", "x,identity,nope,unique")]
BADIDS = ["int", "string", "uint32", "*uint64", "int64", "time.Time", "struct{}", "[]uint64", "uint", "float64", "map[uint64]struct{}", "MyInt"]
BADCOLLS = [("[]int", "x"), ("[]string", "x,ignoreempty"), ("[]time.Time", "x"), ("[]MyInt", "x,unique"), ("[]struct{ Q int `attr:\"bad/q\"` }", "x,value=bad/v"),
            ("map[string]struct{ Q string `attr:\"bad/q\"` }", "x"), ("map[int]struct{ Q int `attr:\"bad/q\"` }", "x"),
            ("map[string]struct{ Q string `attr:\"bad/q\"` }", "x,key=sys/db/id"), ("map[int64]struct{ Q int `attr:\"bad/q\"` }", "x,key=bad/q"),
            ("map[string]time.Time", "x,key=bad/q"), ("map[string]*time.Time", "x,key=bad/q"), ("[]int64", "x,value=bad/v"), ("[]*int", "x,value=bad/v"),
            ("map[any]struct{}", "x,key=bad/q"), ("map[[2]int]struct{}", "x,key=bad/q"), ("[][]int", "x,value=bad/v")]


def bad(seed, i):
    """A type that is unusable, by its own fields or those of a type it refers to."""
    r = random.Random("bad/%s/%d" % (seed, i))
    k = r.choices(["type", "tag", "id", "coll"], [4, 3, 2, 3])[0]
    if k == "type":
        go, tag = r.choice(BADTYPES), "bad/x" + r.choice(["", "", ",unique", ",ignoreempty"])
    elif k == "tag":
        go, tag = r.choice(BADTAGS)
        tag = "bad/" + tag
    elif k == "id":
        go, tag = r.choice(BADIDS), "sys/db/id"
    else:
        go, tag = r.choice(BADCOLLS)
        tag = "bad/" + tag
    fields = [(go, tag)]
    for j in range(r.choice([0, 1, 2, 3])):
        fields.append((r.choice(GOOD), "bad/g%d" % j))
    if r.random() < 0.4 and k != "id":
        fields.append(("uint64", "sys/db/id"))
    r.shuffle(fields)
    name = "B%d" % i
    text = "type %s struct {\n" % name
    for j, (go, tag) in enumerate(fields):
        if "\"" in go or True:
            text += "\tF%d %s `attr:\"%s\"`\n" % (j, go, tag)
    text += "}\n"
    regs = ['regType[%s](typeInfo{Name: "%s", Role: "bad", Family: -1})' % (name, name)]
    if r.random() < 0.5:
        # A type that is usable itself, but refers to it.
        form = r.choice(["%s", "*%s", "map[uint64]%s", "map[uint64]*%s", "[]%s"]) % name
        text += "type W%d struct {\n\tID uint64 `attr:\"sys/db/id\"`\n\tN string `attr:\"bad/n\"`\n\tF %s `attr:\"bad/ref%s\"`\n}\n" % (i, form, "s" if form[0] in "m[" else "")
        regs.append('regType[W%d](typeInfo{Name: "W%d", Role: "badref", Family: -1})' % (i, i))
    return text, regs


def main():
    seed, tier, out = sys.argv[1:4]
    n, nbad = (40, 40) if tier == "quick" else (250, 200)
    decls, regs = [], []
    for i in range(n):
        f = Twins(seed, i) if i % 8 == 7 else Family(seed, i)
        decls += f.decls
        regs += f.regs
    for i in range(nbad):
        d, rs = bad(seed, i)
        decls.append(d)
        regs += rs
    with open(out, "w") as f:
        f.write("package verifharness\n\nimport (\n\t\"sync\"\n\t\"time\"\n\t\"unsafe\"\n)\n\nvar _ sync.Mutex\nvar _ unsafe.Pointer\nvar _ time.Time\n\n")
        f.write("\n\n".join(decls))
        f.write("\n\nfunc init() {\n\t" + "\n\t".join(regs) + "\n}\n")


main()
