"""Loading of the MIR dump (see /verif/mirdump) and type helpers."""
import json, re


class Mir:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.fns = d["fns"]
        self.roots = d["roots"]
        self.by_name = {}
        for i, f in enumerate(self.fns):
            f["id"] = i
            self.by_name.setdefault(norm(f["name"]), []).append(i)
        self._wide = {}

    def T(self, i):
        return self.types[i]

    def fn(self, name):
        """Find a function with a body by its (lifetime-free) path or unique path suffix."""
        n = norm(name)
        c = [i for i in self.by_name.get(n, []) if "blocks" in self.fns[i]]
        if not c:
            c = [i for k, v in self.by_name.items() for i in v
                 if (k.endswith("::" + n) or k == n) and "blocks" in self.fns[i]]
        if len(c) != 1:
            raise LostAnchor("function %s: %d candidates" % (name, len(c)))
        return self.fns[c[0]]

    def find(self, name):
        try:
            return self.fn(name)
        except LostAnchor:
            return None

    def wide_bits(self, ti):
        """bits of a uint-crate integer (struct with one [u64; N] field named U<bits>), else None"""
        if ti in self._wide:
            return self._wide[ti]
        t = self.types[ti]
        r = None
        if t["k"] == "adt" and t["adt"].lower().startswith("struct"):
            m = re.search(r"(?:^|::)U(\d+)$", t["path"])
            if m and len(t["variants"][0]["fields"]) == 1:
                a = self.types[t["variants"][0]["fields"][0][1]]
                if a["k"] == "array" and a["len"] * 64 == int(m.group(1)):
                    r = int(m.group(1))
        self._wide[ti] = r
        return r

    def is_pubkey(self, ti):
        t = self.types[ti]
        return t["k"] == "adt" and t["path"].endswith("::Pubkey")

    def int_ty(self, ti):
        """(bits, signed) for integer-like types (also wide), None otherwise"""
        t = self.types[ti]
        if t["k"] == "int":
            return (t["bits"], True)
        if t["k"] == "uint":
            return (t["bits"], False)
        if t["k"] == "char":
            return (32, False)
        w = self.wide_bits(ti)
        if w:
            return (w, False)
        return None


class LostAnchor(Exception):
    pass


_lt = re.compile(r"<'[^<>]*?>|'[a-z_]+ ")


def norm(n):
    """strip lifetimes from a path"""
    n = re.sub(r"'[a-zA-Z_]\w*,? ?", "", n)
    n = n.replace("::<>", "").replace("<>", "")
    return n
