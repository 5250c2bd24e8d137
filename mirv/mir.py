"""Loads a mirdump JSON file."""
import json, re
TRANSP = re.compile(r"^((std|core)::mem::)?(manually_drop::|maybe_uninit::|maybe_dangling::)?(MaybeUninit|ManuallyDrop|MaybeDangling)<")

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.roots = d["roots"]
        self.insts = d["insts"]
        self.types = {int(k): v for k, v in d["types"].items()}
        self.allocs = {int(k): v for k, v in d["allocs"].items()}
        self.fn_tys = {int(k): v for k, v in d["fn_tys"].items()}
        self.fnptr_tys = {int(k): v for k, v in d["fnptr_tys"].items()}
        self.by_name = {}
        for i, x in enumerate(self.insts):
            x["i"] = i
            self.by_name.setdefault(x["name"], i)
        self._pty = {}
        self._transp = {}
        self._projs = {}

    def kind(self, t):
        return self.types[t]["k"]
    def tname(self, t):
        return self.types[t]["s"]
    def size(self, t):
        l = self.types[t].get("layout")
        return l["size"] if l else None
    def root(self, short):
        for k, v in self.roots.items():
            if k.split("::")[-1] == short:
                return v
        raise KeyError(short)
    def pointee(self, t):
        k = self.kind(t)
        if k[0] in ("ref", "ptr"):
            return k[1]
        if k[0] == "adt" and k[1].endswith("Box"):
            return k[4][0]
        return None
    def place_ty(self, body, place):
        t = body["locals"][place[0]]
        for pr in place[1]:
            o = pr[0]
            if o == "*":
                t = self.pointee(t)
            elif o == ".":
                t = pr[2]
            elif o in ("[", "c"):
                t = self.kind(t)[1]
            # "s": subslice keeps (slice) type; "v": downcast keeps type
            if t is None:
                return None
        return t
    def transparent(self, t):
        """the content type of MaybeUninit / ManuallyDrop / MaybeDangling, which are represented by their content"""
        r = self._transp.get(t, 0)
        if r == 0:
            k = self.kind(t)
            r = None
            if k[0] == "adt" and TRANSP.match(self.tname(t)):
                fs = [ft for nm, ft in k[3][0]["fields"]]
                r = fs[-1]
            self._transp[t] = r
        return r
    def projections(self, body, place):
        """the projections of a place without those into a transparent wrapper"""
        r = self._projs.get(id(place))
        if r is None:
            r = place[1]
            if any(pr[0] == "." for pr in r):
                keep = []
                for i, pr in enumerate(r):
                    if pr[0] == ".":
                        t = self.place_ty(body, [place[0], r[:i]])
                        if t is not None and self.transparent(t) is not None: continue
                    keep.append(pr)
                r = keep
            self._projs[id(place)] = r
        return r
    def operand_ty(self, body, op):
        if op[0] in ("p", "m"):
            return self.place_ty(body, op[1])
        if op[0] == "k":
            return op[1]
        return None
    def width(self, t):
        k = self.kind(t)
        if k[0] in ("int", "uint"):
            return k[1]
        if k[0] == "bool":
            return 0
        if k[0] == "char":
            return 32
        if k[0] in ("ptr", "ref", "fnptr"):
            return 64
        if k[0] == "pat":
            return self.width(k[1])
        return None
    def signed(self, t):
        return self.kind(t)[0] == "int"
