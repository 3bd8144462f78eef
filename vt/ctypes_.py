"""C++ type strings -> model types."""
import re

INTS = {"int", "long", "unsigned int", "unsigned long", "short", "unsigned short", "long long", "unsigned long long",
        "unsigned", "size_t", "std::size_t", "char", "unsigned char", "signed char", "long int", "long unsigned int",
        "PHASE_INDEX", "EXEC_COUNT", "TOKEN_UNIT", "DATA_UNIT", "ARRAY_INDEX", "size_type", "std::vector::size_type",
        "node_id_t", "edge_id_t", "VertexD", "EDGE_TYPE", "entier", "difference_type", "ptrdiff_t", "std::ptrdiff_t"}
REALS = {"double", "float", "long double", "TIME_UNIT", "DATA_BY_TIME_UNIT"}
STRS = {"std::string", "string", "std::basic_string<char>", "basic_string<char>", "std::__cxx11::basic_string<char>", "VERTEX_TYPE"}
OPAQUE_INT = {"Vertex", "Edge", "EdgeD", "boost::detail::edge_desc_impl<boost::bidirectional_tag, unsigned long>"}


def split_args(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "<([":
            depth += 1
        if c in ">)]":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_cv(s):
    s = s.strip()
    while True:
        t = s
        for p in ("const ", "volatile ", "struct ", "class ", "enum ", "typename ", "mutable "):
            if t.startswith(p):
                t = t[len(p):].strip()
        for p in (" const", " volatile", "&&", "&"):
            if t.endswith(p):
                t = t[:-len(p)].strip()
        if t == s:
            return s
        s = t


class Types:
    def __init__(self, classes):
        self.classes = classes      # C++ class name -> why record name
        self.anon_latest = None

    def parse(self, s):
        s0 = s
        s = strip_cv(s)
        if s in ("void",):
            return ("void",)
        if s == "bool":
            return ("bool",)
        if "(unnamed struct at" in s or "(anonymous struct at" in s:
            return ("cls", self.anon_latest) if self.anon_latest else ("?", s0)
        if s in self.classes:
            c = self.classes[s]
            return c if isinstance(c, tuple) else ("cls", c)
        for k, c in self.classes.items():
            if k[0] == "~" and re.match(k[1:], s):
                return c if isinstance(c, tuple) else ("cls", c)
        if s in INTS:
            return ("int",)
        if s in REALS:
            return ("real",)
        if s in STRS or re.match(r"^(char|const char) ?(\*|\[\d+\])$", s):
            return ("str",)
        if s in OPAQUE_INT:
            return ("int",)
        if s.endswith("*"):
            return ("ptr", self.parse(s[:-1]))
        if s.endswith("*const"):
            return ("ptr", self.parse(s[:-6]))
        m = re.match(r"^([\w:]+)<(.*)>(::\w+)?$", s)
        if m:
            h, args, tail = m.group(1), split_args(m.group(2)), m.group(3)
            h = h.replace("std::__cxx11::", "std::").replace("std::__1::", "std::").replace("std::__cxx1998::", "std::").replace("std::__detail::", "std::")
            b = h.split("::")[-1]
            if tail in ("::size_type", "::difference_type"):
                return ("int",)
            if tail in ("::iterator", "::const_iterator", "::reverse_iterator"):
                ct = self.parse(s[:-len(tail)])
                return self.iter_of(ct)
            if tail in ("::reference", "::const_reference", "::value_type"):
                if b == "__alloc_traits" or b == "allocator":
                    a = args[0]
                    am = re.match(r"^(?:std::)?allocator<(.*)>$", a)
                    return self.parse(am.group(1) if am else a)
                ct = self.parse(s[:-len(tail)])
                return elem_of(ct)
            if b in ("vector", "list", "deque", "queue", "stack", "initializer_list", "array", "integer_range"):
                if b == "integer_range" and "iterator" in args[0]:
                    return ("vec", ("int",))
                return ("vec", self.parse(args[0]))
            if b in ("set", "unordered_set"):
                return ("set", self.parse(args[0]))
            if b in ("map", "unordered_map"):
                return ("map", self.parse(args[0]), self.parse(args[1]))
            if b == "pair":
                return ("pair", self.parse(args[0]), self.parse(args[1]))
            if b == "tuple":
                return ("tup",) + tuple(self.parse(a) for a in args)
            if b == "__normal_iterator":
                return ("iter", self.parse(args[0].rstrip("* ").strip()), None)
            if b in ("_Rb_tree_iterator", "_Rb_tree_const_iterator", "_Node_iterator", "_Node_const_iterator"):
                e = args[0]
                pm = re.match(r"^(?:std::)?pair<const (.*)>$", e)
                if pm:
                    kv = split_args(pm.group(1))
                    return ("iter", self.parse(kv[0]), ("map", self.parse(kv[0]), self.parse(kv[1])))
                et = self.parse(e)
                return ("iter", et, ("set", et))
            if b in ("_List_iterator", "_List_const_iterator", "_Deque_iterator"):
                return ("iter", self.parse(args[0]), None)
            if b in ("adj_list_edge_iterator", "in_edge_iter", "out_edge_iter", "range_iterator", "vertex_iter", "integer_iterator", "iterator_facade_base", "iterator_facade"):
                return ("iter", ("int",), None)
            if b in ("edge_desc_impl",):
                return ("int",)
            if b in ("common_type_t",):
                return self.parse(args[0])
        if re.match(r"^boost::(detail|range_detail|iterators)::[\w:]*(edge_iter|vertex_iter)\w*<", s) or s.endswith("edge_iterator") or s.endswith("vertex_iterator") or s in ("Vertex::iterator", "Edge::iterator"):
            return ("iter", ("int",), None)
        short = s.split("::")[-1]
        if short != s and "<" not in s:
            return self.parse(short)
        return ("?", s0)

    def iter_of(self, ct):
        if ct[0] == "vec":
            return ("iter", ct[1], None)
        if ct[0] in ("set",):
            return ("iter", ct[1], ct)
        if ct[0] == "map":
            return ("iter", ct[1], ct)
        return ("?", "iter")


def elem_of(ct):
    if ct[0] in ("vec", "set"):
        return ct[1]
    if ct[0] == "map":
        return ("pair", ct[1], ct[2])
    return ("?", "elem")


def why(t):
    k = t[0]
    if k == "int" or k == "str":
        return "int"
    if k == "bool":
        return "bool"
    if k == "real":
        return "real"
    if k == "void":
        return "unit"
    if k == "vec":
        return "(vec %s)" % why(t[1])
    if k == "set":
        return "(fset %s)" % why(t[1])
    if k == "map":
        return "(fmap %s %s)" % (why(t[1]), why(t[2]))
    if k == "pair":
        return "(pair %s %s)" % (why(t[1]), why(t[2]))
    if k == "tup":
        if len(t) == 4:
            return "(tup3 %s %s %s)" % tuple(why(x) for x in t[1:])
        raise TypeError("tuple arity")
    if k == "iter":
        return "(iter %s)" % why(t[1])
    if k == "cls":
        return t[1]
    if k == "pmap":
        t1 = Types({}).parse(t[1]) if isinstance(t[1], str) else t[1]
        return "(pmap %s)" % why(t1)
    if k == "ptr":
        return why(t[1])
    raise TypeError("no model type for %r" % (t,))
