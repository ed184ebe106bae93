"""Generates random reflected structs (C++) and their declarations as the specification sees them."""
import random

TYS = ["i", "i", "u", "d", "s", "b", "e", "v", "p", "n", "o", "ci"]
CPP = dict(i="int", u="unsigned char", d="double", s="std::string", b="bool", e="rt::E", v="std::vector<int>",
           p="std::pair<int, int>", n="rt::Pt", o="std::optional<int>", ci="const int")
ATTRS = ["A0", "A1", "A2", "B0", "AB", "PV", "RT", "int"]


def attr_expr(a, v):
    return {"int": "rt::ev_int(%d)" % v, "RT": "rt::RT{std::to_string(%d)}" % v}.get(a, "rt::%s{%d}" % (a, v))


def attrs(r, p=40):
    return [(r.choice(ATTRS), r.randrange(100)) for _ in range(r.choice([1, 1, 2, 2, 3, 5]))] if r.randrange(100) < p else []


class S:
    pass


def gen(seed, n=10):
    r = random.Random(seed)
    out, decls, types = [], [], []
    for k in range(n):
        t = S()
        t.name, t.ns = "S%d" % k, r.choice(["ga", "gb"])
        t.q = t.ns + "::" + t.name
        t.kind = r.choice(["ns", "ns", "fr", "fr", "hand"])
        t.bases = []
        if types and t.kind != "hand" and r.random() < .65:
            for b in r.sample(types, min(len(types), r.choice([1, 1, 2, 3]))):
                if not any(b.anc & c.anc for c in t.bases):
                    t.bases.append(b)
        t.anc = {t.q}.union(*[b.anc for b in t.bases])
        nm = 16 if k == 3 else r.randrange(1, 7)
        pool = ["x", "y", "z", "w", "value", "name", "object_", "count"] if t.kind != "hand" else []
        t.mem = []
        for m in range(nm):
            nme = r.choice(pool) if pool and r.random() < .5 else "m%d_%d" % (k, m)
            if nme in [a for a, _, _ in t.mem]:
                nme = "m%d_%d" % (k, m)
            t.mem.append((nme, r.choice(TYS), r.random() < .3 and t.kind == "fr"))
        t.fields = []          # [name, ty, id, kind, attrs, cpp text]
        shown = [m for m in t.mem if r.random() < .85] or t.mem[:1]
        r.shuffle(shown)
        for nme, ty, _ in shown:
            i, a = "%s.%s" % (t.name, nme), attrs(r)
            if t.kind != "hand":
                t.fields.append((nme, ty, i, "mem", a, nme if not a else "(%s, %s)" % (nme, ", ".join(attr_expr(*q) for q in a))))
            else:
                how = r.randrange(5)
                if how == 0:
                    t.fields.append((nme, ty, i, "mem", [], "vis(KL_ACCESSOR_FIELD(%s));" % nme))
                elif how == 1:
                    t.fields.append((nme + "!", ty, i, "mem", [], 'vis(KL_ACCESSOR_FIELD_NAMED("%s!", object.%s));' % (nme, nme)))
                elif how == 2:
                    t.fields.append((nme, ty, i, "mem", a, 'vis(factory.template field<&%s::%s>("%s"%s));' % (t.name, nme, nme, "".join(", [] { return %s; }" % attr_expr(*q) for q in a))))
                elif how == 3 and ty != "ci":
                    t.fields.append(("r", ty, i, "ref", a, 'vis(factory.accessor("r", [](auto& object) -> decltype(auto) { return (object.r_%s); }%s));' % (nme, "".join(", [] { return %s; }" % attr_expr(*q) for q in a))))
                else:
                    t.fields.append(("c", "i", i, "val", a, 'vis(factory.accessor("c", [](auto& object) { return 3 * rt::un(object.%s) + 1; }%s));' % (nme, "".join(", [] { return %s; }" % attr_expr(*q) for q in a))))
        # a derived struct may also list a member it inherits
        if t.kind == "ns" and t.bases and r.random() < .4:
            b = t.bases[0]
            own = {a for a, _, _ in t.mem} | {a for c in t.bases[1:] for s in c.chain for a, _, _ in s.mem}
            pub = [m for m in b.mem if not m[2] and m[0] not in own]
            if pub:
                m = r.choice(pub)
                t.fields.append((m[0], m[1], "%s.%s" % (b.name, m[0]), "mem", [], m[0]))
        t.chain = [s for b in t.bases for s in b.chain] + [t]
        types.append(t)
        # C++
        o = ["namespace %s {" % t.ns, "struct %s%s" % (t.name, " : " + ", ".join(b.q for b in t.bases) if t.bases else ""), "{"]
        priv = False
        for nme, ty, pr in t.mem:
            if pr != priv:
                o.append("private:" if pr else "public:")
                priv = pr
            o.append("    %s %s = rt::mk<%s>(rt::next());" % (CPP[ty], nme, CPP[ty].replace("const ", "")))
        o.append("public:")
        if t.kind == "hand":
            for nme, ty, _ in t.mem:
                if ty != "ci":
                    o.append("    %s& r_%s = %s;" % (CPP[ty], nme, nme))
        o.append("    void where(rt::places& p) const")
        o.append("    {")
        for b in t.bases:
            o.append("        %s::where(p);" % b.q)
        for nme, ty, _ in t.mem:
            o.append('        p.add("%s.%s", %s);' % (t.name, nme, nme))
        o.append("    }")
        fl = ", ".join(f[5] for f in t.fields)
        bl = ", ".join(b.q for b in t.bases)
        bl = "(%s)" % bl if len(t.bases) != 1 or r.random() < .5 else bl
        mac = "KL_REFLECT_STRUCT%s%s(%s%s, %s)" % ("_DERIVED" if t.bases else "", "_FRIEND" if t.kind == "fr" else "", t.name, ", " + bl if t.bases else "", fl)
        if t.kind == "fr":
            o.append("    " + mac)
        o.append("};")
        if t.kind == "ns":
            o.append(mac)
        if t.kind == "hand":
            o += ["template <typename Factory, typename Visitor>",
                  "constexpr void reflect_struct_fields(Factory&& factory, Visitor&& vis, ::kl::ctti::record_class<%s>)" % t.name, "{"]
            o += ["    " + f[5] for f in t.fields] + ["}"]
            o += ["constexpr std::size_t reflect_num_fields(::kl::ctti::record_class<%s>) noexcept { return %d; }" % (t.name, len(t.fields))]
        o.append("}")
        out += o
        decls.append(dict(o="decl", t=t.q, bases=[b.q for b in t.bases],
                          f=[dict(n=f[0], ty=f[1], id=f[2], k=f[3], a=[list(q) for q in f[4]]) for f in t.fields]))
    import json
    out.append("static const char* const DECLS = R\"~~(%s)~~\";" % json.dumps(decls)[1:-1])
    out.append("template <typename F> void each_type(F&& f) {")
    out += ["    f(kl::type<%s>, \"%s\");" % (t.q, t.q) for t in types]
    out.append("}")
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    import sys
    print(gen(int(sys.argv[1])))
