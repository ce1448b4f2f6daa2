"""Generates receiver types for the check of C33: random method sets and signatures, each method reporting
its call to the test, and a table of what must be exposed, computed from the drawn signatures alone."""
import random

TYPES = ["int", "string", "bool", "uint64", "float64", "[]byte", "*int", "map[string]int", "interface{}", "pair", "*pair", "[]string", "int8", "[2]uint16", "ID", "time.Duration", "[]interface{}", "func() int", "chan int"]
CTX = "context.Context"
NAMES = ["Get", "GetBlock", "X", "ID", "URLFor", "Get_Block", "Ärger", "Ωmega", "A1", "Subscribe", "New", "NewHeads", "Close", "String", "Error", "Modules", "GetBlockByNumber", "SetX2", "Z_", "Logs", "Unsubscribe", "Call", "B", "Getblock", "GETBLOCK"]
PRIV = ["get", "hidden", "x", "newHeads", "subscribe", "_Get"]


def signature(r):
    ins = [r.choice(TYPES) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5]))]
    if r.random() < .12:
        ins.append(r.choice(["[]byte", "[]string", "[]interface{}"]))
    k = r.randrange(10)
    if k < 4:
        ins.insert(0, CTX)
    elif k == 4:
        ins.insert(r.randrange(len(ins) + 1), CTX)
    elif k == 5 and r.random() < .3:
        ins[:0] = [CTX, CTX]
    elif k == 6 and r.random() < .3:
        ins.insert(0, "error")
    k = r.randrange(14)
    t = r.choice(TYPES)
    outs = {0: [], 1: [t], 2: [t], 3: [t, "error"], 4: [t, "error"], 5: ["error"], 6: ["*Subscription", "error"],
            7: ["*Subscription", "error"], 8: [r.choice(["Subscription", "*Subscription"]), "error"], 9: ["error", t],
            10: [t, r.choice(TYPES)], 11: [t, "int", "error"], 12: ["error", "error"], 13: [r.choice(["*Subscription", "Subscription"])]}[k]
    if k == 11 and r.random() < .5:
        outs = [t, "error", "error"]
    if r.random() < .15:
        ins[:0] = [CTX]
        outs = ["*Subscription", "error"]
    if r.random() < .04 and not outs[:1] in (["*Subscription"], ["Subscription"]):
        ins[:0] = ["*context.Context"]  # an ordinary parameter
    return ins, outs


def kind(ins, outs):
    if len(outs) > 2 or len(outs) == 2 and (outs[0] == "error" or outs[1] != "error"):
        return "none"
    if ins and ins[0] == CTX and len(outs) == 2 and outs[0] in ("*Subscription", "Subscription"):
        return "sub"
    return "call"


def lower(n):
    return n[0].lower() + n[1:]


def q(s):
    return '"' + s + '"'


def generate(seed, n=70):
    r = random.Random("receivers/%s" % seed)
    out = ["package rpc", "", "import (", '\t"context"', '\t"reflect"', '\t"time"', ")", ""]
    out.append("var recvTable = []recvInfo{")
    code = []
    tables = {}
    for i in range(n):
        T = "recv%d" % i
        base = r.choice(["struct", "struct", "struct", "int", "string", "embed", "embedptr"])
        emb = None
        if base in ("embed", "embedptr") and i > 0:
            emb = "recv%d" % r.randrange(i)
            code.append("type %s struct {\n\t%s%s\n\tN int\n}\n" % (T, "*" if base == "embedptr" else "", emb))
            new = "&%s{%s: new%s(n), N: n}" % (T, emb, emb) if base == "embedptr" else "&%s{%s: *new%s(n), N: n}" % (T, emb, emb)
        elif base in ("int", "string"):
            code.append("type %s %s\n" % (T, base))
            new = None
        else:
            code.append("type %s struct{ N int }\n" % T)
            new = "&%s{N: n}" % T
        if new:
            code.append("func new%s(n int) *%s { return %s }\n" % (T, T, new))
        else:
            conv = "%s(n)" % T if base == "int" else "%s(rune(n))" % T
            code.append("func new%s(n int) *%s { v := %s; return &v }\n" % (T, T, conv))
        mine = {}
        for nm in r.sample(NAMES, r.choice([0, 1, 2, 4, 7])) + r.sample(PRIV, r.choice([0, 0, 1, 2])):
            if nm in ("String", "Error") and r.random() < .7:
                continue
            ins, outs = signature(r)
            ptr = r.random() < .6
            variadic = ins and (ins[-1].startswith("[]") and r.random() < .6)
            ps = ["p%d %s" % (j, t) for j, t in enumerate(ins)]
            if variadic:  # the method's type is that of a slice, which the call passes
                ps[-1] = "p%d ...%s" % (len(ins) - 1, ins[-1][2:])
            rets = ["%s(o, %d)" % ("retErr" if t == "error" else "ret[%s]" % t, j) for j, t in enumerate(outs)]
            body = 'o := hit("%s.%s", r%s)' % (T, nm, "".join(", p%d" % j for j in range(len(ins))))
            body += "\n\treturn " + ", ".join(rets) if rets else "\n\t_ = o"
            code.append("func (r %s%s) %s(%s) (%s) {\n\t%s\n}\n" % ("*" if ptr else "", T, nm, ", ".join(ps), ", ".join(outs), body))
            mine[nm] = (T, nm, ins, outs, ptr)
        # method sets: own methods, then promoted ones
        val, ptrset = {}, {}
        if emb:
            ev, ep = tables[emb]
            src_val = ep if base == "embedptr" else ev
            val.update(src_val)
            ptrset.update(ep)
        for nm, m in mine.items():
            if not m[4]:
                val[nm] = m
            else:
                val.pop(nm, None)
            ptrset[nm] = m
        # a field hides promoted methods of its name; N and the embedded type are no method names
        tables[T] = (val, ptrset)
        for which, ms in (("val", val), ("ptr", ptrset)):
            rows = []
            for nm, (owner, _, ins, outs, _) in sorted(ms.items()):
                exported = nm[0].isupper()
                rows.append("\t\t{%s, %s, %s, []reflect.Type{%s}, []reflect.Type{%s}}," % (
                    q(owner + "." + nm), q(lower(nm)), q(kind(ins, outs) if exported else "none"),
                    ", ".join("typeOf[%s]()" % t for t in ins), ", ".join("typeOf[%s]()" % t for t in outs)))
            mk = "new%s(n)" % T if which == "ptr" else "*new%s(n)" % T
            out.append("\t{%s, func(n int) interface{} { return %s }, []methInfo{\n%s\n\t}}," % (q(T + "/" + which), mk, "\n".join(rows)))
    out.append("}")
    out += ["", "var _ time.Duration", "var _ context.Context", "var _ reflect.Type", ""] + code
    return "\n".join(out)


if __name__ == "__main__":
    import sys
    sys.stdout.write(generate(sys.argv[1] if len(sys.argv) > 1 else 1))
