"""Charm++ interface files (.ci, with structured-dagger bodies) to plain C++ for lib/charm.

Only the language superB uses is read: entry declarations with scalar, array,
message-pointer and object parameters, and bodies of serial / when / if / else /
for / while / overlap-free blocks.  Anything else raises ValueError.
"""
import re


def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s[i] in "\"'":
            j = i + 1
            while s[j] != s[i]:
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1]); i = j + 1
        elif s.startswith("//", i):
            while i < n and s[i] != "\n": i += 1
        elif s.startswith("/*", i):
            i = s.index("*/", i) + 2; out.append(" ")
        else:
            out.append(s[i]); i += 1
    return "".join(out)


def balanced(s, i, op, cl):
    """s[i] is op; index just after the matching cl."""
    d = 0
    while True:
        c = s[i]
        if c in "\"'":
            j = i + 1
            while s[j] != c:
                j += 2 if s[j] == "\\" else 1
            i = j
        elif c == op: d += 1
        elif c == cl:
            d -= 1
            if d == 0: return i + 1
        i += 1


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "(<[{": d += 1
        if c in ")>]}": d -= 1
        if c == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += c
    if cur.strip(): out.append(cur.strip())
    return out


def param(p):
    m = re.match(r"^(.*?)(\w+)\s*\[(.*)\]$", p, re.S)
    if m: return dict(kind="array", type=m.group(1).strip().replace("const ", ""), name=m.group(2), len=m.group(3).strip())
    m = re.match(r"^(.*?)\*\s*(\w+)?$", p, re.S)
    if m: return dict(kind="msg", type=m.group(1).strip(), name=m.group(2) or "m")
    m = re.match(r"^(?:const\s+)?(.*?)\s*&?\s*\b(\w+)$", p, re.S)
    if not m: raise ValueError("parameter " + p)
    return dict(kind="val", type=m.group(1).strip(), name=m.group(2))


class Ci:
    def __init__(self, text):
        s = strip_comments(text)
        self.entries = []          # dict(name, params, body)
        m = re.search(r"(array\s*\[\s*3D\s*\]|mainchare|chare)\s+(\w+)\s*\{", s)
        self.kind, self.cls = m.group(1), m.group(2)
        blk = s[m.end():balanced(s, m.end() - 1, "{", "}") - 1]
        i = 0
        while True:
            m = re.compile(r"entry\s*(?:\[[^\]]*\]\s*)?(?:void\s+)?(\w+)\s*\(").search(blk, i)
            if not m:
                if re.search(r"\S", blk[i:].replace(";", "")): raise ValueError("not understood: " + blk[i:i + 80])
                break
            if re.search(r"\S", blk[i:m.start()].replace(";", "")): raise ValueError("not understood: " + blk[i:m.start()][:80])
            e = balanced(blk, m.end() - 1, "(", ")")
            ps = [param(p) for p in split_args(blk[m.end():e - 1]) if p != "void"]
            j = e
            while blk[j].isspace(): j += 1
            body = None
            if blk[j] == "{":
                k = balanced(blk, j, "{", "}"); body = blk[j + 1:k - 1]; j = k
            elif blk[j] != ";":
                raise ValueError("not understood: " + blk[j:j + 60])
            else: j += 1
            self.entries.append(dict(name=m.group(1), params=ps, body=body)); i = j
        self.ep = {e["name"]: n for n, e in enumerate(self.entries)}
        self.by = {e["name"]: e for e in self.entries}

    # ---- structured dagger ------------------------------------------------
    def stmt(self, s, i):
        """one statement at s[i:] -> (c++, next index)"""
        while i < len(s) and (s[i].isspace() or s[i] == ";"): i += 1
        if i >= len(s): return "", i
        if s[i] == "{":
            j = balanced(s, i, "{", "}")
            return "{\n" + self.block(s[i + 1:j - 1]) + "}\n", j
        m = re.match(r"(serial|atomic)\b\s*(\"[^\"]*\")?\s*", s[i:])
        if m:
            i += m.end()
            if s[i] != "{": raise ValueError("serial without a block")
            j = balanced(s, i, "{", "}")
            return "{" + s[i + 1:j - 1] + "}\n", j
        m = re.match(r"(if|for|while)\b\s*\(", s[i:])
        if m:
            a = i + m.end() - 1; b = balanced(s, a, "(", ")")
            body, j = self.stmt(s, b)
            out = f"{m.group(1)} {s[a:b]} {{\n{body}}}\n"
            if m.group(1) == "if":
                m2 = re.match(r"[\s;]*else\b", s[j:])
                if m2:
                    b2, j = self.stmt(s, j + m2.end())
                    out += f"else {{\n{b2}}}\n"
            return out, j
        m = re.match(r"when\b\s*", s[i:])
        if m:
            i += m.end(); pre = "{\n"; post = ""
            while True:
                m = re.match(r"\s*(\w+)\s*", s[i:]); name = m.group(1); i += m.end(); ref = None
                if s[i] == "[":
                    j = balanced(s, i, "[", "]"); ref = s[i + 1:j - 1]; i = j
                while s[i].isspace(): i += 1
                if s[i] != "(": raise ValueError("when " + name)
                j = balanced(s, i, "(", ")"); ps = [param(p) for p in split_args(s[i + 1:j - 1]) if p != "void"]; i = j
                v = f"vrm_{name}_{len(post)}_{i}"
                if name not in self.by: raise ValueError("when on unknown entry " + name)
                pre += f"std::unique_ptr<M_{self.cls}_{name}> {v}(static_cast<M_{self.cls}_{name} *>(vr::wait(vr::Want{{{self.ep[name]}, {'true' if ref else 'false'}, (long)({ref or 0})}})));\n"
                for q, p in zip(self.by[name]["params"], ps):
                    if p["kind"] == "array": pre += f"{p['type']} *{p['name']} = {v}->{q['name']}.data();\n"
                    elif p["kind"] == "msg": pre += f"{p['type']} *{p['name']} = {v}->{q['name']}; {v}->{q['name']} = nullptr;\n"
                    else: pre += f"{p['type']} &{p['name']} = {v}->{q['name']};\n"
                    pre += f"(void){p['name']};\n"
                m = re.match(r"\s*,", s[i:])
                if not m: break
                i += m.end()
            body, j = self.stmt(s, i)
            return pre + body + "}\n", j
        raise ValueError("statement not understood: " + s[i:i + 80])

    def block(self, s):
        out, i = "", 0
        while i < len(s):
            t, i = self.stmt(s, i); out += t
        return out

    # ---- headers ------------------------------------------------------------
    def sig(self, e, names=True):
        o = []
        for p in e["params"]:
            t = {"array": f"const {p['type']} *", "msg": p["type"] + " *", "val": p["type"] + " "}[p["kind"]]
            o.append(t + p["name"])
        return ", ".join(o)

    def decl(self, includes):
        c = self.cls; ctor = c
        o = ["#pragma once", '#include "charm_rt.h"', '#include "pup.h"'] + [f'#include "{i}"' for i in includes]
        o.append(f"class {c}; class CProxy_{c};")
        ents = [e for e in self.entries if e["name"] != ctor]
        for e in ents:
            f, init = "", ""
            for p in e["params"]:
                if p["kind"] == "array": f += f"std::vector<{p['type']}> {p['name']}; "
                elif p["kind"] == "msg": f += f"{p['type']} *{p['name']} = nullptr; "
                else: f += f"{p['type']} {p['name']}; "
            msg = [p for p in e["params"] if p["kind"] == "msg"]
            dtor = "".join(f"delete {p['name']}; " for p in msg)
            o.append(f"struct M_{c}_{e['name']} : vr::Msg {{ {f} ~M_{c}_{e['name']}() {{ {dtor} }} vr::Msg *clone() const override {{ return new M_{c}_{e['name']}(*this); }} }};")
        # proxies
        def send(e, target):
            b = f"auto *vrm = new M_{c}_{e['name']}; vrm->ep = {self.ep[e['name']]}; "
            for p in e["params"]:
                if p["kind"] == "array": b += f"vrm->{p['name']}.assign({p['name']}, {p['name']} + ({p['len']})); "
                else: b += f"vrm->{p['name']} = {p['name']}; "
            if e["params"] and e["params"][0]["kind"] == "val" and e["params"][0]["type"] == "int":
                b += f"vrm->hasref = true; vrm->ref = {e['params'][0]['name']}; "
            return b + target
        el = "".join(f"  void {e['name']}({self.sig(e)}) const {{ {send(e, 'vr::post(el, vrm);')} }}\n" for e in ents)
        al = "".join(f"  void {e['name']}({self.sig(e)}) const {{ {send(e, 'for (int q = 0; q < vr::n_chares; q++) vr::post(q, vrm->clone()); delete vrm;')} }}\n" for e in ents)
        ma = "".join(f"  void {e['name']}({self.sig(e)}) const {{ {send(e, 'vr::post(vr::MAIN, vrm);')} }}\n" for e in ents)
        idx = "".join(f"  template <class... A> static int {e['name']}(A...) {{ return {self.ep[e['name']]}; }}\n" for e in self.entries)
        o.append(f"struct CkIndex_{c} {{\n{idx}}};")
        fac = ""
        for e in ents:
            if len(e["params"]) == 1 and e["params"][0]["kind"] == "msg":
                p = e["params"][0]
                fac += f"    if (ep == {self.ep[e['name']]}) return [](CkMessageBase *b) -> vr::Msg * {{ auto *m = new M_{c}_{e['name']}; m->ep = {self.ep[e['name']]}; m->{p['name']} = static_cast<{p['type']} *>(b); return m; }};\n"
            elif not e["params"]:
                fac += f"    if (ep == {self.ep[e['name']]}) return [](CkMessageBase *b) -> vr::Msg * {{ delete b; auto *m = new M_{c}_{e['name']}; m->ep = {self.ep[e['name']]}; return m; }};\n"
        factory = f"  static std::function<vr::Msg *(CkMessageBase *)> factory(int ep) {{\n{fac}    fprintf(stderr, \"VERIF callback to an entry that takes no message\\n\"); abort(); }}\n"
        if self.kind.startswith("array"):
            o.append(f"class CProxyElement_{c} {{ public: int el;\n{el}{factory}  void describe(CkCallback &k) const {{ k.all = false; k.el = el; }}\n}};")
            cp = [e for e in self.entries if e["name"] == ctor][0]["params"]
            if len(cp) != 1 or cp[0]["kind"] != "val": raise ValueError("constructor parameters")
            o.append(f"class CProxy_{c} {{ public:\n{al}{factory}  void describe(CkCallback &k) const {{ k.all = true; }}\n  CProxyElement_{c} operator[](const CkArrayIndex3D &i) const {{ return CProxyElement_{c}{{vr::lin(i)}}; }}\n  CProxyElement_{c} operator()(int x, int y, int z) const {{ return CProxyElement_{c}{{vr::lin(CkArrayIndex3D(x, y, z))}}; }}\n  static CProxy_{c} ckNew({cp[0]['type']} d, int a, int b, int e);\n}};")
            o.append(f"struct CBase_{c} {{ CkArrayIndex3D thisIndex; CProxy_{c} thisProxy; static CkArrayIndex3D vr_next; CBase_{c}() : thisIndex(vr_next) {{}} CBase_{c}(CkMigrateMessage *) : thisIndex(vr_next) {{}} virtual ~CBase_{c}() {{}} void pup(PUP::er &) {{}} void __sdag_pup(PUP::er &) {{}} void contribute(const CkCallback &k) {{ vr::contribute(vr::lin(thisIndex), k); }} long vr_pad = 0; }};")
            dec = "".join(f"  void {e['name']}({self.sig(e)});\n" for e in ents if e["body"] is not None)
            o.append(f"#define {c}_SDAG_CODE public: " + " ".join(dec.split("\n")) + " private:")
        else:
            o.append(f"class CProxy_{c} {{ public:\n{ma}{factory}  void describe(CkCallback &k) const {{ k.toMain = true; }}\n}};")
            o.append(f"struct CBase_{c} {{ CProxy_{c} thisProxy; virtual ~CBase_{c}() {{}} void pup(PUP::er &) {{}} }};")
        return "\n".join(o) + "\n"

    def definitions(self):
        c = self.cls; o = ["#include <memory>"]
        if not self.kind.startswith("array"):
            d = "".join(f"  if (m->ep == {self.ep[e['name']]}) {{ o->{e['name']}(); return; }}\n" for e in self.entries if e["name"] != c and not e["params"])
            o.append(f"void vr_dispatch_{c}({c} *o, vr::Msg *m) {{\n{d}}}")
            return "\n".join(o) + "\n"
        o.append(f"CkArrayIndex3D CBase_{c}::vr_next;")
        o.append(f"std::vector<{c} *> vr_array_{c};")
        o.append(f"CProxy_{c} CProxy_{c}::ckNew(" + [e for e in self.entries if e["name"] == c][0]["params"][0]["type"] + f" d, int a, int b, int e) {{ extern void vr_init(int, int, int); vr_init(a, b, e); for (int k = 0; k < e; k++) for (int j = 0; j < b; j++) for (int i = 0; i < a; i++) {{ CBase_{c}::vr_next = CkArrayIndex3D(i, j, k); auto &x = vr_marshal(d); const int w = vr::current; vr::current = (int)vr_array_{c}.size(); vr_array_{c}.push_back(new {c}(std::move(x))); vr::current = w; }} return CProxy_{c}(); }}")
        disp, hb, nm = "", "", ""
        for e in self.entries:
            nm += f"  if (ep == {self.ep[e['name']]}) return \"{e['name']}\";\n"
            if e["body"] is None or e["name"] == c: continue
            o.append(f"void {c}::{e['name']}({self.sig(e)}) {{\n{self.block(e['body'])}}}")
            args = ", ".join(f"x->{p['name']}.data()" if p["kind"] == "array" else f"x->{p['name']}" for p in e["params"])
            coro = "true" if re.search(r"\bwhen\b", e["body"]) else "false"
            disp += f"  if (m->ep == {self.ep[e['name']]}) {{ std::shared_ptr<M_{c}_{e['name']}> x(static_cast<M_{c}_{e['name']} *>(m->clone())); {c} *o = vr_array_{c}[i]; vr_run_entry(i, [=] {{ o->{e['name']}({args}); }}, {coro}); return; }}\n"
            hb += f"  if (ep == {self.ep[e['name']]}) return true;\n"
        o.append(f"void vr_run_entry(int, std::function<void()>, bool);\nvoid vr_dispatch_{c}(int i, vr::Msg *m) {{\n{disp}}}\nbool vr_body_{c}(int ep) {{\n{hb}  return false; }}\nstd::string vr_name_{c}(int ep) {{\n{nm}  return \"?\"; }}")
        return "\n".join(o) + "\n"


def translate(d):
    """timestepping.ci and main.ci of a superB project -> the .decl.h/.def.h files."""
    for f, inc in (("timestepping", ["BHaH_defines.h", "BHaH_function_prototypes.h", "commondata_object.h"]), ("main", [])):
        ci = Ci(open(f"{d}/{f}.ci").read())
        open(f"{d}/{f}.decl.h", "w").write(ci.decl(inc))
        open(f"{d}/{f}.def.h", "w").write(ci.definitions())


if __name__ == "__main__":
    import sys
    translate(sys.argv[1])
