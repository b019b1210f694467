#!/usr/bin/env python3
"""Run by hand, not by the checks: writes forms.rs (what is called) and forms.h (what it has to encode).

The encodings come from the manual's notation quoted in xten0/src/asm/inst.rs. They were checked once against an
independent authority: llvm-mc 14 disassembled one example of each form (`hasmx dump`) and every text was that
instruction with these operands (this is how pminsb and jecxz were found)."""
import re, sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
t = open("/repo/xten0/src/asm/inst.rs").read()
IMM = {"i8": 1, "i16": 2, "i32": 4, "i64": 8}
REG = {"Gpr64": "g64", "Gpr32": "g32", "Gpr16": "g16", "Gpr8": "g8", "Xmm": "xmm"}
ROLE = {"0": 0, "R": 1, "M": 2, "O": 3, "I": 4}


def forms():
    for m in re.finditer(r"impl<W: io::Write \+ \?Sized> WriteInst<W> for ([A-Za-z0-9_]+)(?:<(.*)>)? \{\n    fn write_inst\(&self, w: &mut W\) -> io::Result<\(\)> \{\n        // (.*)\n((?:.*\n)*?)        Ok\(\(\)\)", t):
        name, ops, enc, body = m.groups()
        ops = [o.strip() for o in (ops or "").split(",") if o.strip()]
        mr = re.search(r"ModRM::new\((.*?), (.*?)\);", body)
        rio = re.search(r"RegInOpcode::from\(self\.(\d)\)", body)
        role = ["0"] * 3
        for i, o in enumerate(ops):
            if o in IMM:
                role[i] = "I"
        if rio:
            role[int(rio.group(1))] = "O"
        if mr:
            for g, r in ((mr.group(1), "R"), (mr.group(2), "M")):
                if g.startswith("self."):
                    role[int(g[5:])] = r
        tk = enc.split()
        pp, w, op, plus, modrm = [], 0, [], 0, -1
        tk = [x for x in tk if not re.match(r"^(i[bwdo]|c[bd])$", x)]
        for x in tk:
            if x == "REX.W+":
                w, pp, op = 1, op, []
            elif x.startswith("+r"):
                plus = 1
            elif x.startswith("/"):
                modrm = 8 if x == "/r" else int(x[1:])
            else:
                op.append(int(x, 16))
        while op[0] in (0x66, 0xF2, 0xF3) and len(op) > 1:
            pp.append(op.pop(0))
        yield name, ops, enc, role, pp, w, op, plus, modrm


F = list(forms())


def main():
    rs, h = [], []
    for k, (name, ops, enc, role, pp, w, op, plus, modrm) in enumerate(F):
        args = []
        for i, o in enumerate(ops):
            args.append("o.%s(%d)" % (REG[o], i) if o in REG else "o.mem" if o == "Memory" else "o.imm[%d] as %s" % (i, o) if o in IMM else o)
        rs.append("fn f%d(o: &Ops, b: &mut Vec<u8>) { b.%s(%s).unwrap() }" % (k, name.lower(), ", ".join(args)))
        p2, o3, r3 = (pp + [0, 0])[:2], (op + [0, 0, 0])[:4], [ROLE[x] for x in role]
        s3 = [IMM.get(o, 0) for o in ops] + [0] * (3 - len(ops))
        g8 = [1 if o == "Gpr8" else 0 for o in ops] + [0] * (3 - len(ops))
        h.append("{%d,{%s},%d,%d,{%s},%d,%d,{%s},{%s},{%s}}, // %d %s %s: %s" % (len(pp), ",".join(map(str, p2)), w, len(op), ",".join(map(hex, o3)), plus, modrm, ",".join(map(str, r3)), ",".join(map(str, s3)), ",".join(map(str, g8)), k, name, " ".join(ops), enc))
    # kinds of operands: 1 register, 2 8-bit register, 3 memory, 4 immediate
    kinds = ["[%s]" % ",".join(str(2 if o == "Gpr8" else 1 if o in REG else 3 if o == "Memory" else 4 if o in IMM else 0) for o in (ops + ["_"] * 3)[:3]) for _, ops, *_ in F]
    open(HERE + "/src/forms.rs", "w").write("use xten::asm::inst::*;\nuse xten::asm::*;\nuse crate::Ops;\n" + "\n".join(rs) + "\npub static FORMS: [fn(&Ops, &mut Vec<u8>); %d] = [%s];\npub static KINDS: [[u8; 3]; %d] = [%s];\npub static IMMS: [[u8; 3]; %d] = [%s];\n" % (len(F), ", ".join("f%d" % k for k in range(len(F))), len(F), ", ".join(kinds), len(F), ", ".join(str([IMM.get(o, 0) for o in (f[1] + ["_"] * 3)[:3]]) for f in F)))
    open(HERE + "/forms.h", "w").write("\n".join(h) + "\n")


LL_IMM = {"i8": "I8", "i16": "I16", "i32": "I32", "i64": "I64"}


def llrl():
    """the same calls on the self-hosted assembler, 16 forms to a function"""
    out, leaf = [], []
    for k, (name, ops, *_) in enumerate(F):
        b = []
        for i, o in enumerate(ops):
            e = "(%s %d)" % (REG[o], i) if o in REG else "(mem %d)" % i if o == "Memory" else "(conv-to %s (imm %d %d))" % (LL_IMM[o], i, 8 * IMM[o]) if o in IMM else "|:" + o[1:].lower()
            b.append("[%s %s]" % ("abc"[i], e))
        call = "(done (%s! w%s))" % (name.lower(), "".join(" " + "abc"[i] for i in range(len(ops))))
        leaf.append("(let* (%s) (xi/begin %d) %s)" % (" ".join(b), k, call) if b else "(begin (xi/begin %d) %s)" % (k, call))
    for g in range(0, len(leaf), 16):
        out.append("(function (forms-%d k w) {(-> U64 (Vector U8) unit)}\n  (cond\n%s\n    [else unit]))" % (g // 16, "\n".join("    [(eq? k %d) %s]" % (g + i, x) for i, x in enumerate(leaf[g:g + 16]))))
    n = (len(leaf) + 15) // 16
    out.append("(function (form k w) {(-> U64 (Vector U8) unit)}\n  (cond\n%s\n    [else unit]))" % "\n".join("    [(< k %d) (forms-%d k w)]" % (16 * i + 16, i) for i in range(n)))
    head = open(HERE + "/xinst_head.llrl").read()
    open(HERE + "/../llrl/xinst.llrl", "w").write(head.replace("; FORMS\n", "; Written by harness/asmx/gen.py.\n" + "\n".join(out) + "\n"))


if __name__ == "__main__":
    main()
    llrl()
