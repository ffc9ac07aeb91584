"""tables.json (written by TLC from spec/Export.tla) -> tables.gen.h for the C++ lockstep walker."""
import json

def arr(xs): return "{" + ",".join(str(x) for x in xs) + "}"

def machine(name, m):
    qs = [tuple(s["q"]) for s in m]
    qs.sort(key=lambda q: (q != ("start", 0), q != ("broken", 0), q))   # start = 0, broken = 1
    idx = {q: i for i, q in enumerate(qs)}
    by = {tuple(s["q"]): s["rows"] for s in m}
    out = [f"static const int {name}_nq = {len(qs)};"]
    out.append(f"static const char* const {name}_names[] = {{" + ",".join(f'"{a}{n}"' for a, n in qs) + "};")
    rows, starts = [], []
    for q in qs:
        starts.append(len(rows))
        for r in by[q]:
            t = r["t"]
            rows.append("{%du,%du,%d,%d,%d,%d}" % (r["lo"] & 0xffffffff, r["hi"] & 0xffffffff, idx[tuple(t["to"])],
                                                  t["mul"], t["add"], 1 if t["emit"] else 0))
    starts.append(len(rows))
    out.append(f"static const Row {name}_rows[] = {{" + ",".join(rows) + "};")
    out.append(f"static const int {name}_start[] = {arr(starts)};")
    return "\n".join(out)

def enc(name, rows):
    out = [f"static const EncRow {name}[] = {{"]
    for r in rows:
        us = ",".join("{%d,%d,%d}" % (u["base"], u["div"], u["mod"]) for u in r["units"])
        out.append("{%du,%d,%d,{%s}}," % (r["top"] & 0xffffffff, r["bias"], len(r["units"]), us))
    out.append("};")
    out.append(f"static const int {name}_n = {len(rows)};")
    return "\n".join(out)

def ivs(name, iv):
    return f"static const uint32_t {name}[][2] = {{" + ",".join("{%d,%d}" % tuple(i) for i in iv) + "};\n" \
           f"static const int {name}_n = {len(iv)};"

def generate(tables_json, out_h):
    t = json.load(open(tables_json))
    o = ["// generated from the TLA+ specification by Export.tla", "#pragma once", "#include <cstdint>",
         "struct Row { uint32_t lo, hi; int to; int64_t mul, add; int emit; };",
         "struct EncUnit { uint32_t base, div, mod; };",
         "struct EncRow { uint32_t top; uint32_t bias; int n; EncUnit u[6]; };"]
    for n in ("m8", "m16", "mu2", "mu4"): o.append(machine("T_" + n, t[n]))
    o.append("static const uint32_t T_tops[] = {" + ",".join("%du" % (x & 0xffffffff) for x in t["tops"]) + "};")
    o.append("static const uint8_t T_fits8[6][256] = {" + ",".join("{0," + ",".join(map(str, r)) + "}" for r in t["fits8"]) + "};")
    o.append("static const uint8_t T_fits16[6] = " + arr(t["fits16"]) + ";")
    o.append(enc("T_enc8", t["enc8"])); o.append(enc("T_enc16", t["enc16"]))
    for n in ("trim", "ascii7", "cp1252", "cp1250"):
        o.append(f"static const uint32_t T_{n}[] = {arr(t[n])};\nstatic const int T_{n}_n = {len(t[n])};")
    for n in ("private", "control", "white"): o.append(ivs("T_" + n, t[n]))
    o.append("static const char* const T_turkic[] = {" + ",".join('"' + "".join(map(chr, x)) + '"' for x in t["turkic"]) + "};")
    o.append(f"static const int T_turkic_n = {len(t['turkic'])};")
    open(out_h, "w").write("\n".join(o) + "\n")

def ucd_text(ucd_json, out_txt):
    u = json.load(open(ucd_json))
    with open(out_txt, "w") as f:
        f.write(f"{u['v']} {len(u['assigned'])} {len(u['lower'])}\n")
        for i in u["assigned"]: f.write("%d %d\n" % tuple(i))
        for i in u["lower"]: f.write("%d %d %d %d\n" % tuple(i))
