"""Writes src/fmt_table.rs: every combination of formatting flags as a literal format string."""
fills = ['', '*', '0', 'é']
print("//! Generated by gen_fmt.py.\nuse ::f256::f256;\n")
print("pub const FILLS: [u32; 4] = [32, 42, 48, 233];\n")
print("/// kind 0 '', 1 'e', 2 'E'; fill index; align 0 none, 1 '<', 2 '^', 3 '>'")
print("#[allow(clippy::all)]\npub fn fmt(x: &f256, kind: u8, fill: u8, align: u8, plus: bool, zero: bool, w: Option<usize>, p: Option<usize>) -> String {")
print("    match (kind, fill, align, plus, zero, w, p) {")
for k, ks in enumerate(['', 'e', 'E']):
    for f, fs in enumerate(fills):
        for a, al in enumerate(['', '<', '^', '>']):
            if f and not a:
                continue
            for pl in (0, 1):
                for z in (0, 1):
                    for w in (0, 1):
                        for p in (0, 1):
                            if z and not w:
                                continue
                            spec = "{:" + fs + al + ('+' if pl else '') + ('0' if z else '') + ('w$' if w else '') + ('.p$' if p else '') + ks + "}"
                            args = ["x"] + (["w = w"] if w else []) + (["p = p"] if p else [])
                            pat = f"({k}, {f}, {a}, {'true' if pl else 'false'}, {'true' if z else 'false'}, {'Some(w)' if w else 'None'}, {'Some(p)' if p else 'None'})"
                            print(f'        {pat} => format!("{spec}", {", ".join(args)}),')
print("        _ => unreachable!(),\n    }\n}")
