"""Regenerate the ENTRIES table of harness/src/lib.rs (sec_lib.rs lists the ones of sign.rs itself)."""
import re, os
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness/src/")
out = []
for mod in ("props", "more", "read", "equal", "reject"):
    if os.path.exists(d + mod + ".rs"):
        for m in re.finditer(r'(#\[cfg\([^\n]*\)\]\n)?#\[no_mangle\]\npub extern "C" fn (h_\w+)', open(d + mod + ".rs").read()):
            out.append("    %s(\"%s\", %s::%s)," % (("#[cfg(feature = \"dnssec\")]\n    " if m.group(1) else ""), m.group(2), mod, m.group(2)))
t = open(d + "lib.rs").read()
i = t.index("pub static ENTRIES"); i = t.index("\n", i) + 1
open(d + "lib.rs", "w").write(t[:i] + "\n".join(out) + "\n];\n")
