"""Rewrite section 6 of DESIGN.md (which planted bugs are caught by which check) from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    name = os.path.basename(os.path.dirname(f))
    rows.append(f"| {name} | {m['needs'].replace('|', '/')} | {m['what_it_breaks'].replace('|', '/')} | {'**missed**' if m.get('missed') else m['property'] + ' quick'} |")
text = open(os.path.join(root, "DESIGN.md")).read().split("\n## 6.")[0].rstrip() + "\n\n" + f"""## 6. Planted bugs

{len(rows)} changes are kept under `seeded/`. Each was written from the text of a property and the code, then tried. Where a check missed one, the
generator or the oracle was extended until it was found by a general widening (never by looking for the change), e.g. C01 gained source
files replaced in the middle of an import by versions with other dependencies, restored backups, and edits of dialects under a warm cache; C03 gained
holes and flipped bytes; C04 gained decoys under the names of captured macros; C05 gained floods of captures; C06 gained statement shapes and looks at lifted values; C09 gained switches at chosen lines; C12 gained
documentation strings; C14 gained dialects repeated from one module; C15 gained `sys.path` entries in other orders. This table is
rewritten by `tools/seedtable.py`.

| change | needs | breaks | caught by |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(os.path.join(root, "DESIGN.md"), "w").write(text)
