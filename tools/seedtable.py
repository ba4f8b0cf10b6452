"""Rewrites the table of planted bugs at the end of DESIGN.md (not used by any check)."""
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs and the checks that catch them"
NOTES = json.load(open(os.path.join(HERE, "tools", "seednotes.json")))
rows = []
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    name = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (name, d["needs"].replace("|", "/").replace("\n", " "), d["property"], NOTES.get(name, "")))
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read().replace("SEEDTABLE\n", MARK + "\n")
text = text[:text.index(MARK)]
text += MARK + """

Each was written from the property's text and the code, breaks it while all 376 tests pass, and has a demonstration. Every one
listed is caught by the quick check of its property (column "caught by"); a note says where the check first missed it.

| planted bug | needs | caught by | note |
|---|---|---|---|
""" + "\n".join(rows) + """

Besides these, a mutation tester (operators, constants, strings, dropped statements and conditions over all non-test modules;
a scratch tool, not kept) was run against the checks: each mutant that survives the unit tests is given to the checks whose laws
execute the line. Survivors were read one by one: those that change behaviour led to stronger laws (refusals in C07 and C10, the
change to ice in C11, reports of impossible days in C04), the rest are equivalent (for example a course 180 degrees
back told as +180 instead of -180, or a value never used).
"""
open(path, "w").write(text)
