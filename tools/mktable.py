"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
text = open(path).read().split("\n## Planted bugs\n")[0].rstrip() + "\n"
tail = open(path).read().split("\n## Limits\n")
limits = "\n## Limits\n" + tail[1].split("\n## Planted bugs\n")[0].rstrip() + "\n" if "\n## Limits\n" not in text else ""
rows = []
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["what_it_breaks"], m["needs"],
                                          m.get("caught_by", m["property"])))
text += limits + """
## Planted bugs

Each compiles, passes the stable tests and has a demonstration; "caught by" names the check that reports it at the quick tier. Bugs
that were missed at first led to stronger checks (C09: literal keys that look like paths; C13: field selectors over status.ready;
C23/C25: served groups with an API server attached; C11: annotations with existing values; C06: order of gathered lists; C12/C15:
kinds and group versions), found either by planting or by a campaign of random source mutations (statement deletion, condition
negation, swapped operators and constants over pkg/ and internal/), a sample of which was run: the survivors that were read and not addressed were equivalent,
logging, or performance only.

| bug | breaks | needs | caught by |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(path, "w").write(text)
