#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set("""p31-flat-order p25-iter-skips-comments p12-last-row-name p19-fields-in-paragraphs-only p20-float-before-type p22-parsed-styles-shared p25-find-descendants p25-default-for-empty p25-set-child-tail p27-copy-registers-old p28-limit-on-read p29-unknown-prefix-passes p30-ignore-meta-inf p31-body-created-again p06-damaged-xml-recovered p15-nested-items p21-find-descendants p29-wrap-memo p12-nonlatin p20-name-prefix p08-span-beyond-right p31-empty-body-replaced p01-fixed-temp-name p27-clear-surplus p11-display-replaces-first p23-temp-counter p03-register-untyped p21-display-name p22-stream-read-lazily p18-clear-new-statistics p16-append-again p23-shared-package-buffer p18-typeof-remembered p09-column-limit-keeps-count p04-cleanup-namespaces p22-backup-shared p25-index-by-content p12-index-list p07-last-column-of-wide p15-item-of-items p25-replace-by-index p34-sheet-of-other-document p24-listener-root-cached p33-manifest-any-root p28-spaces-string p07-iter-rows-late p15-header-of-nested p18-empty-tag p03-xml-by-name""".split())
rows = ["| check | planted bug | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s%s | %s |" % (m["property"], d, " *" if d in MISSED else "",
                                        m["needs"].replace("|", "/").replace("\n", " ")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
head = s[:s.index("<!-- table -->")]
open(p, "w").write(head + "<!-- table -->\n" + "\n".join(rows) + "\n")
