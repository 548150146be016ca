"""Known findings: lines `finding: property=<id> match=<regex> <what fails>`
(suppresses exactly the failures whose report matches) and `fixed: ...`
(history; suppresses nothing)."""
import os, re
PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'KNOWN_FINDINGS.txt')
def findings(prop):
    out = []
    if os.path.exists(PATH):
        for l in open(PATH):
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)$', l)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out
