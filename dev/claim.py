"""claim(id, parts, rule, level, note): inserts the claim of a property into props.py (dev helper; exec'd by edit scripts)"""
import re
PATH = "/verif/props.py"
NI = "NI"
def claim(pid, parts, rule, level=None, note=None):
    s = open(PATH).read()
    i = s.index(f'    P("{pid}"')
    j = s.index('\n    P("', i + 5) if '\n    P("' in s[i + 5:] else s.index("\n]", i)
    blk = s[i:j].rstrip()
    assert blk.endswith("),"), blk[-40:]
    blk = blk[:-2]
    blk = re.sub(r",\s*na=\".*\"$", "", blk)
    x = f",\n      parts={parts!r},\n      rule={rule!r}"
    if level: x += f",\n      level={level!r}"
    if note: x += f",\n      note={note}"
    s = s[:i] + blk + x + ")," + s[j:]
    open(PATH, "w").write(s)
def text(old, new):
    s = open(PATH).read()
    assert s.count(old) == 1, (s.count(old), old)
    open(PATH, "w").write(s.replace(old, new))
