"""Development aid: append variants.  usage: addvar.py FILE  -- FILE defines V, a list of (pid or None, file, old, new, ...)."""
import sys, runpy
f = '/verif/selftest/variants.py'
V = runpy.run_path(sys.argv[1])["V"]
s = open(f).read().rstrip()
assert s.endswith("]")
s = s[:-1]
bad = 0
for v in V:
    src = open('/repo/' + v[1]).read()
    for o in v[2::2]:
        if src.count(o) < 1:
            print("NOT FOUND", repr(o)[:300]); bad = 1
    s += "    (" + ", ".join(map(repr, v)) + "),\n"
if not bad:
    open(f, 'w').write(s + "]\n")
    print(len(V), "added")
