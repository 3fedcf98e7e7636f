"""python3 tools/mk.py: helper to write a planted bug (mk(id, property, needs, what, [(file, old, new)]))."""
import subprocess, json, os
def mk(id, prop, needs, breaks, edits):
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout
    try:
        for f, a, b in edits:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
