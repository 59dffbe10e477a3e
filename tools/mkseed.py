"""Create seeded/<id>/ from an edit: mkseed.py ID PROPERTY NEEDS BREAKS FILE OLD NEW [FILE OLD NEW ...]; demo.py is read from stdin.
The demonstration is run on /repo (must exit 0) and on a scratch copy with the edit (must fail)."""
import json, os, pathlib, shutil, subprocess, sys, tempfile
sid, prop, needs, breaks, *ed = sys.argv[1:]
out = pathlib.Path('/verif/seeded') / sid
out.mkdir(parents=True, exist_ok=True)
demo = sys.stdin.read()
w = pathlib.Path(tempfile.mkdtemp(prefix='seed', dir='/tmp'))
try:
    r = w / 'repo'
    subprocess.run(['cp', '-a', '/repo', str(r)], check=True)
    for i in range(0, len(ed), 3):
        f = r / ed[i]
        s = f.read_text()
        if s.count(ed[i + 1]) != 1:
            sys.exit('edit %d matches %d times' % (i // 3, s.count(ed[i + 1])))
        f.write_text(s.replace(ed[i + 1], ed[i + 2]))
    d = subprocess.run(['git', '-C', str(r), 'diff'], capture_output=True, text=True).stdout
    (out / 'patch.diff').write_text(d)
    (out / 'meta.json').write_text(json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')
    (out / 'demo.py').write_text(demo)
    if not (out / 'demo.sh').exists():
        (out / 'demo.sh').write_text('#!/bin/bash\n# cwd: the repository\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$here/stubs:$PWD" exec /opt/venv/bin/python "$here/demo.py"\n')
        os.chmod(out / 'demo.sh', 0o755)
    st = os.environ.get('STUBS')
    if st:
        shutil.rmtree(out / 'stubs', ignore_errors=True)
        (out / 'stubs').mkdir()
        for x in st.split(','):
            src = pathlib.Path('/verif/tools/stubs') / x
            if src.is_dir():
                shutil.copytree(src, out / 'stubs' / x, ignore=shutil.ignore_patterns('__pycache__'))
            else:
                shutil.copy(src, out / 'stubs' / x)
    for where, want in (('/repo', True), (str(r), False)):
        p = subprocess.run(['bash', str(out / 'demo.sh')], cwd=where, capture_output=True, text=True)
        print(where, p.returncode, (p.stdout + p.stderr)[-400:])
        if (p.returncode == 0) != want:
            print('NOT A DEMONSTRATION')
finally:
    shutil.rmtree(w)
