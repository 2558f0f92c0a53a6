"""mkseed.py ID PROPERTY FILE  reading from a python file spec: edits list, needs, breaks, demo"""
import sys,json,pathlib,subprocess,tempfile,shutil
spec={}
exec(open(sys.argv[1]).read(),spec)
for s in spec['SEEDS']:
    d=tempfile.mkdtemp(dir='/tmp',prefix='mk_')
    subprocess.run(f"cp -a /repo/dissect {d}/ && cd {d} && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x",shell=True,check=True)
    for f,old,new in s['edits']:
        p=pathlib.Path(d)/'dissect/cstruct'/f
        t=p.read_text(); assert t.count(old)==1,(s['id'],f,old,t.count(old))
        p.write_text(t.replace(old,new))
    diff=subprocess.run(['git','diff'],cwd=d,capture_output=True,text=True).stdout
    # blame check: removed lines must be original
    out=pathlib.Path(__file__).resolve().parent.parent/'seeded'/s['id']; out.mkdir(parents=True,exist_ok=True)
    (out/'patch.diff').write_text(diff)
    (out/'meta.json').write_text(json.dumps({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},indent=1)+'\n')
    (out/'demo.sh').write_text('''#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken; run with the repository as working directory
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
exec "$py" "$(dirname "$0")/demo.py"
''')
    (out/'demo.py').write_text(s['demo'].lstrip('\n'))
    shutil.rmtree(d)
    for f in {e[0] for e in s['edits']}:
        base=subprocess.run(['git','-C','/repo','show','865698f:dissect/cstruct/'+f],capture_output=True,text=True).stdout.splitlines()
        rm=[l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        mine=[l for l in rm if l not in base]
        if not rm: print(s['id'],'WARNING no removed lines')
        if mine: print(s['id'],'WARNING mine:',mine)
