import json, re, os, glob, sys
sys.path.insert(0,'/verif/harness')
V='/verif'
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
bounds={}
for f in glob.glob(V+'/harness/c??.py'):
    m=re.search(r"^BOUNDS = '(.*)'$",open(f).read(),re.M)
    if m: bounds['C'+f[-5:-3]]=m.group(1)
exec(open(V+'/tools/design_text.py').read())
det={}
if os.path.exists(V+'/tools/detected.json'): det=json.load(open(V+'/tools/detected.json'))
o=[HEAD]
for p in props:
    i=p['id']; t=TEXT[i]
    o.append('### %s %s\n'%(i,p['title']))
    o.append('*Specified.* '+p['statement']+'\n')
    o.append('*Symbolic.* '+t[0]+'\n')
    o.append('*Oracle.* '+t[1]+'\n')
    o.append('*Bounds.* '+bounds.get(i,'')[0].upper()+bounds.get(i,'')[1:]+'.\n')
    if len(t)>2 and t[2]: o.append('*Why tests cannot.* '+p['why_tests_cant']+' '+t[2]+'\n')
    else: o.append('*Why tests cannot.* '+p['why_tests_cant']+'\n')
o.append(MID)
o.append('| planted bug | property | what it needs | reported by |\n|---|---|---|---|')
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); n=d.split('/')[-2]
    o.append('| %s | %s | %s | %s |'%(n,m['property'],m['needs'],det.get(n,'not yet run')))
o.append(TAIL)
o.append('\n'.join('- '+k['text'] for k in json.load(open(V+'/known_findings.json'))))
open(V+'/DESIGN.md','w').write('\n'.join(o)+'\n')
