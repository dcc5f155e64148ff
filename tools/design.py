"""fills the generated tables of DESIGN.md (defects, planted bugs) in place"""
import re,json,os,glob
V='/verif'
fx=[l.strip() for l in open(V+'/known_findings.txt') if l.startswith('fixed:')]
rows=['| property | commit | what failed |','|---|---|---|']
for l in fx:
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l); rows.append('| %s | `%s` | %s |'%m.groups())
caught=json.load(open(V+'/tools/caught.json')) if os.path.exists(V+'/tools/caught.json') else {}
srows=['| planted bug | property | needs | caught by |','|---|---|---|---|']
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=d.split('/')[-2]; m=json.load(open(d)); srows.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'].replace('|','\\|').replace('\n',' '),caught.get(i,'?')))
s=open(V+'/DESIGN.md').read()
def put(s,tag,rows):
    t='\n'.join(rows)
    b,e='<!-- %s -->'%tag,'<!-- /%s -->'%tag
    if '@%s@'%tag in s: return s.replace('@%s@'%tag,b+'\n'+t+'\n'+e)
    return re.sub(re.escape(b)+'.*?'+re.escape(e),lambda _:b+'\n'+t+'\n'+e,s,flags=re.S)
s=put(s,'FIXED',rows);s=put(s,'SEEDED',srows)
open(V+'/DESIGN.md','w').write(s)
