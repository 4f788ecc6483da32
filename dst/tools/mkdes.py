import json,glob,re
t=open('/verif/DESIGN.md').read()
c25='''**C25 commands, files and I/O.** A grammar of all console commands (right, missing, extreme and nonsensical parameters; memory objects, breakpoints, variables, VCD and simif objects made by earlier lines), plus
image (ihx, s19, omf, asc, cdb), VCD and command files that are well formed, damaged or rubbish, go to a console (socket, terminal, `exec` file, `-C`, `-e`) in pieces, while opens, reads, writes, select and the clock fail by
plan and the peer vanishes. A second simulated client connects late and must get `expr 1234567+1` answered. 40% of the runs use the `san` variant. Excluded: `emulation` (its loop looks at no console by design), `quit`/`kill`, `jaj`;
a `download` is always ended (it waits for its end record); a listing of megabytes is not counted as a hang; a non interactive console is not read while its program runs (by design), so the judge is another console.

'''
if '**C25 commands' not in t:
    t=t.replace('**C09–C12 8051 refinement**',c25+'**C09–C12 8051 refinement**')
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(f)); rows.append('| %s | %s | %s | caught by the quick check of %s |'%(f.split('/')[-2],d['what_it_breaks'],d['needs'],d['property']))
tab='''## Planted bugs
Each is kept under seeded/; `dst/tools/mkseed.py verify` builds it, runs the stable tests, its demonstration on both trees and the check of its property.

| bug | breaks | needs | result |
|---|---|---|---|
'''+'\n'.join(rows)+'\n\n'
t=re.sub(r'## Planted bugs\n.*?(?=\n## )\n','',t,flags=re.S)
t=t.replace('## Not applicable / out of reach',tab+'## Not applicable / out of reach')
open('/verif/DESIGN.md','w').write(t)
