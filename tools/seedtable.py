"""seedtable.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob,json,os,re
rows=['| bug | needs | breaks | caught by |','|---|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); c=lambda s:s.replace('|','\\|')
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {c(m['needs'])} | {c(m['what_it_breaks'])} | {m.get('caught_by',m['property'])} |")
p='/verif/DESIGN.md'; s=open(p).read()
B,E='<!-- seeds -->','<!-- /seeds -->'
t=B+'\n'+'\n'.join(rows)+'\n'+E
s=s.replace('@@SEEDS@@',t) if '@@SEEDS@@' in s else re.sub(re.escape(B)+'.*?'+re.escape(E),lambda _:t,s,flags=re.S)
open(p,'w').write(s)
