import json,os
head=open('/verif/tools/design_head.md').read()
rows=[]
miss={'ap-ties-share-rank':'first missed; tied score realisations were added to C03-C07','dcg-no-deep-ranks':'first missed; the "rising document" family was added to C06','ndcg-memo-other-query':'first missed; all pairs of small queries in one store were added to C07','convert-no-truncate':'first missed; older output files and the same output written three times were added to C11, C19, C21'}
extra=json.load(open('/verif/tools/miss.json')) if os.path.exists('/verif/tools/miss.json') else {}
miss.update(extra)
ents=[]
for d in os.listdir('/verif/seeded'):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    ents.append((m['property'],d,m))
for p,d,m in sorted(ents):
    rows.append(f"| {d} | {p} | {m['what_it_breaks']} | {m['needs']} | {miss.get(d,'caught at once')} |")
t="| planted bug | caught by | what it breaks | what it needs | history |\n|---|---|---|---|---|\n"+"\n".join(rows)+"\n"
open('/verif/DESIGN.md','w').write(head.replace('@@BUGS@@',t))
