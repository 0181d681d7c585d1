import json,os
missed={"c07-balance":"C07","c09-negativity-slice":"C09","c17-final-early":"C17","c10-fraction-loss":""}
rows=["| id | breaks | needs | caught by |","|---|---|---|---|"]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d))
    rows.append("| %s | %s | %s | %s%s |"%(d,m['what_it_breaks'],m['needs'],m['property'],' (first missed)' if missed.get(d) else ''))
s=open('/verif/DESIGN.md').read()
import re
if '@PLANTS@' in s: s=s.replace('@PLANTS@','<!-- plants -->\n'+'\n'.join(rows)+'\n<!-- /plants -->')
else: s=re.sub(r'<!-- plants -->.*<!-- /plants -->',lambda _: '<!-- plants -->\n'+'\n'.join(rows)+'\n<!-- /plants -->',s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
