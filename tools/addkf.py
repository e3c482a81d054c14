import json,sys
p='/verif/known_findings.json';k=json.load(open(p))
pid,h,what=sys.argv[1:4]
if h=='open': k['findings'].append({"property":pid,"status":"open","what":what})
else: k['findings'].append({"property":pid,"status":"fixed","what":"fixed: property=%s %s %s"%(pid,h,what)})
open(p,'w').write('{"findings": [\n'+',\n'.join(' '+json.dumps(f) for f in k['findings'])+'\n]}\n')
