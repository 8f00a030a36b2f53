#!/usr/bin/env python3
# Rewrites known-findings.json: the repaired defects ("fixed") from /repo's fix: commits, plus the KNOWN table.
import json,subprocess
PROP={'250d1e9':'C02','f068635':'C04','e4339bb':'C03','5f8cd83':'C05','1fb5d4b':'C08','7a8b904':'C11','a849719':'C11','700661a':'C11','0c9ceec':'C09','c2e48ac':'C06','9cdd250':'C07','fcddb5a':'C21','9b22a53':'C08','d4b9751':'C08','6ac89fa':'C09','8489163':'C10','55b36f7':'C11',
'5d7dc85':'C12','811c491':'C12','7121f7c':'C12','fae38b5':'C13','084a62d':'C13','1a051c3':'C13','fcb3e63':'C14','b0bb6fb':'C14','a76423e':'C14','109cc6b':'C15','d864176':'C15','d3d6f9b':'C15','2a13681':'C15','b468ce6':'C16','7a3d836':'C16','1b6db88':'C16','a13bdea':'C17','865fe61':'C18','4dda6a3':'C18','ac92cb1':'C18','e0a3b57':'C18','db321a9':'C18','0dab18c':'C18','b28aeb0':'C18','0e21c38':'C20','84c6087':'C20','eb31000':'C20','3815b26':'C20','e022f79':'C19','8d85ef3':'C19','4903414':'C19','ce4641a':'C19','47b58d3':'C19','a559ce0':'C19','9ca09e5':'C19','a35fd04':'C19','4a1dcb2':'C19','040812a':'C16','79b1f99':'C14'}
KNOWN=[]
try: exec(open('/verif/tools/findings_extra.py').read())
except FileNotFoundError: pass
out=[]
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.split('\n')
for l in log:
    if ' fix: ' in l:
        h,w=l.split(' fix: ',1)
        p=PROP[h]
        out.append(dict(id='fixed-'+h,property=p,harness='',status='fixed',commit=h,what='fixed: property=%s %s %s'%(p,h,w)))
json.dump(out+KNOWN,open('/verif/known-findings.json','w'),indent=1)
