#!/usr/bin/env python3
"""Extracts the workload corpus (sim/corpus.txt) from /repo/resources/PhoneNumberMetadata.xml.
Lines: R <region> <cc> <ndd|-> <idd|->     and     N <region> <cc> <type> <national digits>
The corpus is committed: it is workload material, not an oracle, so it need not follow /repo."""
import xml.etree.ElementTree as ET, re, sys
t=ET.parse('/repo/resources/PhoneNumberMetadata.xml').getroot()
out=[]
for terr in t.iter('territory'):
    r=terr.get('id'); cc=terr.get('countryCode')
    ndd=terr.get('nationalPrefix') or '-'
    idd=terr.get('internationalPrefix') or ''
    pref=terr.get('preferredInternationalPrefix') or ''
    i=pref if pref else idd
    i=i.replace('\n','').replace(' ','')
    if not re.fullmatch(r'[0-9~]+',i): i='-'
    i=i.replace('~','')
    out.append(f"R {r} {cc} {ndd} {i}")
    for ty in 'fixedLine mobile pager tollFree premiumRate sharedCost personalNumber voip uan voicemail noInternationalDialling'.split():
        e=terr.find(ty)
        if e is None: continue
        x=e.find('exampleNumber')
        if x is not None and x.text: out.append(f"N {r} {cc} {ty} {x.text.strip()}")
open('/verif/sim/corpus.txt','w').write('\n'.join(out)+'\n')
print(len(out))
