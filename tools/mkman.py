import json,sys
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
claimed=sys.argv[1].split(',')
def note(i):
    if i[0]=='P': return 'Every program whose token sequence lies in the listed families (each slot one symbolic token out of an alphabet, up to all 93 kinds) is decided, on the compiled code of the real parser; longer sequences are outside. Trusts the executor /verif/engine, z3, and the harness token stream that stands in for the tokenizer (covered by L01-L10).'
    return 'Every text in the listed families (each slot one symbolic character out of an alphabet, up to all ASCII plus representative non-ASCII characters) is decided, on the compiled code of the real tokenizer; longer texts are outside. Trusts the executor /verif/engine, z3, and the standard library code it executes.'
ch=[]; na=[]
for p in props:
    i=p['id']
    if i in claimed or claimed==['all']:
        ch.append(dict(property=i,quick_cmd='python3 check.py %s quick'%i,thorough_cmd='python3 check.py %s thorough'%i,evidence_file='evidence/%s.json'%i,technique='symbolic execution of the compiled code (LLVM IR) with SMT (z3), against a reference grammar',level='model_checking',level_note=note(i)))
    else: na.append(dict(property=i,reason='check under construction'))
json.dump(dict(version=1,setup_cmd='bash setup.sh',checks=ch,not_applicable=na),open('/verif/MANIFEST.json','w'),indent=1)
