import subprocess,json
P=dict(x.split() for x in """e87929b C04
0690952 C04
7dc711a C04
69beafd C07
4096418 C04
0138a76 C04
f505893 C04
6a28f3b C01
cf0bcc3 C01
6449255 C01
8221f68 C01
8c6ead0 C02
56f5175 C05
d8974a7 C05
fc79f4d C07
3afde7b C12
1c09a41 C08
28747cd C08
443326a C08
b48bc6a C08
4874ec5 C08
c018dc3 C08
529a14d C09
6e849db C09
2b22166 C09
436c068 C09
dc108d0 C09
4b7d054 C09
f364193 C12
12ce158 C11
21dc977 C11
fad7351 C13
dcdc204 C14
e3b0fb2 C10
1eb5812 C15
590b4c2 C16
4d6a02e C16
773fd73 C17
8ad989a C19
e638299 C19
db97e79 C20
188af97 C05
da3c9c9 C07
fad1cfc C04
""".strip().split('\n'))
out=[]
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','e8f559b..HEAD'],capture_output=True,text=True).stdout.strip().split('\n')
for l in log:
    h,s=l.split(' ',1)
    assert s.startswith('fix: ')
    out.append(f"fixed: property={P.get(h[:7],'?')} {h} failed before: {s[5:]}" if False else f"fixed: property={P[h[:7]]} {h} repaired so that: {s[5:]}")
k=json.load(open('known_findings.json')); k['fixed']=out
json.dump(k,open('known_findings.json','w'),indent=1)
