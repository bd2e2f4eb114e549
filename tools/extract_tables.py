#!/usr/bin/env python3
"""One-off authoring aid (never run by a check): transcribe the IF97 coefficient tables
into spec/Tables.tla.  The committed Tables.tla is the reference; checks never regenerate it."""
import re,sys,glob
repo=sys.argv[1]
out=[]
def num(s):
    return s.strip().rstrip('_f64')
def tables(path):
    txt=open(path).read()
    txt=re.sub(r'//[^\n]*','',txt)
    # position of fns
    fns=[(m.start(),m.group(1)) for m in re.finditer(r'fn (\w+)',txt)]
    for m in re.finditer(r'const\s+(\w+)\s*:\s*\[\((?:i32|f64), i32, f64\);\s*\d+\]\s*=\s*\[(.*?)\];',txt,re.S):
        f=[n for p,n in fns if p<m.start()]
        rows=re.findall(r'\(\s*([-+.\deE]+)\s*,\s*([-+.\deE]+)\s*,\s*([-+.\deE]+)\s*,?\s*\)',m.group(2))
        yield (f[-1] if f else 'top',m.group(1),rows)
names={}
for path in sorted(glob.glob(repo+'/src/r*/*.rs')+glob.glob(repo+'/src/common/*.rs')):
    base=path.split('/')[-1][:-3]
    for fn,nm,rows in tables(path):
        key=fn if fn!='top' else base
        names[(base,key)]=rows
m={('region1_gfe','region1_gfe'):'T1',('region2_gfe','region2_gfe'):'T2r',('region5_gfe',None):'T5r',('region3_hfe','region3_hfe'):'T3'}
for (b,k),rows in names.items():
    t=m.get((b,k)) or ('T5r' if b=='region5_gfe' else 'Tab_'+k)
    out.append((t,b,rows))
with open('/verif/spec/Tables.tla','w') as f:
    f.write('---- MODULE Tables ----\nEXTENDS Real\n(* IAPWS-IF97 coefficient tables: rows <<I, J, n>>.  TLC has no decimal tokens, so the\n   numerals are strings; module Real reads them as the real number they denote. *)\n')
    for t,b,rows in out:
        fl=any('.' in r[0] for r in rows)
        f.write(f'\\* {b}: {len(rows)} terms\n{t} == <<\n')
        f.write(',\n'.join(f'  <<"{r[0]}", {r[1]}, "{r[2]}">>' if fl else f'  <<{r[0]}, {r[1]}, "{r[2]}">>' for r in rows))
        f.write(' >>\n')
    f.write('====\n')
for t,b,rows in out: print(t,b,len(rows))
