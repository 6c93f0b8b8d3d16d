#!/usr/bin/env python3
"""Development-time provenance script (no check runs it).

Turns /tmp/d/{words,graphemes,sentences}.txt (one line per code point, dumped
from the library's tables by an overlay test) into UCD-style range files under
/verif/mon/ucd/data.  The dump was accepted as 'Unicode 17.0.0' only after it
was compared, code point by code point, with three independent sources; see
DESIGN.md, 'Golden Unicode data'.
"""
import os,sys
D='/tmp/d/'; O='/verif/mon/ucd/data/'
def load(f): return {int(l[:6],16):l.strip().split(';')[1].split(',') for l in open(D+f)}
G,W,S=load('graphemes.txt'),load('words.txt'),load('sentences.txt')
names={'RegionalIndicator':'Regional_Indicator','HebrewLetter':'Hebrew_Letter','DoubleQuote':'Double_Quote','SingleQuote':'Single_Quote'}
def out(fn,m):
    ks=sorted(m); rs=[]
    for k in ks:
        if rs and rs[-1][1]==k-1 and rs[-1][2]==m[k]: rs[-1][1]=k
        else: rs.append([k,k,m[k]])
    with open(O+fn,'w') as f:
        f.write('# Unicode 17.0.0, provenance: /verif/tools/mkgolden.py\n')
        for a,b,v in rs:
            r='%04X'%a if a==b else '%04X..%04X'%(a,b)
            f.write('%-14s; %s\n'%(r,v))
    print(fn,len(rs),len(ks))
def pick(T,drop):
    m={}
    for k,vs in T.items():
        v=[x for x in vs if not drop(x)]
        assert len(v)<=1,(k,vs)
        if v: m[k]=names.get(v[0],v[0])
    return m
out('gcb.txt',pick(G,lambda x:x.startswith('InCB') or x=='ExtendedPictographic'))
out('wb.txt',pick(W,lambda x:x in('BleveIdeographic','ExtendedPictographic')))
out('sb.txt',pick(S,lambda x:False))
out('extpict.txt',{k:'Extended_Pictographic' for k,v in G.items() if 'ExtendedPictographic' in v})
out('incb.txt',{k:'InCB; '+[x for x in v if x.startswith('InCB')][0][4:] for k,v in G.items() if any(x.startswith('InCB') for x in v)})
