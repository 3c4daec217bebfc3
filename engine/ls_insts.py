import json,sys
d=json.load(open(sys.argv[1])); roots=sys.argv[2].split(',')
I=d['insts'];seen=set();st=[d['roots'][r] for r in roots]
def consts(o,out):
    if isinstance(o,dict):
        if 'fn' in o and isinstance(o['fn'],int): out.append(o['fn'])
        for v in o.values(): consts(v,out)
    elif isinstance(o,list):
        for v in o: consts(v,out)
while st:
    i=st.pop()
    if i in seen: continue
    seen.add(i)
    b=I[i].get('body')
    if not b: continue
    out=[]
    for bl in b['blocks']:
        if bl['c']: continue
        consts(bl['s'],out); consts(bl['t'],out)
    for t in b['locals']:
        ty=d['types'][t]
        if ty.get('inst') is not None: out.append(ty['inst'])
    st+= out
for i in sorted(seen,key=lambda i:(I[i].get('body') is not None,I[i]['path'])):
    b=I[i].get('body')
    fl=''
    if b:
        s=json.dumps([bl for bl in b['blocks'] if not bl['c']])
        if '"Offset"' in s: fl+='O'
        if 'Transmute' in s: fl+='T'
        if 'PtrToPtr' in s: fl+='P'
    print('B' if b else '-',fl,I[i]['path'],'|',I[i]['name'][:150] if I[i]['name']!=I[i]['path'] else '')
