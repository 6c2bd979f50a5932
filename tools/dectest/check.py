import sys
U=10**28; M=2**96; LIM=7*U*U
def V(t):
    if t=='N': return None
    m,s=map(int,t.split(',')); return m*10**(28-s),m,s
def close(x,q): return -11-abs(q)//1000 <= x-q <= 11+abs(q)//1000
bad={}
def B(k,l):
    bad.setdefault(k,[]).append(l)
def fl(a,b): # verus euclid
    q=a//b if b>0 else -(a//(-b)); return q
def addok(a,b,x): return close(x,a+b) and (abs(a+b)>7*U or x==a+b) and ((a+b)//U)*U<=x<=-((-(a+b))//U)*U
n=0
for l in sys.stdin:
    t=l.split(); n+=1
    a,b,ad,su,mu,di,re,ro,fr,flo,ce,tr=[V(x) for x in t[:12]]; av,bv=a[0],b[0]
    if ad: 
        if not addok(av,bv,ad[0]): B('add',l)
    elif abs(av+bv)<=LIM: B('addN',l)
    sx=0<=bv<=av and b[2]<=a[2]
    if su:
        if not addok(av,-bv,su[0]): B('sub',l)
        if sx and not(su[0]==av-bv and (su[0]==0 or su[2]==a[2])): B('subx',l)
    elif abs(av-bv)<=LIM or 0<=bv<=av: B('subN',l)
    q=(av*bv)//U; fits=abs(a[1]*b[1])<M and a[2]+b[2]<=28
    if mu:
        if not close(mu[0],q): B('mul',l)
        if (av*bv>=0 and mu[0]<0) or (av*bv<=0 and mu[0]>0): B('mulsign',l)
        if (fits or a[1]*b[1]==0) and not (mu[1]==a[1]*b[1] and (mu[1]==0 or mu[2]==a[2]+b[2])): B('mulx',l)
        if a[2]==0 and b[2]==0 and abs(a[1]*b[1])>=M: B('mulov',l)
    elif abs(q)<=LIM or fits: B('mulN',l)
    if bv!=0:
        q=fl(av*U,bv)
        if di:
            if not close(di[0],q): B('div',l)
            if av>=0 and bv>0 and di[0]<0: B('divs',l)
            if abs(av)<=abs(bv) and abs(di[0])>U: B('div1',l)
        elif abs(q)<=LIM: B('divN',l)
        if re is None:
            if abs(bv)>=U: B('remN',l)
        elif abs(re[0])>abs(bv): B('rem',l)
    else:
        if di or re: B('z',l)
    if ro[0]%U or abs(ro[0]-av)>U//2: B('round',l)
    if (fr[0]==0)!=(av%U==0): B('fract',l)
    if flo[0]%U or flo[0]>av: B('floor',l)
    if ce[0]%U or ce[0]<av: B('ceil',l)
    if tr[0]%U or abs(tr[0])>abs(av): B('trunc',l)
    if av%U==0:
        i=t[12]; inr=-2**63*U<=av<=(2**63-1)*U
        if (i=='N')==inr or (i!='N' and int(i)*U!=av): B('toi64',l)
    s=V(t[13])
    if s and s[0]<0: B('fromf',l)
print(n,{k:(len(v),v[0]) for k,v in bad.items()})
