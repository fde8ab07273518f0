#!/usr/bin/env python3
"""Generates harness/toys.json: small curves of prime order used in place of the standard ones.

secp family: y^2 = x^3 - 3x + b; bn family: y^2 = x^3 + 2 with generator (-1, 1). p = 3 mod 4 in both, as the library
assumes. 'cof' curves: y^2 = x^3 - 3x over a large p with p + 1 = 4*r*k, generator of small prime order r, so that
integer messages of realistic size fit while scalars stay small."""
import json, random, sys
def isprime(n):
    if n < 2: return False
    for q in (2,3,5,7,11,13,17,19,23,29,31,37):
        if n % q == 0: return n == q
    d, s = n-1, 0
    while d % 2 == 0: d//=2; s+=1
    for a in (2,3,5,7,11,13,17,19,23,29,31,37):
        x = pow(a,d,n)
        if x in (1,n-1): continue
        for _ in range(s-1):
            x = x*x % n
            if x == n-1: break
        else: return False
    return True
def order(p,a,b):
    """naive point count with a table of squares"""
    cnt = bytearray(p)
    for y in range(p): cnt[y*y%p] += 1
    return 1 + sum(cnt[(x*x*x+a*x+b)%p] for x in range(p))
def first_point(p,a,b):
    for x in range(p):
        y2 = (x*x*x+a*x+b)%p
        y = pow(y2,(p+1)//4,p)
        if y*y%p == y2: return x,y
def add(P,Q,p,a):
    if P is None: return Q
    if Q is None: return P
    if P[0]==Q[0]:
        if (P[1]+Q[1])%p==0: return None
        l=(3*P[0]*P[0]+a)*pow(2*P[1],-1,p)%p
    else: l=(Q[1]-P[1])*pow(Q[0]-P[0],-1,p)%p
    x=(l*l-P[0]-Q[0])%p
    return x,(l*(P[0]-x)-P[1])%p
def mul(k,P,p,a):
    R=None
    while k:
        if k&1: R=add(R,P,p,a)
        P=add(P,P,p,a); k>>=1
    return R
out={"secp":{}, "bn":{}}
# secp family: for each small p every b with prime order; keep one with n<p and one with n>p
small={}
for p in range(7,260):
    if p%4!=3 or not isprime(p): continue
    for b in range(1,p):
        a=p-3
        if (4*a**3+27*b*b)%p==0: continue
        n=order(p,a,b)
        if not isprime(n) or n==p: continue
        small.setdefault((p,n),b)
for (p,n),b in sorted(small.items()):
    x,y=first_point(p,p-3,b)
    out["secp"]["s%d_%d"%(p,n)]="%d:%d:%d:%d:%d:%d"%(p,p-3,b,x,y,n)
def mid(lo, want_above):
    p=lo
    while True:
        p+=1
        if p%4!=3 or not isprime(p): continue
        for b in range(1,12):
            n=order(p,p-3,b)
            if isprime(n) and n!=p and (n>p)==want_above:
                x,y=first_point(p,p-3,b)
                return "s%d_%d"%(p,n),"%d:%d:%d:%d:%d:%d"%(p,p-3,b,x,y,n)
for lo,ab in ((500,True),(1000,False),(4000,True),(16000,False),(66000,True),(140000,False),(1050000,True)):
    k,v=mid(lo,ab); out["secp"][k]=v
for p in list(range(7,400))+list(range(1000,1400))+list(range(4000,5200))+list(range(66000,68000)):
    if p%4!=3 or not isprime(p): continue
    n=order(p,0,2)
    if isprime(n) and n!=p:
        out["bn"]["b%d_%d"%(p,n)]="%d:%d:%d:%d:%d:%d"%(p,0,2,p-1,1,n)
# cofactor curves
rnd=random.Random(7)
r40=2**40+1
while not isprime(r40): r40+=2
for bits,r in ((192,251),(192,8191),(192,65521),(192,1048573),(224,65521),(192,r40),(200,r40),(192,7),(192,5)):
    while True:
        k=rnd.getrandbits(bits-2-r.bit_length())|(1<<(bits-3-r.bit_length()))
        p=4*r*k-1
        if p%4==3 and isprime(p): break
    a=p-3
    x=1
    while True:
        x+=1
        y2=(x*x*x+a*x)%p
        y=pow(y2,(p+1)//4,p)
        if y*y%p!=y2: continue
        G=mul((p+1)//r,(x,y),p,a)
        if G is None: continue
        assert mul(r,G,p,a) is None
        break
    out["secp"]["cof%d_%d"%(bits,r)]="%d:%d:%d:%d:%d:%d"%(p,a,0,G[0],G[1],r)
json.dump(out,open(sys.argv[1],"w"),indent=0,sort_keys=True)
print({k:len(v) for k,v in out.items()}); print(list(out["secp"]),list(out["bn"]))
