#!/usr/bin/env python3
# Derives e(P1,P2) for SM9 from the curve definition with textbook arithmetic in
# Fp[w]/(w^12+2), and checks it against the GM/T 0044 signature example.
# Prints the constant used by ref/sm9.h.
import hashlib, subprocess, sys
p=0xB640000002A3A6F1D603AB4FF58EC74521F2934B1A7AEEDBE56F9B27E351457D
n=0xB640000002A3A6F1D603AB4FF58EC74449F2934B18EA8BEEE56EE19CD69ECF25
t=0x600000000058F98A
P1=(0x93DE051D62BF718FF5ED0704487D01D6E1E4086909DC3280E8C4E4817C66DDDD,0x21FE8DDA4F21E607631065125C395BBC1C1C00CBFA6024350C464CD70A3EA616)
P2x=(0x3722755292130B08D2AAB97FD34EC120EE265948D19C17ABF9B7213BAF82D65B,0x85AEF3D078640C98597B6027B441A01FF1DD2C190F5E93C454806C11D8806141)
P2y=(0xA7CF28D519BE3DA65F3170153D278FF247EFBA98A71A08116215BBA5C999A7C7,0x17509B092E845C1266BA0D262CBEE6ED0736A96FA347C8BD856DC76B84EBEB96)
Z=[0]*12
def mul(a,b):
    r=[0]*23
    for i,x in enumerate(a):
        if x:
            for j,y in enumerate(b):
                if y: r[i+j]+=x*y
    return [(r[i]-2*r[i+12] if i<11 else r[i])%p for i in range(12)]
def add(a,b): return [(x+y)%p for x,y in zip(a,b)]
def sub(a,b): return [(x-y)%p for x,y in zip(a,b)]
def sc(a,k): return [x*k%p for x in a]
def one(): return [1]+[0]*11
def power(a,e):
    r=one()
    for bit in bin(e)[2:]:
        r=mul(r,r)
        if bit=='1': r=mul(r,a)
    return r
def inv(a): # extended Euclid over Fp[w]
    def deg(f):
        for i in range(len(f)-1,-1,-1):
            if f[i]: return i
        return -1
    r0=[2]+[0]*11+[1]; r1=list(a)+[0]; s0=[0]*13; s1=[1]+[0]*12
    while deg(r1)>0:
        q=[0]*13; r=list(r0); d1=deg(r1); li=pow(r1[d1],-1,p)
        s=list(s0)
        while deg(r)>=d1:
            d=deg(r)-d1; c=r[deg(r)]*li%p
            for i in range(d1+1): r[i+d]=(r[i+d]-c*r1[i])%p
            for i in range(13-d): s[i+d]=(s[i+d]-c*s1[i])%p
        r0,r1,s0,s1=r1,r,s1,s
    li=pow(r1[0],-1,p)
    return [x*li%p for x in s1[:12]]
def frob(a,k=1):
    # w^(p^k)
    out=Z
    e=pow(p,k)
    # w^p = w * w^(p-1); (p-1) mod 12 == 0 -> (w^12)^((p-1)/12) = (-2)^((p-1)/12)
    c=pow(-2%p,(p-1)//12,p)
    r=list(a)
    for _ in range(k): r=[x*pow(c,i,p)%p for i,x in enumerate(r)]
    return r
w=[0,1]+[0]*10
def fp2(x): # x0 + x1 u, u = w^6
    r=[0]*12; r[0]=x[0]; r[6]=x[1]; return r
iw2=inv(mul(w,w)); iw3=inv(mul(mul(w,w),w))
Q=(mul(fp2(P2x),iw2),mul(fp2(P2y),iw3))
P=([P1[0]]+[0]*11,[P1[1]]+[0]*11)
five=[5]+[0]*11
assert mul(Q[1],Q[1])==add(mul(mul(Q[0],Q[0]),Q[0]),five)
def line(T,U,P):
    if T==U: lam=mul(sc(mul(T[0],T[0]),3),inv(sc(T[1],2)))
    else: lam=mul(sub(U[1],T[1]),inv(sub(U[0],T[0])))
    x3=sub(sub(mul(lam,lam),T[0]),U[0]); y3=sub(mul(lam,sub(T[0],x3)),T[1])
    l=sub(mul(lam,sub(P[0],T[0])),sub(P[1],T[1]))
    return l,(x3,y3)
a=6*t+2; f=one(); T=Q
for bit in bin(a)[3:]:
    l,T=line(T,T,P); f=mul(mul(f,f),l)
    if bit=='1':
        l,T=line(T,Q,P); f=mul(f,l)
Q1=(frob(Q[0]),frob(Q[1])); Q2=(frob(Q[0],2),sub(Z,frob(Q[1],2)))
l,T=line(T,Q1,P); f=mul(f,l)
l,T=line(T,Q2,P); f=mul(f,l)
g=power(f,(p**12-1)//n)
assert power(g,n)==one()
order=[2,1,0]
def ser(a):
    o=b''
    for i in (2,1,0):
        for j in (1,0):
            for k in (1,0): o+=a[i+3*j+6*k].to_bytes(32,'big')
    return o
ks=0x000130E78459D78545CB54C587E02CF480CE0B66340F319F348A1D5B1F2DC5F4
r=0x00033C8616B06704813203DFD00965022ED15975C662337AED648835DC4B1CBE
wv=ser(power(g,ks*r%n))
def sm3(b):
    return bytes.fromhex(subprocess.run(['openssl','dgst','-sm3','-r'],input=b,capture_output=True).stdout.decode().split()[0])
z=b'\x02'+b'Chinese IBS standard'+wv
ha=(sm3(z+b'\0\0\0\1')+sm3(z+b'\0\0\0\2'))[:40]
h=int.from_bytes(ha,'big')%(n-1)+1
assert hex(h)=='0x823c4b21e4bd2dfe1ed92c606653e9966685631 52fc33f55d7bfbb9bd9705adb'.replace(' ',''),hex(h)
for i,x in enumerate(g): print('"%064x" // w^%d'%(x,i))
