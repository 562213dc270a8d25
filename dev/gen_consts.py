#!/usr/bin/env python3
# Computes the constant tables used by the reference models from their mathematical
# definitions, and writes /verif/ref/consts.h.  Nothing here is copied from /repo.
import math, sys
out=[]
def arr(name,ty,vals,fmt,per=4):
    out.append(f"static const {ty} {name}[{len(vals)}] = {{")
    for i in range(0,len(vals),per):
        out.append("  "+", ".join(fmt%v for v in vals[i:i+per])+",")
    out.append("};")
def primes(n):
    p=[];c=2
    while len(p)<n:
        if all(c%q for q in p if q*q<=c): p.append(c)
        c+=1
    return p
def iroot(n,k):
    lo,hi=0,1<<((n.bit_length()//k)+2)
    while lo<hi:
        m=(lo+hi+1)//2
        if m**k<=n: lo=m
        else: hi=m-1
    return lo
P=primes(160)
k512=[iroot(p<<(64*3),3)&(2**64-1) for p in P]
k256=[iroot(p<<(32*3),3)&(2**32-1) for p in P[:128]]
arr("K_SHA512","uint64_t",k512,"0x%016xULL")
arr("K_SHA256","uint32_t",k256,"0x%08xU",8)
sq=lambda p,b: iroot(p<<(2*b),2)&((1<<b)-1)
arr("IV_SHA512","uint64_t",[sq(p,64) for p in P[:8]],"0x%016xULL")
arr("IV_SHA384","uint64_t",[sq(p,64) for p in P[8:16]],"0x%016xULL")
arr("IV_SHA256","uint32_t",[sq(p,32) for p in P[:8]],"0x%08xU")
arr("IV_SHA224","uint32_t",[sq(p,64)&0xffffffff for p in P[8:16]],"0x%08xU")
arr("K_MD5","uint32_t",[int(abs(math.sin(i+1))*2**32)&0xffffffff for i in range(64)],"0x%08xU",8)
# pi hex digits: big-integer Machin
def pi_bits(n):
    n2=n+64; one=1<<n2
    def atan_inv(x):
        s=t=one//x; k=3; sign=-1
        while t:
            t//=x*x; s+=sign*(t//k); sign=-sign; k+=2
        return s
    return (4*(4*atan_inv(5)-atan_inv(239)))>>64
NB=32*(18+1024)
pi=pi_bits(NB)-(3<<NB)
w=[(pi>>(NB-32*(i+1)))&0xffffffff for i in range(18+1024)]
assert w[0]==0x243f6a88
arr("PI32","uint32_t",w,"0x%08xU",8)
# GF(2^8) AES sbox
def xt(a,p=0x11b):
    a<<=1
    return a^p if a&0x100 else a
def gm(a,b,p=0x11b):
    r=0
    while b:
        if b&1: r^=a
        a=xt(a,p); b>>=1
    return r
inv=[0]*256
for a in range(1,256):
    for b in range(1,256):
        if gm(a,b)==1: inv[a]=b;break
def rotl8(x,n): return ((x<<n)|(x>>(8-n)))&255
sb=[inv[a]^rotl8(inv[a],1)^rotl8(inv[a],2)^rotl8(inv[a],3)^rotl8(inv[a],4)^0x63 for a in range(256)]
arr("AES_SBOX","uint8_t",sb,"0x%02x",16)
# Whirlpool sbox from mini-boxes
E=[0x1,0xB,0x9,0xC,0xD,0x6,0xF,0x3,0xE,0x8,0x7,0x4,0xA,0x2,0x5,0x0]
R=[0x7,0xC,0xB,0xD,0xE,0x4,0x9,0xF,0x6,0x3,0x8,0xA,0x2,0x5,0x1,0x0]
Ei=[E.index(i) for i in range(16)]
ws=[]
for x in range(256):
    a=E[x>>4]; b=Ei[x&15]; r=R[a^b]
    ws.append((E[a^r]<<4)|Ei[b^r])
arr("WP_SBOX","uint8_t",ws,"0x%02x",16)
# Keccak round constants by LFSR
def rcbit(t):
    r=1
    for i in range(t%255):
        r<<=1
        if r&0x100: r^=0x171
    return r&1
def krc(n,l):
    o=[]
    for ir in range(n):
        v=0
        for j in range(l+1):
            if rcbit(j+7*ir): v|=1<<((1<<j)-1)
        o.append(v)
    return o
arr("K1600_RC","uint64_t",krc(48,6),"0x%016xULL")
arr("K800_RC","uint32_t",krc(48,5),"0x%08xU",8)
# keccak rotation offsets
off=[0]*25; x,y=1,0
for t in range(24):
    off[x+5*y]=((t+1)*(t+2)//2); x,y=y,(2*x+3*y)%5
arr("KECCAK_ROT","unsigned",off,"%d",5)
open("/verif/ref/consts.h","w").write("/* generated by dev/gen_consts.py */\n#include <stdint.h>\n"+"\n".join(out)+"\n")
