#!/usr/bin/env python3
"""Generates harness/src/named.rs: constants of the named curves.
P-256/384/521 and secp256k1 come from the installed openssl, the 25519/448
families are derived from their RFC 7748 / RFC 8032 definitions, BLS12-381 from
its family polynomial; the two isogenous curves and isogeny coefficients
(RFC 9380 sections 8.7, 8.8.1, E.1, E.2) are transcribed and validated here
(curve orders, homomorphism) before being written."""
import re, subprocess, sys, random
def legendre(a,p): return pow(a,(p-1)//2,p)
def sqrtp(a,p):
    a%=p
    if a==0: return 0
    if legendre(a,p)!=1: return None
    if p%4==3: return pow(a,(p+1)//4,p)
    assert p%8==5
    r=pow(a,(p+3)//8,p)
    if r*r%p!=a: r=r*pow(2,(p-1)//4,p)%p
    assert r*r%p==a
    return r
def ossl(name):
    t=subprocess.run(['openssl','ecparam','-name',name,'-param_enc','explicit','-text','-noout'],capture_output=True,text=True).stdout
    d={}
    key=None
    for line in t.splitlines():
        m=re.match(r'^(\w[\w ()]*):\s*(.*)$',line)
        if m:
            key=m.group(1).split(' (')[0]; d[key]=m.group(2)
        elif key: d[key]+=line.strip()
    def num(s):
        s=s.strip()
        m=re.match(r'^\d+ \(0x([0-9a-f]+)\)$',s)
        if m: return int(m.group(1),16)
        if re.match(r'^\d+$',s): return int(s)
        return int(s.replace(':',''),16)
    g=d['Generator (uncompressed)'] if 'Generator (uncompressed)' in d else d['Generator']
    g=g.replace(':','')
    assert g[:2]=='04'
    n=(len(g)-2)//2
    return dict(p=num(d['Prime']),a=num(d['A']),b=num(d['B']),r=num(d['Order']),h=1,gx=int(g[2:2+n],16),gy=int(g[2+n:],16))
def wadd(P,Q,c):
    p=c['p']
    if P is None: return Q
    if Q is None: return P
    if P[0]==Q[0]:
        if (P[1]+Q[1])%p==0: return None
        l=(3*P[0]**2+c['a'])*pow(2*P[1],-1,p)%p
    else: l=(Q[1]-P[1])*pow(Q[0]-P[0],-1,p)%p
    x=(l*l-P[0]-Q[0])%p
    return (x,(l*(P[0]-x)-P[1])%p)
def wmul(k,P,c):
    Q=None
    for b in bin(k)[2:]:
        Q=wadd(Q,Q,c)
        if b=='1': Q=wadd(Q,P,c)
    return Q
C={}
for n,o in (('P256','prime256v1'),('P384','secp384r1'),('P521','secp521r1'),('secp256k1','secp256k1')): C[n]=('W',ossl(o))
# RFC 9380 8.7 / E.1
ps=C['secp256k1'][1]['p']; rs=C['secp256k1'][1]['r']
C['secp256k1_3iso']=('W',dict(p=ps,a=0x3f8731abdd661adca08a5558f0f5d272e953d363cb6f0e5d405447c01a444533,b=1771,r=rs,h=1))
x=-0xd201000000010000
r=x**4-x**2+1; p=(x-1)**2*r//3+x
C['bls12381_g1']=('W',dict(p=p,a=0,b=4,r=r,h=1-x,
 gx=0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb,
 gy=0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1))
hfull=(x-1)**2//3
C['bls12381_g1_11iso']=('W',dict(p=p,a=0x144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d,
 b=0x12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0,r=r,h=hfull))
# generators of the companions: transcribed from the crate (arbitrary choice), validated below
C['secp256k1_3iso'][1].update(gx=75295888890003590383366995344834012177557063699577440394299653383124903397514,gy=82553647407850972504999846303729620951309077682374043495922869307182479212755)
C['bls12381_g1_11iso'][1].update(gx=0x6a0ead062ba73a09984eb7351a2d851bc817625345ce033a6eb7d78242b6466c877e022dda626a79ddb85bce57997e2,
 gy=0x3b89d8bb9326270e46b6b74e19f7b3f10082fbf1a46df72da50c6571b969afc570d6529350b1b9b05ab4fe5c29920b4)
for n,(k,c) in C.items():
    P=(c['gx'],c['gy'])
    assert (P[1]**2-P[0]**3-c['a']*P[0]-c['b'])%c['p']==0,n
    assert wmul(c['r'],P,c) is None,n
# 25519 family
q=2**255-19; l=2**252+27742317777372353535851937790883648493
C['curve25519']=('M',dict(p=q,a=486662,b=1,s=1,r=l,h=8,gx=9,gy=0x5f51e65e475f794b1fe122d388b72eb36dc2b28192839e4dd6163a5d81312c14))  # V(P) as corrected by RFC 7748 erratum 4730; same sign as c1 of RFC 9380
d=-121665*pow(121666,-1,q)%q
y=4*pow(5,-1,q)%q
xx=sqrtp((y*y-1)*pow(d*y*y+1,-1,q),q)
if xx&1: xx=q-xx
C['edwards25519']=('E',dict(p=q,a=q-1,b=d,r=l,h=8,gx=xx,gy=y))
# 448 family (RFC 7748 4.2)
p4=2**448-2**224-1; l4=2**446-0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d
v=355293926785568175264127502063783334808976399387714271831880898435169088786967410002932673765864550910142774147268105838985595290606362
assert (v*v-(125+156326*25+5))%p4==0
C['curve448']=('M',dict(p=p4,a=156326,b=1,s=3,r=l4,h=4,gx=5,gy=v))
# RFC 8032 base point of edwards448
bx=224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710
by=298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660
assert (by*by*pow(bx*bx,-1,p4)-5)%p4==0 and (bx*bx+by*by-1+39081*bx*bx*by*by)%p4==0
X,Y=bx,by
assert (2-bx*bx-by*by)*by*pow(bx**3,-1,p4)%p4==v, "RFC 7748: base point maps to base point"
C['edwards448']=('E',dict(p=p4,a=1,b=(-39081)%p4,r=l4,h=4,gx=bx,gy=by))
def eadd(P,Q,c):
    p=c['p'];t=c['b']*P[0]*Q[0]*P[1]*Q[1]%p
    return ((P[0]*Q[1]+P[1]*Q[0])*pow(1+t,-1,p)%p,(P[1]*Q[1]-c['a']*P[0]*Q[0])*pow(1-t,-1,p)%p)
def emul(k,P,c):
    Q=(0,1)
    for b in bin(k)[2:]:
        Q=eadd(Q,Q,c)
        if b=='1': Q=eadd(Q,P,c)
    return Q
for n in('edwards25519','edwards448'):
    c=C[n][1]; assert emul(c['r'],(c['gx'],c['gy']),c)==(0,1)
# isogeny coefficients, transcribed; checked to be homomorphisms onto the target
src=open('/repo/src/instances/rational_maps.rs').read()
def coeffs(block):
    out={}
    for nm in('x_num','x_den','y_num','y_den'):
        m=re.search(nm+r': vec!\[(.*?)\]',block,re.S)
        out[nm]=[int(t[1],16) if t[1] else {'one':1,'zero':0}[t[2]] for t in re.findall(r'(f\.from\("0x([0-9a-fA-F]+)"\)|f\.(one|zero)\(\))',m.group(1))]
    return out
i3=coeffs(src[src.index('pub fn get_isogeny_secp256k1'):]); i11=coeffs(src[src.index('pub fn get_isogeny_bls12381g1'):])
def push(co,P,p):
    ev=lambda c:sum(v*pow(P[0],i,p) for i,v in enumerate(c))%p
    return (ev(co['x_num'])*pow(ev(co['x_den']),-1,p)%p, P[1]*ev(co['y_num'])*pow(ev(co['y_den']),-1,p)%p)
rng=random.Random(5)
def rpt(c):
    while 1:
        xx=rng.randrange(c['p']); yy=sqrtp(xx**3+c['a']*xx+c['b'],c['p'])
        if yy is not None: return (xx,yy)
for co,d0,d1 in((i3,'secp256k1_3iso','secp256k1'),(i11,'bls12381_g1_11iso','bls12381_g1')):
    a,b=C[d0][1],C[d1][1]
    for _ in range(8):
        P,Q=rpt(a),rpt(a)
        assert wadd(push(co,P,a['p']),push(co,Q,a['p']),b)==push(co,wadd(P,Q,a),a['p'])
        iP=push(co,P,a['p']); assert (iP[1]**2-iP[0]**3-b['a']*iP[0]-b['b'])%b['p']==0
o=['//! Constants of the named curves. Generated by tools/gen_named.py; do not edit.',
'use crate::refm::{Kind, F, N, RC, RP};','use num_traits::Num;','',
'pub fn hex(s: &str) -> N {','    N::from_str_radix(s, 16).unwrap()','}','',
"pub const NAMES: [&str; %d] = [%s];"%(len(C),', '.join('"%s"'%n for n in C)),'',
"pub fn rc(name: &str) -> RC {",'    let (kind, n, v): (Kind, &\'static str, [&str; 8]) = match name {']
for n,(k,c) in C.items():
    o.append('        "%s" => (Kind::%s, "%s", [%s]),'%(n,k,n,', '.join('"%x"'%c.get(t,0) for t in('p','a','b','s','r','h','gx','gy'))))
o+=['        _ => panic!("unknown curve {name}"),','    };','    let h: Vec<N> = v.iter().map(|s| hex(s)).collect();',
'    RC {','        kind,','        name: n,','        f: F::new(&h[0]),','        a: h[1].clone(),','        b: h[2].clone(),','        s: h[3].clone(),','        r: h[4].clone(),','        h: h[5].clone(),','        g: RP::A(h[6].clone(), h[7].clone()),','    }','}','',
'/// [x_num, x_den, y_num, y_den], constant term first','pub fn iso_coeffs(name: &str) -> [Vec<N>; 4] {','    match name {']
for n,co in(('secp256k1_3iso',i3),('bls12381_g1_11iso',i11)):
    o.append('        "%s" => ['%n)
    for nm in('x_num','x_den','y_num','y_den'):
        o.append('            vec![%s],'%', '.join('hex("%x")'%v for v in co[nm]))
    o.append('        ],')
o+=['        _ => panic!(),','    }','}']
open(sys.argv[1] if len(sys.argv)>1 else '/verif/harness/src/named.rs','w').write('\n'.join(o)+'\n')
print('ok',list(C))
