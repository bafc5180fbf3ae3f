import os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import core, rx, instrument as I
import re, random
random.seed(5)
# differential: model on SymStr with concrete cps vs real
S=lambda t: core.SymStr([ord(c) for c in t])
strs=["","a","'","a'b''c",'a"b',"  x y ","ab\n\tc","A1b2","12","-12","x\\y","aXbXc","\n","é'ß","aa","abab"]
pats=[r"'",r"\s+",r"[a-z]+",r"(a)(b)?",r"a|b",r"^\s*(.*?)\s*$",r"\b",r"x*",r"(?P<n>\d)+",r"(?i)A",r"[^'\"]",r"\n",r"(?<=a)b",r"(?!a).",r"(a+)\1",r"$",r".",r"(?s).",r"^",r"\W",r"(?m)^."]
n=0
for p in pats:
    for t in strs:
        for name in ("match","fullmatch","search"):
            a=getattr(re,name)(p,t); b=I.sx_call(getattr(re,name),p,S(t))
            ka=None if a is None else (a.span(),a.groups(),a.groupdict(),a.lastindex); kb=None if b is None else (b.span(),b.groups(),b.groupdict(),b.lastindex)
            assert ka==kb,(p,t,name,ka,kb)
        assert re.findall(p,t)==I.sx_call(re.findall,p,S(t)),(p,t)
        assert re.sub(p,r"<\g<0>>",t)==I.sx_call(re.sub,p,r"<\g<0>>",S(t)),(p,t)
        assert re.sub(p,lambda m:m[0]*2,t,count=1)==I.sx_call(re.sub,p,lambda m:m[0]*2,S(t),count=1),(p,t)
        assert re.split(p,t)==I.sx_call(re.split,p,S(t)),(p,t,re.split(p,t),I.sx_call(re.split,p,S(t)))
        assert re.compile(p).subn("-",t)==I.sx_call(re.compile(p).subn,"-",S(t))
        n+=8
for t in strs:
    s=S(t)
    for m,args in [("zfill",(5,)),("center",(7,"*")),("center",(6,)),("rsplit",("X",1)),("rsplit",(None,1)),("rsplit",(" ",1)),("isupper",()),("islower",()),("swapcase",()),("title",()),("capitalize",()),("casefold",()),("rpartition",("X",))]:
        assert getattr(t,m)(*args)==getattr(s,m)(*args),(t,m,getattr(t,m)(*args),getattr(s,m)(*args))
    assert repr(t)==core.sym_repr(s),(t,)
    for spec in (">5","<5","^5","*^7",".2","5.1",""):
        assert format(t,spec)==I.sx_call("{:{}}".format,s,spec) ,(t,spec)
    for f in ("%s","%5s","%-5s|","%.2s","%r","%%%s"):
        assert f%t==core.sx_mod(f,s),(f,t,core.sx_mod(f,s))
    assert "%(a)s-%(b)d"%{"a":t,"b":3}==core.sx_mod("%(a)s-%(b)d",{"a":s,"b":3})
    assert "{a}{b}".format_map({"a":t,"b":1})==I.sx_call("{a}{b}".format_map,{"a":s,"b":1})
    io=I.sx_call(__import__("io").StringIO); print(s,end="!",file=io); assert io.getvalue()==t+"!"
import operator,functools
assert I.sx_call(operator.methodcaller("replace","a","b"),S("aa"))=="bb"
assert I.sx_call(operator.methodcaller("split",sep="a"),S("xay"))==["x","y"]
assert I.sx_call(operator.itemgetter(1),S("xy"))=="y"
assert I.sx_call(functools.partial("{}-{}".format,S("q")),"z")=="q-z"
assert I.sx_call(functools.reduce,operator.add,[S("q"),"z"])=="qz"
# numbers: operators of int and Decimal
import z3, math
from decimal import Decimal
from sx import numeric
for v in (-9223372036854775808,-2147483649,-2147483648,-17,-1,0,1,5,255,2147483647,2147483648):
    x=core.SymInt(z3.IntVal(v),v)
    def same(a,b):
        assert int.__int__(a)==b and (type(a) is not core.SymInt or z3.simplify(a.z).as_long()==b),(v,a,b)
    same(~x,~v); same(x>>31,v>>31); same(x<<2,v<<2); same(x&0xff,v&0xff); same(x&~0xff,v&~0xff); same(x//3,v//3); same(x%7,v%7); same(abs(x),abs(v)); same(math.floor(x),v); same(round(x),v)
    for f in (lambda y:y|6,lambda y:y^6,lambda y:6&y,lambda y:y&5):
        assert f(x)==f(v),(v,)
    assert x.bit_length()==v.bit_length()
for text in ("0","0.00","-0.50","120","1.2300","-7","1E+3","0.001"):
    d=Decimal(text); s,ds,e=d.as_tuple()
    x=numeric.SymDecimal(bool(s),[core.Ch(z3.IntVal(48+c),48+c) if i==0 else 48+c for i,c in enumerate(ds)],e)
    for f in (lambda y:y.normalize(),lambda y:y.quantize(Decimal("0.0001")),lambda y:y+1,lambda y:1-y,lambda y:y*3,lambda y:y.scaleb(2),lambda y:y.to_integral_value(),lambda y:y.copy_sign(Decimal(-1)),lambda y:y.max(Decimal(1)),lambda y:int(y),lambda y:math.floor(y),lambda y:y.to_eng_string(),lambda y:y.as_integer_ratio()):
        assert str(f(x))==str(f(d)),(text,str(f(x)),str(f(d)))
    assert core.sym_repr(x)==repr(d)
print("ok",n)
