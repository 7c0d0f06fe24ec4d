import collections
import contextlib
import copy
import functools
import hmac
import itertools
import json
import operator
import re
import secrets
import string
from dataclasses import dataclass
from types import SimpleNamespace
from typing import NamedTuple
from urllib.parse import parse_qs, parse_qsl, quote, unquote, urlencode, urljoin, urlparse, urlsplit, urlunsplit, urlunparse
from symx.api import harness

def mk(name, fn):
    def h(env):
        a = env.str("a", "token", min=1)
        b = env.str("b", "print", min=1)
        n = env.int("n", 0, 100)
        fn(env, a, b, n)
        env.reach("x")
    h.__name__ = name
    h.__module__ = __name__
    harness("ZZ", witness=("x",))(h)

def t(fn):
    mk(fn.__name__, fn)
    return fn

@t
def chain(env,a,b,n):
    l=list(itertools.chain([a],[b]))
    env.check(env.eq(l[0],a),"")
    l=list(itertools.chain.from_iterable([[a],[b]]))
    env.check(env.eq(l[1],b),"")
@t
def reduce_(env,a,b,n):
    env.check(env.eq(functools.reduce(lambda x,y:x+y,[a,b]),a+b),"")
@t
def oper(env,a,b,n):
    env.check(operator.eq(a,a),"")
    env.check(env.eq(operator.itemgetter("k")({"k":a}),a),"")
    env.check(env.eq(operator.attrgetter("x")(SimpleNamespace(x=a)),a),"")
@t
def cmpdig(env,a,b,n):
    env.check(hmac.compare_digest(a,a),"")
    env.check(hmac.compare_digest(a.encode(),a.encode()),"")
    env.check(secrets.compare_digest(a,a),"")
    if hmac.compare_digest(a,"abc"): env.check(a=="abc","")
@t
def suppress(env,a,b,n):
    d={"k":a}
    with contextlib.suppress(KeyError):
        del d[b]
    env.check(len(d)<=1,"")
@t
def nextgen(env,a,b,n):
    x=next((v for v in (a,b) if v=="zz"),None)
    env.check(x is None or x=="zz","")
@t
def defdict(env,a,b,n):
    d=collections.defaultdict(list)
    d[a].append(1)
    d[b].append(2)
    env.check(1 in d[a],"")
    o=collections.OrderedDict()
    o[a]=1
    env.check(o[a]==1,"")
    o.update({b:2})
    env.check(o[b]==2,"")
    c=collections.ChainMap({a:1},{b:2})
    env.check(a in c,"")
    env.check(c[a]==1,"")
@t
def dictzip(env,a,b,n):
    d=dict(zip(("x","y"),(a,b)))
    env.check(env.eq(d["x"],a),"")
    d=dict.fromkeys([a,b],1)
    env.check(d[b]==1,"")
    d={**{a:1},**{b:2}}
    env.check(d[b]==2,"")
    d={a:1}|{b:2}
    env.check(d[b]==2,"")
    d=dict(x=a)
    d|={"y":b}
    env.check(env.eq(d["y"],b),"")
@t
def dc(env,a,b,n):
    @dataclass
    class P:
        x:str
        y:int=0
    p=P(a,n); env.check(env.eq(p.x,a),"")
    env.check(P(a,n)==P(a,n),"")
    class Q(NamedTuple):
        x:str
        y:int
    q=Q(a,n); env.check(env.eq(q.x,a),"")
    N=collections.namedtuple("N","u v"); m=N(a,b)
    env.check(env.eq(m.v,b),"")
    x,y=m
    env.check(env.eq(m._asdict()["u"],a),"")
@t
def strs(env,a,b,n):
    env.check("x%s" % a=="x"+a,"")
    env.check("{0}-{k}".format(a,k=a)==a+"-"+a,"")
    env.check(f"{a!s}"==a,"")
    env.check("".join([a,"x"])==a+"x","")
    env.check("".join(c for c in ("x",a))=="x"+a,"")
    env.check((a+"/x").partition("/")[0]==a,"")
    env.check((a+"/x").rsplit("/",1)[0]==a,"")
    env.check((a+" x").split()[0]==a,"")
    env.check((a+"x")[:-1]==a,"")
    env.check(("x"+a)[1:]==a,"")
    env.check(("x"+a).removeprefix("x")==a,"")
    env.check(str.startswith("x"+a,"x"),"")
    env.check(("x"+a).startswith(("y","x")),"")
    env.check(a.strip()==a,"")
    env.check(bool(a),"")
    env.check(str(a)==a,"")
    env.check("{}".format(n)==str(n),"")
    env.check("%d" % n==str(n),"")
    env.check(f"{n}"==str(n),"")
    env.check(a*1==a,"")
    env.check(str.join("-",[a,b])==a+"-"+b,"")
@t
def anyall(env,a,b,n):
    env.check(any(x==a for x in [a,b]),"")
    env.check(all(map(lambda x:x in (a,b),[a,b])),"")
    env.check(a in {a,b},"")
    env.check({a}<= {a,b},"")
    env.check(len({a,b})>=1,"")
    env.check({a}.issubset([a,b]),"")
    env.check({a,b}.isdisjoint({"~~~~"}) or b=="~~~~" ,"")
    env.check({a,b}-{a}<={b},"")
    env.check(list(filter(None,[a,""]))==[a],"")
    env.check([x for x in (a,b)].index(a)==0,"")
    env.check([a,b].count(a)>=1,"")
    env.check(min([n,200])==n,"")
    env.check(max(n,0)>=0,"")
    env.check(sorted([n,200],reverse=True)[0]==200,"")
    env.check(sum([n,1])==n+1,"")
    env.check((a,b)==(a,b),"")
    env.check([a]==[a],"")
    env.check({"x":a}=={"x":a},"")
    env.check(tuple([a])[0] is not None,"")
    l=[b]; l.insert(0,a); l.extend([a]); l.remove(b) if b in l else None
    env.check(l[0]==a,"")
    first,*rest=[a,b]
    env.check(first==a,"")
    env.check(list(reversed([a,b]))[1]==a,"")
    env.check([i for i,x in enumerate([a,b]) if x==a][0]==0,"")
    env.check(dict(sorted({"x":a}.items()))["x"]==a,"")
@t
def mtch(env,a,b,n):
    match a:
        case "code": r=1
        case "token"|"id": r=2
        case _: r=3
    env.check((r==1)==(a=="code"),"")
    match {"k":a}:
        case {"k":v}: env.check(v==a,"")
    match n:
        case 0: env.check(n==0,"")
        case x if x>5: env.check(n>5,"")
@t
def urls(env,a,b,n):
    u=urlparse("https://x.org/"+a+"?q=1")
    env.check(u.netloc=="x.org","")
    env.check(u.path=="/"+a,"")
    env.check(u._replace(query="").geturl()=="https://x.org/"+a,"")
    env.check(urlunsplit(("https","x.org","/"+a,"",""))=="https://x.org/"+a,"")
    env.check(dict(parse_qsl(urlencode({"v":b})))["v"]==b,"")
    env.check(parse_qs(urlencode({"v":[a,b]},doseq=True))["v"]==[a,b],"")
    env.check(unquote(quote(b,safe=""))==b,"")
    env.check(urljoin("https://x.org/","p/"+a)=="https://x.org/p/"+a,"")
@t
def js(env,a,b,n):
    env.check(json.loads(json.dumps({"a":b},sort_keys=True,indent=1))["a"]==b,"")
    env.check(copy.deepcopy({"a":b})["a"]==b,"")
    env.check(copy.copy([b])[0]==b,"")
@t
def rx(env,a,b,n):
    m=re.match(r"^x-(.*)$","x-"+a)
    env.check(m and m.group(1)==a,"")
    env.check(re.fullmatch(r"[A-Za-z0-9_-]+",a) is not None,"")
    env.check(re.sub(r"^x","","x"+a)==a,"")
    env.check(re.split("/",a+"/y")[0]==a,"")
@t
def byt(env,a,b,n):
    env.check(a.encode("ascii").decode()==a,"")
    env.check(bytes(a,"utf-8")==a.encode(),"")
    env.check(b"".join([a.encode(),b"x"])==a.encode()+b"x","")
    env.check(str(a.encode(),"utf-8")==a,"")
@t
def lru(env,a,b,n):
    @functools.lru_cache(maxsize=None)
    def f(x): return x+"1"
    env.check(f(a)==a+"1","")
    @functools.wraps(f)
    def g(*aa,**kw): return f(*aa,**kw)
    env.check(g(a)==a+"1","")
    p=functools.partial(lambda x,y:x+y,a)
    env.check(p(b)==a+b,"")
    @contextlib.contextmanager
    def cm():
        yield a
    with cm() as z: env.check(z==a,"")
    env.check(getattr(SimpleNamespace(q=a),"q")==a,"")
    o=SimpleNamespace(); setattr(o,"q",a); env.check(vars(o)["q"]==a,"")
@t
def ints(env,a,b,n):
    env.check(int(str(n))==n,"")
    env.check(n//1==n,"")
    env.check(abs(n)==n,"")
    env.check(divmod(n,10)[0]==n//10,"")
    env.check(0<=n<=100,"")
    env.check(bool(n) or n==0,"")
    env.check(isinstance(n,int),"")
    env.check(round(n)==n,"")
    env.check(float(n)>=0,"")
    env.check(-n<=0,"")
    env.check(n in range(0,101),"")

@t
def mapget(env,a,b,n):
    env.assume(env.not_(env.eq(a,"q"))); env.assume(env.not_(env.eq(b,"q")))
    d={a:1,"q":2}
    env.check(list(map(d.get,[a,"q"]))==[1,2],"")
    env.check(list(filter(d.__contains__,[a,"nono~"]))==[a],"")
    env.check(sorted([a,"q"],key=d.get)[0]==a or a=="q","")
    env.check(operator.contains(d,a),"")
    env.check(operator.getitem(d,a)==(2 if a=="q" else 1),"")
    env.check(set(map(str,[a]))=={a},"")
    env.check(set([a,b])==set([b,a]),"")
    env.check(dict([(a,1)])[a]==1,"")
    s=set(); s.add(a); s|={b}; env.check(b in s,"")
    env.check(frozenset([a])==frozenset([a]),"")
    env.check(dict(filter(lambda kv:kv[1]==1,d.items()))!={},"") if a!="q" else None
    env.check(len([k for k,v in d.items() if v==1])<=1,"")
    k,v=next(iter(d.items()))
    env.check(k==a,"")
    env.check(d.pop(a) in (1,2),"")
    env.check(d.setdefault(b,7) in (2,7),"")
    z=[*[a],*(b,)]
    env.check(z[1]==b,"")
    env.check(" ".join(sorted({"code","token"}))=="code token","")
    x=[a,b]; x.sort(); env.check(a in x,"")
    it=iter([a,b]); env.check(next(it)==a,"")
    env.check(zip([a],[b]).__next__()==(a,b),"")
    env.check(collections.Counter([a,a])[a]==2,"")
    w=a
    w+="x"
    env.check(w==a+"x","")
    del d[b]
    env.check(b not in d,"")
    try:
        d[a+"~"]
    except KeyError as e:
        env.check(e.args[0]==a+"~","")
    while (c:=len(z))>1: z.pop()
    env.check(z==[a],"")
    for q in (a,):
        if q=="zzz": break
    else:
        env.check(a!="zzz","")
    env.check((lambda *x,**k: k["a"])(a=a)==a,"")
    env.check(type(a) is str,"")
    env.check(isinstance(a,(str,bytes)),"")
    env.check(a is not None and a!="" and len(a)>0,"")
    env.check(hash(a)==hash(a),"")
    env.check(a.lower()==a.lower(),"")
    env.check(repr(a)=="'"+a+"'","")
    env.check((a or "x")==a,"")
    env.check(a>="","")
@t
def set_of_chars(env,a,b,n):
    r = {'?','#'}.intersection(b)
    env.check(env.eq(('?' in b) or ('#' in b), bool(r)),"")
    env.check(env.eq({'?','#'}.isdisjoint(b), not r),"")
@t
def quantified(env,a,b,n):
    env.check(all(ch in string.ascii_letters+string.digits+"-_" for ch in a),"")
    x = any(ch in "?#" for ch in b)
    env.check(env.eq(x, env.or_("?" in b, "#" in b)),"")
    env.check(not any(ch == "%" for ch in a if ch != "a"),"")
    env.check(all([ch.isdigit() or ch for ch in "abc"]),"")
@t
def augmented(env,a,b,n):
    s = {"x"}
    s |= {a}
    env.check(a in s,"")
    d = {"x": 1}
    d |= {a: 2}
    env.check(d[a] == 2,"")
    o = SimpleNamespace(s={a, "q"})
    o.s -= {a}
    env.check(a not in o.s,"")
    r = 0
    r |= n ^ n
    env.check(r == 0,"")
    r |= n ^ (n + 1)
    env.check(r != 0,"")
@t
def rsplits(env,a,b,n):
    v = env.str("v", "print", min=1)
    x = v + "::" + a + "::" + a
    env.check(x.rsplit("::", 2) == [v, a, a],"")
    env.check(x.rpartition("::")[0] == v + "::" + a, "")
    h, s, t = v.rpartition("::")
    env.check(env.eq(h + s + t, v), "")
    env.check("::" not in t, "")
    env.check(env.or_(s != "", env.and_(h == "", not v.startswith("::"))), "")
    h, s, t = v.rpartition("/")
    env.check(env.and_(env.eq(h + s + t, v), "/" not in t), "")
    env.check(env.implies("/" in v, s == "/"), "")
