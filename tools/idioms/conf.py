#!/usr/bin/env python3
"""Conformance of the meanings given to library functions and of the loop rule: the functions of x.rs (standard-library idioms)
and z.rs (loops over sequences of any length) are run natively and by the interpreter on random arguments, once on plain values
("conc") and once symbolically with the arguments assumed equal to those values ("sym"). The native result must be the interpreter's
(conc), and be possible on some path (sym: the solver must not exclude it).

    tools/idioms/build.sh; python3-vt tools/idioms/conf.py [SEED] [PATTERN] [-v]"""
import sys, time, re, random, subprocess, json, os, shutil
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ME = os.path.dirname(os.path.abspath(__file__))
B = HERE + "/.build"
sys.path.insert(0, HERE + "/engine"); sys.setrecursionlimit(20000)
from mir import Mir
from run import *
import run, verify, world, specs_bn, specs_hs, smt
from verify import *
from path import *
from interp import *
from seqs import subst
import term as tm
m = Mir(B + "/idioms.json")
W = World(m, {}); W.ok=dict(specs_bn.CONTRACTS); W.ok.update(specs_hs.CONTRACTS)
rnd=random.Random(int(sys.argv[1]) if len(sys.argv)>1 else 1)
N=6
ints=[0,1,2,3,4,5,7,8,9,10,11,48,57,58,65,96,97,99,100,255,256,999,1000,1001,10**6]
strs=["","a","ab","b","A","0","12","007","abc","abcabc","  x ","x y","a,b","a,b,c","é","aé","UPPER","lower","Mixed","123a","-5","+5","18446744073709551616","a-b","xyz_","zzzzzzzzzzzzzzzzzzzzzzzz", "/", "a/b"]
def ri(w):
    r=rnd.random()
    if r<.7: x=rnd.choice(ints)
    elif r<.9: x=rnd.getrandbits(rnd.randint(1,w))
    else: x=(1<<w)-1-rnd.choice([0,1,2])
    return min(x,(1<<w)-1)
def tn(t):
    t=m.types[t]; return t
def gen(tid):
    t=m.types[tid]
    if t.k=="uint": return ri(t.d["w"])
    if t.k=="int": return rnd.choice([0,1,-1,5,-7,100])
    if t.k=="bool": return rnd.random()<.5
    if t.k=="array": return [gen(t.d["t"]) for _ in range(t.d["n"])]
    if t.k=="adt":
        n=t.d["name"]
        if n.endswith("String"): return rnd.choice(strs)
        if n.endswith("::Vec"): return ("vec",[gen(t.d["args"][0]) for _ in range(rnd.choice([0,1,2,2,3,4]))])
        if n.endswith("cosmwasm_std::Coin"): return ("coin",rnd.choice(["a","b","x","x"]),rnd.choice([0,1,2,5]))
        if n=="haloswap::asset::AssetInfo" : return ("ai",rnd.random()<.5,rnd.choice(["a","b","x"]))
        if n.endswith("SwapOperation"): return ("op",gen(t.d["vs"][0]["f"][0][1]),gen(t.d["vs"][0]["f"][1][1]))
        if n.endswith("Option"): return None if rnd.random()<.3 else ("some",gen(t.d["vs"][1]["f"][0][1]))
        if n=="cosmwasm_std::Uint128": return ("U",ri(128))
        if n=="cosmwasm_std::Decimal": return ("D",rnd.choice([ri(128),rnd.choice(ints)*10**16,rnd.choice(ints)*10**18]))
        if n=="bignumber::Uint256": return ("B",ri(256) if rnd.random()<.5 else ri(64))
    if t.k=="tuple": return ("tup",[gen(x) for x in t.d["ts"]])
    raise KeyError(str(t.d)[:100])
def parts(v,tid):
    """a structured value as (constructor index, [(value, type)])"""
    t=m.types[tid]
    if v[0]=="coin": fs=t.d["vs"][0]["f"]; return 0,[(v[1],fs[0][1]),(("U",v[2]),fs[1][1])]
    if v[0]=="tup": return 0,list(zip(v[1],t.d["ts"]))
    if v[0]=="op": fs=t.d["vs"][0]["f"]; return 0,[(v[1],fs[0][1]),(v[2],fs[1][1])]
    if v[0]=="ai":
        i=[k for k,x in enumerate(t.d["vs"]) if (x["n"]=="Token")==v[1]][0]
        return i,[(v[2],t.d["vs"][i]["f"][0][1])]
STRUCT=("coin","tup","op","ai")
def rust(v,tid):
    t=m.types[tid]
    if t.k=="bool": return str(v).lower()
    if isinstance(v,list): return "["+",".join(rust(x,t.d["t"]) for x in v)+"]"
    if v is None: return "None"
    if isinstance(v,str): return json.dumps(v,ensure_ascii=False)+".to_string()"
    if isinstance(v,tuple):
        if v[0]=="some": return "Some(%s)"%rust(v[1],t.d["vs"][1]["f"][0][1])
        if v[0]=="vec": return "vec![%s]"%",".join(rust(x,t.d["args"][0]) for x in v[1])
        if v[0]=="coin": return 'Coin { denom: "%s".into(), amount: Uint128::new(%d) }'%v[1:]
        if v[0]=="tup": return "(%s)"%",".join(rust(x,y) for x,y in zip(v[1],t.d["ts"]))
        if v[0]=="ai": return ('AssetInfo::Token { contract_addr: "%s".into() }' if v[1] else 'AssetInfo::NativeToken { denom: "%s".into() }')%v[2]
        if v[0]=="op": return "haloswap::router::SwapOperation::HaloSwap { offer_asset_info: %s, ask_asset_info: %s }"%tuple(rust(x,y) for x,y in parts(v,tid)[1])
        if v[0]=="U": return "Uint128::new(%d)"%v[1]
        if v[0]=="D": return "Decimal::raw(%d)"%v[1]
        if v[0]=="B": return 'std::str::FromStr::from_str("%d").unwrap()'%v[1]
    return "%d%s"%(v, "i64" if t.k=="int" else "u%d"%t.d["w"])
def flat(x):
    while type(x) is Agg and len(x.f)==1: x=x.f[0]
    return x
def eqs(I,v,x,tid):
    t=m.types[tid]
    if isinstance(v,bool): return [x if v else not_(x)]
    if isinstance(v,int): return [ieq(flat(x),v)]
    if isinstance(v,list): return sum((eqs(I,y,x.e[i],t.d["t"]) for i,y in enumerate(v)),[])
    if isinstance(v,str): return [seq(I.sval(x),v.encode())]
    if v is None: return [ieq(x.discr,0)]
    if v[0]=="some": return [ieq(x.discr,1)]+eqs(I,v[1],x.field(1,0),t.d["vs"][1]["f"][0][1])
    if v[0]=="vec": return [ieq(x.len,len(v[1]))]+sum((eqs(I,y,x.elem(i),t.d["args"][0]) for i,y in enumerate(v[1])),[])
    if v[0] in STRUCT:
        d,fs=parts(v,tid)
        return ([ieq(x.discr,d)] if v[0]=="ai" else [])+sum((eqs(I,y,I.vfield(x,d,i),ty) for i,(y,ty) in enumerate(fs)),[])
    return [ieq(flat(x),v[1])]
def conc(v,tid):
    t=m.types[tid]
    if isinstance(v,bool) or isinstance(v,int): return v
    if isinstance(v,list): return VecV([conc(x,t.d["t"]) for x in v])
    if isinstance(v,str): return v.encode()
    if v is None: return Agg(tid,0,())
    if v[0]=="some": return Agg(tid,1,(conc(v[1],t.d["vs"][1]["f"][0][1]),))
    if v[0]=="vec": return VecV([conc(x,t.d["args"][0]) for x in v[1]])
    if v[0] in STRUCT:
        d,fs=parts(v,tid)
        return Agg(tid,d,tuple(conc(y,ty) for y,ty in fs))
    r=v[1]
    def wrap(ty):
        t=m.types[ty]
        return r if t.k!="adt" or len(t.d["vs"])==0 or t.d["name"].endswith("U256") else Agg(ty,0,(wrap(t.d["vs"][0]["f"][0][1]),))
    return wrap(tid)
class Unk(Exception): pass
def val(p,x):
    if not isinstance(x,T): return x
    r=subst(x,p.mp)
    if isinstance(r,T): raise Unk(short(r))
    return r
def show(p,I,v,tid):
    t=m.types[tid]
    if t.k in("ref","ptr"): return show(p,I,I.deep(v),t.d["t"])
    if t.k in("uint","int"): return str(val(p,v))
    if t.k=="bool": return "true" if val(p,v) else "false"
    if t.k=="str": return json.dumps(val(p,I.sval(v)).decode(),ensure_ascii=False)
    if t.k in("array","slice"):
        v=I.deep(v); return "["+", ".join(show(p,I,x,t.d["t"]) for x in (v.e if isinstance(v,VecV) else val(p,v)))+"]"
    if t.k=="tuple": return "("+", ".join(show(p,I,I.vfield(v,0,i),x) for i,x in enumerate(t.d["ts"]))+")"
    if t.k=="adt":
        n=t.d["name"]; s=n.rsplit("::",1)[1]
        if s=="String": return json.dumps(val(p,I.sval(v)).decode(),ensure_ascii=False)
        if s=="Vec":
            v=I.deep(v)
            if isinstance(v,SeqV): v=VecV([v.elem(i) for i in range(val(p,v.len))])
            return "["+", ".join(show(p,I,x,t.d["args"][0]) for x in (v.e if isinstance(v,VecV) else val(p,v)))+"]"
        if n=="bignumber::Uint256": return "BU(%d)"%val(p,flat(v))
        if s=="Result" : 
            d=I.variant(v)
            if "StdError" in str(m.types[t.d["vs"][1]["f"][0][1]].d.get("name")): return "Some(%s)"%show(p,I,I.vfield(v,0,0),t.d["vs"][0]["f"][0][1]) if d==0 else "None"
        d=I.variant(v); vr=t.d["vs"][d]
        fs=[(k,show(p,I,I.vfield(v,d,i),ty)) for i,(k,ty) in enumerate(vr["f"])]
        if not fs: return vr["n"]
        if fs[0][0]=="0": return "%s(%s)"%(vr["n"],", ".join(x for _,x in fs))
        return "%s { %s }"%(vr["n"],", ".join("%s: %s"%x for x in fs))
    raise Unk(str(t.d)[:80])
def equal(I,v,tid,e):
    """the condition under which the value prints as e (None: not expressible here)"""
    t=m.types[tid]
    if t.k in("uint","int"): return ieq(v,int(e)) if re.fullmatch(r"-?\d+",e) else False
    if t.k=="bool": return v if e=="true" else not_(v)
    if t.k=="adt":
        n=t.d["name"]
        if n=="cosmwasm_std::Uint128":
            x=re.fullmatch(r"Uint128\((\d+)\)",e)
            return ieq(flat(v),int(x.group(1))) if x else False
        if n.endswith("Option"):
            if e=="None": return ieq(I.discr(v),0)
            if e.startswith("Some("):
                r=equal(I,I.vfield(v,1,0),t.d["vs"][1]["f"][0][1],e[5:-1])
                return None if r is None else and_(ieq(I.discr(v),1),r)
            return False
    return None
def possible(p,I,v,tid,e):
    """may the value be the native one on this path?"""
    if e=="PANIC": return False
    try: q=equal(I,v,tid,e)
    except Exception as x: return True
    if q is None or q is True: return True
    return smt.decide(list(p.pc),not_(q),2000,4000,1)[0]!="proved"
cases=[]
for df in sorted(m.by_def):
    if not re.search("root_[xz]_",df) or "closure" in df: continue
    if len(sys.argv)>2 and sys.argv[2]!="-v" and sys.argv[2] not in df: continue
    fn=[f for f in m.by_def[df] if f.blocks is not None][0]
    try:
        for _ in range(N): cases.append((df,fn,[gen(fn.locals[i+1]) for i in range(fn.argc)]))
    except KeyError as e: print("skip",df,e)
src="#![allow(warnings)]\nmod x; mod z; use x::*; use z::*; use cosmwasm_std::*; use haloswap::asset::*; use std::panic::*;\nfn main(){ set_hook(Box::new(|_|{}));\n"
fns={}
body=[]
for k,(df,fn,args) in enumerate(cases):
    rt=m.types[fn.locals[0]]; ty=str(rt.d.get("name"))
    post="r"
    if ty=="bignumber::Uint256": post='format_args!("BU({})",r.to_string())'
    elif ty.endswith("Result") and "StdError" in str(m.types[rt.d["vs"][1]["f"][0][1]].d.get("name")): post="r.ok()"
    body.append('match catch_unwind(||%s(%s)){Ok(r)=>println!("{:?}",%s),Err(_)=>println!("PANIC")};'%(df.split("::")[-1],", ".join(rust(a,fn.locals[i+1]) for i,a in enumerate(args)),post))
chunks=[body[i:i+50] for i in range(0,len(body),50)]
if True: body=[b.replace("u64)){Ok","usize)){Ok") if "root_x_arr_get(" in b else b for b in body]; chunks=[body[i:i+50] for i in range(0,len(body),50)]
src+="".join("c%d();"%i for i in range(len(chunks)))+"}\n"+"".join("fn c%d(){\n%s\n}\n"%(i,"\n".join(c)) for i,c in enumerate(chunks))
os.makedirs(B+"/src/idiomnat/src",exist_ok=True)
for f,d in ((ME+"/nat/Cargo.toml","Cargo.toml"),(ME+"/x.rs","src/x.rs"),(ME+"/z.rs","src/z.rs"),("/repo/Cargo.lock","Cargo.lock")): shutil.copy(f,B+"/src/idiomnat/"+d)
open(B+"/src/idiomnat/src/main.rs","w").write(src)
r=subprocess.run("cd %s/src/idiomnat && cargo run --offline -q --target-dir %s/idiomnat-target 2>%s/idiomnat.err"%(B,B,B),shell=True,capture_output=True,text=True)
exp=r.stdout.splitlines()
if len(exp)!=len(cases): print("native",len(exp),len(cases),open("%s/idiomnat.err"%B).read()[-3000:]); sys.exit(1)
okc=bad=uns=weak=0
for (df,fn,args),e in zip(cases,exp):
  for mode in("conc","sym"):
    res=[]
    def go(p):
        I = verify.new_interp(m, p, W.cfg(df))
        I.cfg["max_iter"]=10000
        p.mp={}
        if mode=="conc": av=[conc(a,fn.locals[i+1]) for i,a in enumerate(args)]
        else:
            av=[fresh(m, fn.locals[i+1], "a%d"%i) for i in range(fn.argc)]
            for i,a in enumerate(args):
                for q in eqs(I,a,av[i],fn.locals[i+1]): p.assume(q)
            def mp(x,a,tt):
                t=m.types[tt]
                if isinstance(a,bool): p.mp[x]=a
                elif isinstance(a,int): p.mp[flat(x)]=a
                elif isinstance(a,list): [mp(x.e[i],y,t.d["t"]) for i,y in enumerate(a)]
                elif isinstance(a,str): p.mp[I.sval(x)]=a.encode()
                elif a is None: p.mp[x.discr]=0
                elif a[0]=="vec":
                    p.mp[x.len]=len(a[1])
                    for i,y in enumerate(a[1]): mp(x.elem(i),y,t.d["args"][0])
                elif a[0] in STRUCT:
                    d,fs=parts(a,tt)
                    if a[0]=="ai": p.mp[x.discr]=d
                    for i,(y,ty) in enumerate(fs): mp(I.vfield(x,d,i),y,ty)
                elif a[0]=="some": p.mp[x.discr]=1; mp(x.field(1,0),a[1],t.d["vs"][1]["f"][0][1])
                else: p.mp[flat(x)]=a[1]
            for i,a in enumerate(args): mp(av[i],a,fn.locals[i+1])
        o=call(I,fn,av)
        if o.kind!="ret": res.append("PANIC"); return
        try: res.append(show(p,I,o.value,fn.locals[0]))
        except Unk as x: res.append("?"+str(x)[:80]+("" if mode=="conc" or possible(p,I,o.value,fn.locals[0],e) else "!"))
    try:
        for _ in explore(go, max_paths=200, deadline=time.time()+10): pass
    except Exception as x:
        uns+=1
        if mode=="conc" and "-v" in sys.argv: print("unsupported",mode,df,args,type(x).__name__,str(x)[:150])
        continue
    if any(x.startswith("?") and x[-1]!="!" for x in res): weak+=1; continue
    if e in res and (mode=="sym" or res==[e]): 
        okc+=1
        if len(set(res))>1 and "-v" in sys.argv: print("imprecise",mode,df,args,e,res[:3])
    else: bad+=1; print("DISAGREE",mode,df.split("root_x_")[1],args,"native",e,"interp",res[:3])
print(len(cases),"cases agree",okc,"disagree",bad,"possible",weak,"unsupported",uns)
