"""python3 refac.py MODE OUTDIR : copy /repo to OUTDIR (python only) with a behaviour-preserving rewrite applied everywhere"""
import ast, sys, os, shutil, copy
mode, out = sys.argv[1], sys.argv[2]
N=ast.Name; L=ast.Load(); ST=ast.Store()
def parse(s): return ast.parse(s).body
class Base(ast.NodeTransformer):
    k=0
    def fresh(self,p='_v'): Base.k+=1; return f"{p}{Base.k}"
class RetTemp(Base):
    def visit_Return(self,n):
        self.generic_visit(n)
        if n.value is None: return n
        v=self.fresh(); return [ast.Assign([N(v,ST)],n.value), ast.Return(N(v,L))]
class SwapIf(Base):
    def visit_If(self,n):
        self.generic_visit(n)
        if not n.orelse: return n
        return ast.If(ast.UnaryOp(ast.Not(),n.test), n.orelse, n.body)
class TernToIf(Base):
    "x = a if c else b / return a if c else b"
    def visit_Assign(self,n):
        self.generic_visit(n)
        if isinstance(n.value,ast.IfExp):
            return ast.If(n.value.test,[ast.Assign(n.targets,n.value.body)],[ast.Assign(n.targets,n.value.orelse)])
        return n
    def visit_Return(self,n):
        self.generic_visit(n)
        if isinstance(n.value,ast.IfExp):
            return [ast.If(n.value.test,[ast.Return(n.value.body)],[]),ast.Return(n.value.orelse)]
        return n
class IfToTern(Base):
    def visit_If(self,n):
        self.generic_visit(n)
        if len(n.body)==1==len(n.orelse):
            a,b=n.body[0],n.orelse[0]
            if isinstance(a,ast.Return) and isinstance(b,ast.Return) and a.value and b.value: return ast.Return(ast.IfExp(n.test,a.value,b.value))
            if isinstance(a,ast.Assign) and isinstance(b,ast.Assign) and ast.dump(a.targets[0])==ast.dump(b.targets[0]) and len(a.targets)==1==len(b.targets): return ast.Assign(a.targets,ast.IfExp(n.test,a.value,b.value))
        return n
class CompToLoop(Base):
    def visit_Assign(self,n):
        self.generic_visit(n)
        v=n.value
        if isinstance(v,ast.ListComp) and len(v.generators)==1 and isinstance(n.targets[0],ast.Name):
            t=self.fresh('_l'); g=v.generators[0]
            body=[ast.Expr(ast.Call(ast.Attribute(N(t,L),'append',L),[v.elt],[]))]
            for c in reversed(g.ifs): body=[ast.If(c,body,[])]
            return [ast.Assign([N(t,ST)],ast.List([],L)), ast.For(g.target,g.iter,body,[]), ast.Assign(n.targets,N(t,L))]
        return n
class GenToList(Base):
    def visit_Call(self,n):
        self.generic_visit(n)
        if len(n.args)==1 and isinstance(n.args[0],ast.GeneratorExp): n.args=[ast.ListComp(n.args[0].elt,n.args[0].generators)]
        return n
class InToOr(Base):
    def visit_Compare(self,n):
        self.generic_visit(n)
        if len(n.ops)==1 and isinstance(n.ops[0],(ast.In,ast.NotIn)) and isinstance(n.comparators[0],(ast.Tuple,ast.List)) and isinstance(n.left,ast.Name) and len(n.comparators[0].elts)>=2:
            o=ast.Eq() if isinstance(n.ops[0],ast.In) else ast.NotEq()
            b=ast.Or() if isinstance(n.ops[0],ast.In) else ast.And()
            return ast.BoolOp(b,[ast.Compare(n.left,[o],[e]) for e in n.comparators[0].elts])
        return n
class OrToIn(Base):
    def visit_BoolOp(self,n):
        self.generic_visit(n)
        if isinstance(n.op,ast.Or) and all(isinstance(v,ast.Compare) and len(v.ops)==1 and isinstance(v.ops[0],ast.Eq) and isinstance(v.comparators[0],ast.Constant) for v in n.values) and len({ast.dump(v.left) for v in n.values})==1:
            return ast.Compare(n.values[0].left,[ast.In()],[ast.Set([v.comparators[0] for v in n.values])])
        return n
class Sq(Base):
    def visit_BinOp(self,n):
        self.generic_visit(n)
        if isinstance(n.op,ast.Pow) and isinstance(n.right,ast.Constant) and n.right.value==2: return ast.BinOp(n.left,ast.Mult(),copy.deepcopy(n.left))
        return n
class Commute(Base):
    def visit_BinOp(self,n):
        self.generic_visit(n)
        if isinstance(n.op,ast.Mult) and not isinstance(n.left,(ast.Constant,ast.List)) and not isinstance(n.right,(ast.Constant,ast.List)) : return ast.BinOp(n.right,n.op,n.left)
        return n
class SubNeg(Base):
    "a-b -> -(b-a)"
    def visit_BinOp(self,n):
        self.generic_visit(n)
        if isinstance(n.op,ast.Sub): return ast.UnaryOp(ast.USub(),ast.BinOp(n.right,ast.Sub(),n.left))
        return n
class Helper(Base):
    "function body moved to a nested helper"
    def visit_FunctionDef(self,n):
        if n.name.startswith('__') or any(isinstance(x,(ast.Yield,ast.YieldFrom)) for x in ast.walk(n)): return n
        doc=n.body[:1] if isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) else []
        rest=n.body[len(doc):]
        if not rest: return n
        if any(isinstance(x,ast.Call) and isinstance(x.func,ast.Name) and x.func.id in('super','locals') for x in ast.walk(n)): return n
        params={a.arg for a in n.args.posonlyargs+n.args.args+n.args.kwonlyargs}|({n.args.vararg.arg} if n.args.vararg else set())|({n.args.kwarg.arg} if n.args.kwarg else set())
        a=copy.deepcopy(n.args); a.defaults=[]; a.kw_defaults=[None]*len(a.kwonlyargs)
        call=ast.Call(N('_impl',L),[N(x.arg,L) for x in a.posonlyargs+a.args]+([ast.Starred(N(a.vararg.arg,L),L)] if a.vararg else []),[ast.keyword(x.arg,N(x.arg,L)) for x in a.kwonlyargs]+([ast.keyword(None,N(a.kwarg.arg,L))] if a.kwarg else []))
        n.body=doc+[ast.FunctionDef('_impl',a,rest,[]),ast.Return(call)]
        return n
class Rename(Base):
    "locals renamed"
    def visit_FunctionDef(self,n):
        params={a.arg for a in n.args.posonlyargs+n.args.args+n.args.kwonlyargs}|({n.args.vararg.arg} if n.args.vararg else set())|({n.args.kwarg.arg} if n.args.kwarg else set())
        st={x.id for x in ast.walk(n) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}-params
        glob={g for x in ast.walk(n) if isinstance(x,(ast.Global,ast.Nonlocal)) for g in x.names}
        st-=glob
        for x in ast.walk(n):
            if isinstance(x,ast.Name) and x.id in st: x.id='zz_'+x.id
        return n
class ReturnElse(Base):
    "if c: return a; rest -> if c: return a else: rest"
    def fix(self,body):
        for i,s in enumerate(body):
            if isinstance(s,ast.If) and not s.orelse and s.body and isinstance(s.body[-1],(ast.Return,ast.Raise)) and i+1<len(body):
                s.orelse=self.fix(body[i+1:]); return body[:i+1]
        return body
    def visit_FunctionDef(self,n):
        self.generic_visit(n); n.body=self.fix(n.body); return n
class Noop(Base):
    def visit_FunctionDef(self,n):
        self.generic_visit(n)
        doc=n.body[:1] if isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) else []
        n.body=doc+parse("_unused = 0\nassert _unused == 0\ndel _unused")+n.body[len(doc):]; return n
class KwTemp(Base):
    "call keywords dict 'kwargs={...}' hoisted into assignments"
    def visit_Return(self,n):
        self.generic_visit(n)
        pre=[]
        for c in ast.walk(n):
            if isinstance(c,ast.Call):
                for k in c.keywords:
                    if k.arg=='kwargs' and isinstance(k.value,ast.Dict):
                        v=self.fresh('_kw'); pre.append(ast.Assign([N(v,ST)],ast.Dict([],[])))
                        for a,b in zip(k.value.keys,k.value.values): pre.append(ast.Assign([ast.Subscript(N(v,L),a,ST)],b))
                        k.value=N(v,L)
        return pre+[n]
class OpToMethod(Base):
    def visit_BinOp(self,n):
        self.generic_visit(n); return n
class MatchCase(Base):
    "if x=='a' elif x=='b' else -> match"
    def visit_If(self,n):
        cases=[];cur=n;subj=None
        while True:
            t=cur.test
            if isinstance(t,ast.Compare) and len(t.ops)==1 and isinstance(t.left,ast.Name):
                if isinstance(t.ops[0],ast.Eq) and isinstance(t.comparators[0],ast.Constant) and isinstance(t.comparators[0].value,str): vals=[t.comparators[0]]
                elif isinstance(t.ops[0],ast.In) and isinstance(t.comparators[0],(ast.Tuple,ast.List,ast.Set)) and all(isinstance(e,ast.Constant) and isinstance(e.value,str) for e in t.comparators[0].elts): vals=t.comparators[0].elts
                else: vals=None
                if vals is None or (subj and subj!=t.left.id): self.generic_visit(n); return n
                subj=t.left.id
                ps=[ast.MatchValue(v) for v in vals]
                cases.append(ast.match_case(ps[0] if len(ps)==1 else ast.MatchOr(ps),None,[self.visit(x) for x in cur.body]))
            else: self.generic_visit(n); return n
            if len(cur.orelse)==1 and isinstance(cur.orelse[0],ast.If): cur=cur.orelse[0]; continue
            if cur.orelse: cases.append(ast.match_case(ast.MatchAs(),None,cur.orelse))
            break
        if len(cases)<3: return n
        return ast.Match(N(subj,L),cases)
class ForWhile(Base):
    def visit_For(self,n):
        self.generic_visit(n)
        if n.orelse or any(isinstance(x,(ast.Continue,ast.Break)) for x in ast.walk(n)): return n
        a,b=self.fresh('_i'),self.fresh('_s')
        return [ast.Assign([N(b,ST)],ast.Call(N('list',L),[n.iter],[])),
                ast.For(N(a,ST),ast.Call(N('range',L),[ast.Call(N('len',L),[N(b,L)],[])],[]),[ast.Assign([n.target],ast.Subscript(N(b,L),N(a,L),L))]+n.body,[])]
class ForReal(Base):
    "for -> while"
    def visit_For(self,n):
        self.generic_visit(n)
        if n.orelse or any(isinstance(x,(ast.Continue,ast.Break)) for x in ast.walk(n)): return n
        a,b=self.fresh('_i'),self.fresh('_s')
        return [ast.Assign([N(b,ST)],ast.Call(N('list',L),[n.iter],[])), ast.Assign([N(a,ST)],ast.Constant(0)),
                ast.While(ast.Compare(N(a,L),[ast.Lt()],[ast.Call(N('len',L),[N(b,L)],[])]),[ast.Assign([n.target],ast.Subscript(N(b,L),N(a,L),L))]+n.body+[ast.AugAssign(N(a,ST),ast.Add(),ast.Constant(1))],[])]
class CompMap(Base):
    "[f(x) for x in xs] -> list(map(lambda x: f(x), xs))"
    def visit_ListComp(self,n):
        self.generic_visit(n)
        g=n.generators
        if len(g)==1 and not g[0].ifs and isinstance(g[0].target,ast.Name):
            return ast.Call(N('list',L),[ast.Call(N('map',L),[ast.Lambda(ast.arguments([],[ast.arg(g[0].target.id)],None,[],[],None,[]),n.elt),g[0].iter],[])],[])
        return n
class SetArgs(Base):
    "args=[a, *b] -> hoist"
    def visit_Return(self,n):
        self.generic_visit(n)
        pre=[]
        for c in ast.walk(n):
            if isinstance(c,ast.Call):
                for k in c.keywords:
                    if k.arg=='args' and isinstance(k.value,ast.List):
                        v=self.fresh('_ar'); pre.append(ast.Assign([N(v,ST)],ast.List([],L)))
                        for e in k.value.elts:
                            pre.append(ast.Expr(ast.Call(ast.Attribute(N(v,L),'extend',L),[e.value],[])) if isinstance(e,ast.Starred) else ast.Expr(ast.Call(ast.Attribute(N(v,L),'append',L),[e],[])))
                        k.value=N(v,L)
        return pre+[n]
class Walrus(Base):
    def visit_Return(self,n):
        self.generic_visit(n)
        if n.value is None: return n
        v=self.fresh('_w'); return ast.Return(ast.NamedExpr(N(v,ST),n.value))
class TryFin(Base):
    def visit_FunctionDef(self,n):
        doc=n.body[:1] if isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) else []
        r=n.body[len(doc):]
        if not r: return n
        n.body=doc+[ast.If(ast.Constant(True),r,[])]; return n
class PosToKw(Base): pass
T={k.__name__:k for k in Base.__subclasses__()}
if mode=='LIST': print(' '.join(T)); sys.exit()
if os.path.exists(out): shutil.rmtree(out)
os.makedirs(out)
shutil.copytree('/repo/python',out+'/python')
for x in ('src','Cargo.toml','Cargo.lock','rust-toolchain.toml','target'): os.symlink('/repo/'+x,out+'/'+x)
for r,_,fs in os.walk(out+'/python'):
    for f in fs:
        if f.endswith('.py'):
            p=os.path.join(r,f); t=ast.parse(open(p).read())
            t=ast.fix_missing_locations(T[mode]().visit(t)); s=ast.unparse(t); ast.parse(s); open(p,'w').write(s)
