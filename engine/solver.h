// Z3 back end.  Every feasibility question the executor asks is a query here; identical
// (domain, predicate) questions are answered from a cache of earlier Z3 verdicts.
#pragma once
#include "expr.h"
#include <z3++.h>
#include <chrono>
struct SolverStats { u64 queries=0, z3=0, sat=0, unsat=0, multi=0; double secs=0; u64 mismatches=0, unknown=0; };
struct Solver {
  ExprPool& P; z3::context ctx; z3::solver s; SolverStats st;
  std::unordered_map<u64,u8> singleCache; // (domId<<32|ttId) -> verdict
  std::unordered_map<std::string,int> multiCache; std::vector<std::vector<std::pair<int,u8>>> models;
  static z3::context& prep(z3::context&c){ return c; }
  Solver(ExprPool&p):P(p),s(ctx){ z3::params pr(ctx); pr.set("timeout",10000u); s.set(pr); }
  z3::expr var(int id){ return ctx.bv_const(("v"+std::to_string(id)).c_str(),8); }
  z3::expr domain(z3::expr x,const Bits&d){ z3::expr_vector v(ctx); int i=0; while(i<256){ if(!d.get(i)){ i++; continue; } int j=i; while(j<255&&d.get(j+1)) j++;
      if(i==j) v.push_back(x==ctx.bv_val(i,8)); else v.push_back(z3::uge(x,ctx.bv_val(i,8))&&z3::ule(x,ctx.bv_val(j,8))); i=j+1; }
    return z3::mk_or(v); }
  z3::expr b2v(z3::expr b){ return z3::ite(b,ctx.bv_val(1,1),ctx.bv_val(0,1)); }
  z3::expr tr(Expr*e,std::unordered_map<Expr*,z3::expr>&m,int rename){
    auto it=m.find(e); if(it!=m.end()) return it->second;
    z3::expr r(ctx); 
    switch(e->op){
      case E_CONST: r=ctx.bv_val((uint64_t)e->k,e->w); break;
      case E_VAR: r=var(rename?0:(int)e->k); break;
      case E_CATB: { r=tr(e->kids[e->nk-1],m,rename); for(int i=e->nk-2;i>=0;i--) r=z3::concat(r,tr(e->kids[i],m,rename)); break; }
      case E_ZEXT: r=z3::zext(tr(e->a,m,rename),e->w-e->a->w); break;
      case E_SEXT: r=z3::sext(tr(e->a,m,rename),e->w-e->a->w); break;
      case E_TRUNC: r=tr(e->a,m,rename).extract(e->w-1,0); break;
      case E_EXTB: r=tr(e->a,m,rename).extract(8*e->k+7,8*e->k); break;
      case E_ITE: r=z3::ite(tr(e->a,m,rename)==ctx.bv_val(1,1),tr(e->b,m,rename),tr(e->c,m,rename)); break;
      case E_TABLE: { auto&t=P.tables[e->k]; z3::expr ix=tr(e->a,m,rename); r=ctx.bv_val((uint64_t)0,e->w);
        // group equal values
        std::unordered_map<u64,Bits> g; for(size_t i=0;i<t.size()&&i<256;i++){ auto q=g.find(t[i]); if(q==g.end()) q=g.emplace(t[i],Bits::none()).first; q->second.set(i); }
        for(auto&kv:g) if(kv.first) r=z3::ite(domain(ix,kv.second),ctx.bv_val((uint64_t)kv.first,e->w),r); break; }
      default: { z3::expr a=tr(e->a,m,rename), b=tr(e->b,m,rename); switch(e->op){
        case E_ADD:r=a+b;break;case E_SUB:r=a-b;break;case E_MUL:r=a*b;break;case E_UDIV:r=z3::udiv(a,b);break;case E_SDIV:r=a/b;break;
        case E_UREM:r=z3::urem(a,b);break;case E_SREM:r=z3::srem(a,b);break;case E_SHL:r=z3::shl(a,b);break;case E_LSHR:r=z3::lshr(a,b);break;case E_ASHR:r=z3::ashr(a,b);break;
        case E_AND:r=a&b;break;case E_OR:r=a|b;break;case E_XOR:r=a^b;break;
        case E_EQ:r=b2v(a==b);break;case E_ULT:r=b2v(z3::ult(a,b));break;case E_ULE:r=b2v(z3::ule(a,b));break;case E_SLT:r=b2v(a<b);break;case E_SLE:r=b2v(a<=b);break;
        default: fprintf(stderr,"tr op %d\n",e->op); abort(); } } }
    m.emplace(e,r); return r; }
  bool run(z3::check_result&cr){ auto t0=std::chrono::steady_clock::now(); cr=s.check(); st.secs+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); st.z3++;
    if(cr==z3::sat) st.sat++; else if(cr==z3::unsat) st.unsat++; else st.unknown++; return cr!=z3::unknown; }
  // is there x in D with e(x) true?   e depends on exactly one variable
  bool single(int domId,Expr*e){ st.queries++; int t=P.setOf(e); u64 key=((u64)domId<<32)|(u32)t; auto it=singleCache.find(key); if(it!=singleCache.end()) return it->second;
    bool want=(P.ttSets[domId]&P.ttSets[t]).any();
    s.push(); std::unordered_map<Expr*,z3::expr> m; s.add(domain(var(0),P.ttSets[domId])); s.add(tr(e,m,1)==ctx.bv_val(1,1)); z3::check_result cr; bool ok=run(cr); s.pop();
    bool got= ok? cr==z3::sat : want;
    if(ok && got!=want){ st.mismatches++; fprintf(stderr,"symx: SOLVER/EVALUATOR MISMATCH\n"); }
    singleCache[key]=got; return got; }
  // satisfiable with model?  constraints over several variables, each with a domain
  // returns 1 sat,0 unsat,-1 unknown
  int multi(const std::vector<std::pair<int,int>>&vars,std::vector<Expr*> cs,std::vector<std::pair<int,u8>>*model){
    st.queries++; st.multi++; std::sort(cs.begin(),cs.end(),[](Expr*a,Expr*b){return a->id<b->id;}); cs.erase(std::unique(cs.begin(),cs.end()),cs.end());
    std::string key; for(auto&v:vars){ key.append((const char*)&v.first,4); key.append((const char*)&v.second,4);} key.push_back('|'); for(auto*c:cs) key.append((const char*)&c->id,4);
    auto it=multiCache.find(key); if(it!=multiCache.end()){ if(it->second>0&&model) *model=models[it->second-1]; return it->second>0?1:it->second; }
    s.push(); std::unordered_map<Expr*,z3::expr> m; for(auto&v:vars) if(P.ttSets[v.second].count()<256) s.add(domain(var(v.first),P.ttSets[v.second]));
    for(auto*c:cs) s.add(tr(c,m,0)==ctx.bv_val(1,1));
    z3::check_result cr; bool ok=run(cr); int r=-1;
    if(ok){ r= cr==z3::sat; if(r){ z3::model md=s.get_model(); std::vector<std::pair<int,u8>> mv; for(auto&v:vars){ z3::expr q=md.eval(var(v.first),true); u64 x=q.get_numeral_uint64(); if(!P.ttSets[v.second].get(x)) x=P.ttSets[v.second].first(); mv.push_back({v.first,(u8)x}); } models.push_back(mv); r=models.size(); if(model) *model=mv; } }
    s.pop(); multiCache[key]=r; return r>0?1:r; }
};
