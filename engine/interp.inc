static void maybeSplit();
static u64 lastCheck=0;
void Exec::run(State*s){ st=s; ended=false; sync(); u64 tick=0; u64 startSteps=s->steps;
  while(!ended){
    const Inst&n=code[pc];
    switch(n.op){
      case OP_BIN: { const Val&x=V(n.a),&y=V(n.b); if(__builtin_expect(!x.e&&!y.e,1)){ u64 m=maskw(n.w); u64 r; switch(n.sub){ case E_ADD: r=(x.c+y.c)&m; break; case E_SUB: r=(x.c-y.c)&m; break; case E_AND: r=x.c&y.c; break; case E_OR: r=x.c|y.c; break; case E_XOR: r=x.c^y.c; break; 
            case E_UDIV: case E_SDIV: case E_UREM: case E_SREM: if(!y.c){ fault("ub","division by zero"); goto out; } /*fall*/
            default: r=ExprPool::evalBin((EOp)n.sub,n.w,x.c,y.c); } R[n.dst]=Val{r,nullptr}; }
          else { Val a=x,b=y; if(n.sub>=E_UDIV&&n.sub<=E_SREM){ if(b.e){ bool z; if(!decide(P.bin(E_EQ,n.w,b,Val{0,nullptr}),z)) goto out; if(z){ fault("ub","division by zero"); goto out; } } } R[n.dst]=P.bin((EOp)n.sub,n.w,a,b); }
          pc++; break; }
      case OP_ICMP: { const Val&x=V(n.a),&y=V(n.b); if(__builtin_expect(!x.e&&!y.e,1)) R[n.dst]=Val{icmpC(n.sub,n.w,x.c,y.c),nullptr}; else R[n.dst]=icmp(n.sub,n.w,x,y); pc++; break; }
      case OP_ZEXT: { const Val&x=V(n.a); R[n.dst]= x.e? P.zext(x,n.w2,n.w):x; pc++; break; }
      case OP_SEXT: { const Val&x=V(n.a); R[n.dst]=P.sext(x,n.w2,n.w); pc++; break; }
      case OP_TRUNC: { const Val&x=V(n.a); R[n.dst]=P.trunc(x,n.w2,n.w); pc++; break; }
      case OP_MOV: R[n.dst]=V(n.a); pc++; break;
      case OP_MOVN: { for(u32 i=0;i<n.x;i++) R[n.dst+i]=V(Program::el(n.a,i)); pc++; break; }
      case OP_INSV: { for(u32 i=0;i<n.x;i++) R[n.dst+i]=V(Program::el(n.a,i)); for(u32 i=0;i<n.k;i++) R[n.dst+n.c+i]=V(Program::el(n.b,i)); pc++; break; }
      case OP_SELECT: { Val c=V(n.a); if(!c.e){ for(u32 i=0;i<n.x;i++) R[n.dst+i]=V(Program::el(c.c?n.b:n.c,i)); } else if(n.x==1&&n.w&&!c.e->taint&&!(V(n.b).e&&V(n.b).e->taint)&&!(V(n.c).e&&V(n.c).e->taint)){ R[n.dst]=P.ite(c,n.w,V(n.b),V(n.c)); } else { bool d; if(!decide(c,d)) goto out; for(u32 i=0;i<n.x;i++) R[n.dst+i]=V(Program::el(d?n.b:n.c,i)); } pc++; break; }
      case OP_LOAD: { Val p=V(n.a); u64 a; if(p.e){ if(!n.sub && !isConst(p,a)){ Val o; if(tableLoad(p,n.k,n.w,o)){ R[n.dst]=o; pc++; break; } } if(!addr(p,a)) goto out; } else a=p.c;
          if(n.sub){ LoadTy&l=G->ltys[n.x]; for(int i=0;i<l.n;i++){ i64 off; Obj*o=rd(a+l.el[i].off,l.el[i].bytes,off); if(!o) goto out; R[n.dst+i]=loadN(o,off,l.el[i].bytes); } pc++; break; }
          i64 off; Obj*o; { if(__builtin_expect((a>>62&1)!=0,1)){ u32 slot=(a>>28)&0xfffff; off=(i64)(a&0xfffffff)-(1<<27); if(slot<NC) o=constObjs[slot]; else { u32 q=slot-NC; o= q<st->objs.size()&&((st->objs[q].gen&0x3fff)==((a>>48)&0x3fff))? st->objs[q].o:nullptr; } if(!o||off<0||(u64)off+n.k>o->size) o=rd(a,n.k,off); } else o=rd(a,n.k,off); }
          if(!o) goto out; Val v=loadN(o,off,n.k); if(n.w<8*n.k){ v= v.e? P.trunc(v,8*n.k,n.w):Val{v.c&maskw(n.w),nullptr}; } R[n.dst]=v; pc++; break; }
      case OP_STORE: { Val p=V(n.b); u64 a; if(p.e){ if(!addr(p,a)) goto out; } else a=p.c;
          if(n.sub){ LoadTy&l=G->ltys[n.x]; for(int i=0;i<l.n;i++){ i64 off; Obj*o=wr(a+l.el[i].off,l.el[i].bytes,off); if(!o) goto out; storeN(o,off,l.el[i].bytes,V(Program::el(n.a,i))); } pc++; break; }
          i64 off; Obj*o=wr(a,n.k,off); if(!o) goto out; Val v=V(n.a); if(v.e&&n.w<8*n.k) v=P.zext(v,n.w,8*n.k); storeN(o,off,n.k,v); pc++; break; }
      case OP_GEP0: { const Val&b=V(n.a); R[n.dst]= b.e? P.bin(E_ADD,64,b,Val{n.k,nullptr}):Val{b.c+n.k,nullptr}; pc++; break; }
      case OP_GEP1: case OP_GEPN: { Val b=V(n.a); auto&ix=G->geps[n.x]; b= b.e? P.bin(E_ADD,64,b,Val{n.k,nullptr}):Val{b.c+n.k,nullptr}; for(auto&g:ix){ Val i=V(g.op); if(!i.e){ u64 d=(u64)sx(i.c,g.w)*g.scale; b= b.e?P.bin(E_ADD,64,b,Val{d,nullptr}):Val{b.c+d,nullptr}; } else { i=P.sext(i,g.w,64); i=P.bin(E_MUL,64,i,Val{g.scale,nullptr}); b=P.bin(E_ADD,64,b,i); } } R[n.dst]=b; pc++; break; }
      case OP_ALLOCA: { u64 cnt; Val v=V(n.a); if(!conc(v,cnt,64)) goto out; if(cnt*n.k>(16u<<20)){ fault("stack","stack allocation too large"); goto out; } Obj*o=Obj::make(n.k*cnt,K_STACK,true); u64 a=newObj(o); st->allocas.push_back(((a>>28)&0xfffff)-NC); R[n.dst]=Val{a,nullptr}; pc++; break; }
      case OP_BR: take(n.b); goto tickl;
      case OP_CBR: { const Val&c=V(n.a); bool d; if(__builtin_expect(!c.e,1)) d=c.c; else { Val cc=c; if(!decide(cc,d)) goto out; } take(d?n.b:n.c); }
        tickl: if(__builtin_expect(++tick>=65536,0)){ tick=0; if(st->steps>J->maxsteps){ fault("steplimit","no termination within the step bound"); goto out; } stt.steps+=st->steps-startSteps; startSteps=st->steps; maybeSplit(); if(now()>deadline||now()-jobStart>J->cap){ stt.abandoned++; ended=true; goto out; } }
        break;
      case OP_SWITCH: { Val v=V(n.a); SwitchInfo&si=G->switches[n.x]; u64 x; if(v.e && !isConst(v,x)){ Expr*e=v.e; if(e->taint){ fault("uninit","switch on uninitialised value"); goto out; }
            if(e->var>=0&&!inMulti(e->var)){ const Bits b=P.ttSets[st->dom[e->var]]; std::map<u32,Bits> g; std::map<u32,u32> pcs; for(int i=0;i<256;i++) if(b.get(i)){ u64 q=e->tab[i]; auto it=std::lower_bound(si.cases.begin(),si.cases.end(),std::make_pair(q,0u)); u32 ed= it!=si.cases.end()&&it->first==q? it->second:si.def; // group edges with the same destination and no copies
                 u32 key=ed; if(!G->edges[ed].ccount){ auto k=pcs.find(G->edges[ed].pc); if(k!=pcs.end()) key=k->second; else pcs[G->edges[ed].pc]=ed; } auto z=g.emplace(key,Bits::none()).first; z->second.set(i); }
               std::vector<std::pair<u32,Bits>> gv(g.begin(),g.end()); stt.symBranches++; for(auto&p:gv){ std::vector<u64> t(256,0); for(int i=0;i<256;i++) if(p.second.get(i)) t[i]=1; Val q=P.table(P.var(e->var).e,1,t); if(q.e) S->single(st->dom[e->var],q.e); }
               for(size_t i=1;i<gv.size();i++){ State*ns=fork(); ns->dom[e->var]=P.internSet(gv[i].second); push(ns);} st->dom[e->var]=P.internSet(gv[0].second); take(gv[0].first); goto tickl; }
            if(!conc(v,x,n.w)) goto out; }
          else if(!v.e) x=v.c; 
          auto it=std::lower_bound(si.cases.begin(),si.cases.end(),std::make_pair(x,0u)); u32 ed= it!=si.cases.end()&&it->first==x? it->second:si.def; take(ed); goto tickl; }
      case OP_CALL: { CallInfo&ci=G->calls[n.x]; if(ci.bi){ if(!builtin(ci,n)) goto out; pc++; break; }
          Func*fn=ci.fn; if(!fn){ u64 a; Val t=V(ci.ind); if(!conc(t,a,64)) goto out; u64 id=(a>>4)&0xfffffff; if(!(a>>61&1)||(a>>62&1)||id>=G->funcs.size()){ fault("nullderef","call through an invalid function pointer"); goto out; } fn=G->funcs[id];
              auto bn=G->bnames.find(fn->name); if(bn!=G->bnames.end()){ CallInfo c2=ci; c2.bi=bn->second; if(!builtin(c2,n)) goto out; pc++; break; } }
          static std::vector<Val> args,va; args.clear(); va.clear(); std::vector<u32> bv; u32 np=fn->lf->arg_size(); for(size_t i=0;i<ci.args.size();i++){ const Arg&a=ci.args[i]; if(a.byval){ u64 sa; Val pv=V(a.op); if(!conc(pv,sa,64)) goto out; Obj*o=Obj::make(a.byval,K_STACK,true); u64 na=newObj(o); if(!copyMem(na,sa,a.byval)) goto out; bv.push_back(((na>>28)&0xfffff)-NC); (i<np?args:va).push_back(Val{na,nullptr}); continue; }
              for(int k=0;k<a.n;k++) (i<np?args:va).push_back(V(Program::el(a.op,k))); }
          if(!call(fn,args,&ci,n.dst,ci.retn,va)) goto out; for(u32 q:bv) st->allocas.push_back(q); sync(); pc=0; goto tickl; }
      case OP_RET: { Val rv[4]; for(u32 i=0;i<n.x&&i<4;i++) rv[i]=V(Program::el(n.a,i)); Frame fr=st->fr.back(); if(st->fr.size()==1){ if(J->hasStepIsViolation && st->steps>J->maxsteps){ fault("steplimit","no termination within the step bound"); goto out; } ended=true; finish(); goto out; } popFrame(); sync(); if(fr.ret>=0) for(u32 i=0;i<n.x&&i<4;i++) R[fr.ret+i]=rv[i]; break; }
      case OP_UNREACH: fault("ub","unreachable code reached"); goto out;
      case OP_FP: { u64 x,y; Val a=V(n.a),b=V(n.b); if(!conc(a,x,64)||!conc(b,y,64)) goto out; double p,q,r=0; memcpy(&p,&x,8); memcpy(&q,&y,8); u64 o=0; bool isd=true; switch(n.sub){ case F_UITOFP: r=(double)x; break; case F_SITOFP: r=(double)sx(x,n.w2); break; case F_ADD: r=p+q; break; case F_SUB: r=p-q; break; case F_MUL: r=p*q; break; case F_DIV: r=p/q; break; case F_NEG: r=-p; break;
            case F_FPTOUI: isd=false; if(!(p>-1.0&&p<ldexp(1.0,n.w))){ fault("ub","floating value out of range in conversion"); goto out; } o=(u64)p&maskw(n.w); break; case F_FPTOSI: isd=false; if(!(p>-ldexp(1.0,n.w-1)-1&&p<ldexp(1.0,n.w-1))){ fault("ub","floating value out of range in conversion"); goto out; } o=(u64)(i64)p&maskw(n.w); break;
            case F_CMP: { isd=false; bool un=p!=p||q!=q; int pr=n.c; bool lt=!un&&p<q,gt=!un&&p>q,eq=!un&&p==q; o= ((pr&1)&&eq)||((pr&2)&&gt)||((pr&4)&&lt)||((pr&8)&&un); break; } }
          if(isd) memcpy(&o,&r,8); R[n.dst]=Val{o,nullptr}; pc++; break; }
      default: fprintf(stderr,"op %d\n",n.op); exit(3);
    }
    continue;
    out: if(!ended) ended=true;
  }
  stt.steps+=st->steps-startSteps; stt.paths++; st->release(); delete st; }

// ---------------------------------------------------------------- job server
static void emitStats(){ u32 nb=0; (void)nb; fprintf(outf,"{\"t\":\"stat\",\"job\":\"%s\",\"paths\":%llu,\"done\":%llu,\"vio\":%llu,\"steps\":%llu,\"forks\":%llu,\"infeasible\":%llu,\"abandoned\":%llu,\"left\":%zu,\"asserts\":%llu,\"symbr\":%llu,\"q\":%llu,\"z3\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"multi\":%llu,\"mism\":%llu,\"z3s\":%.3f,\"wall\":%.3f,\"reached\":{",
   esc(J->name).c_str(),(unsigned long long)stt.paths,(unsigned long long)stt.done,(unsigned long long)stt.violations,(unsigned long long)stt.steps,(unsigned long long)stt.forks,(unsigned long long)stt.infeasible,(unsigned long long)stt.abandoned,work.size(),(unsigned long long)stt.assertsChecked,(unsigned long long)stt.symBranches,(unsigned long long)S->st.queries,(unsigned long long)S->st.z3,(unsigned long long)S->st.sat,(unsigned long long)S->st.unsat,(unsigned long long)S->st.unknown,(unsigned long long)S->st.multi,(unsigned long long)S->st.mismatches,S->st.secs,now()-jobStart);
  bool f=true; for(auto&k:stt.reached){ fprintf(outf,"%s\"%s\":%llu",f?"":",",esc(k.first).c_str(),(unsigned long long)k.second); f=false; } fprintf(outf,"}}\n"); fflush(outf); 
  std::string fn=outdir+"/cov."+std::to_string(getpid()); FILE*c=fopen(fn.c_str(),"wb"); if(c){ fwrite(cov.data(),1,cov.size(),c); fclose(c);} }
static std::vector<pid_t> kids;
static void openOut(){ std::string fn=outdir+"/r."+std::to_string(getpid())+".jsonl"; outf=fopen(fn.c_str(),"a"); setvbuf(outf,nullptr,_IOFBF,1<<16); }
static void explore(){ static Exec ex; while(!work.empty()){ if(now()>deadline||now()-jobStart>J->cap||stt.paths>=J->maxpaths) break; State*s=work.back(); work.pop_back(); ex.run(s); } }
static void finishChild(){ emitStats(); fclose(outf); char b='t'; if(write(jsw,&b,1)!=1){} int bad=0; for(pid_t k:kids){ int w; waitpid(k,&w,0); if(!(WIFEXITED(w)&&WEXITSTATUS(w)==0)) bad=1; } _exit(bad); }
static double lastSplit=0; static bool inSplit=false;
static void maybeSplit(){ if(!child) return; double t=now(); if(t-jobStart<0.3||t-lastSplit<0.05) return; lastSplit=t; if(work.size()<2) return; char b; if(read(jsr,&b,1)!=1) return;
  fflush(outf); pid_t p=fork(); if(p<0){ if(write(jsw,&b,1)!=1){} return; }
  // alternate states between the two processes, oldest (largest) subtrees spread evenly
  std::vector<State*> mine; for(size_t i=0;i<work.size();i++) if((i%2==0)==(p==0)) mine.push_back(work[i]); 
  if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); kids.clear(); stt=Stats(); S->st=SolverStats(); samplesLeft=J->samples>0?1:0; memset(cov.data(),0,cov.size()); openOut(); work=mine; explore(); finishChild(); }
  kids.push_back(p); work=mine; }

static u64 parseHexBits(const std::string&h,Bits&b){ b=Bits::none(); for(int i=0;i<64;i++){ char c=h[i]; int v=c<='9'?c-'0':c-'a'+10; for(int k=0;k<4;k++) if(v>>k&1) b.set(i*4+k); } return 0; }

int main(int argc,char**argv){ std::vector<std::string> libs,others; std::string jobs; int par=8; double tl=60; bool list=false; for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a=="--lib") libs.push_back(argv[++i]); else if(a=="--bc") others.push_back(argv[++i]); else if(a=="--jobs") jobs=argv[++i]; else if(a=="--out") outdir=argv[++i]; else if(a=="-j") par=atoi(argv[++i]); else if(a=="--time") tl=atof(argv[++i]); else if(a=="--list") list=true; }
  double t0=now(); deadline=t0+tl; setvbuf(stdout,nullptr,_IOLBF,0);
  G=new Program(P); if(!G->load(libs,others)) return 3; fullSet=P.internSet(Bits::all());
  // globals
  std::vector<llvm::GlobalVariable*> cg,wg; for(auto&g:G->M->globals()){ if(g.getName().starts_with("llvm.")) continue; (g.isConstant()&&!g.isDeclaration()?cg:wg).push_back(&g); }
  NC=cg.size(); for(u32 i=0;i<cg.size();i++) G->gaddr[cg[i]]=Program::slotAddr(i,0,0); for(u32 i=0;i<wg.size();i++) G->gaddr[wg[i]]=Program::slotAddr(NC+i,0,0);
  for(auto*g:cg){ u64 sz=G->DL->getTypeAllocSize(g->getValueType()); Obj*o=Obj::make(sz,K_CONST,false); o->ro=true; G->initBytes(g->getInitializer(),o->data); constObjs.push_back(o);} 
  for(auto*g:wg){ u64 sz=G->DL->getTypeAllocSize(g->getValueType()); Obj*o=Obj::make(sz,K_GLOBAL,false); o->libglobal=G->libGlobals.count(g->getName().str()); if(g->hasInitializer()) G->initBytes(g->getInitializer(),o->data); o->libglobal|=g->getName().starts_with("vxs_"); initObjs.push_back(Slot{o,0}); slotName.push_back(g->getName().str()); }
  for(auto&f:*G->M) if(!f.isIntrinsic()) G->getF(&f); for(size_t i=0;i<G->funcs.size();i++) G->decode(G->funcs[i]);
  cov.assign(G->nblocks,0); S=new Solver(P);
  if(list){ for(auto*f:G->funcs) if(!f->defined&&!G->bnames.count(f->name)) printf("undefined %s\n",f->name.c_str()); return 0; }
  // jobs
  auto mb=llvm::MemoryBuffer::getFile(jobs); if(!mb){ fprintf(stderr,"no jobs\n"); return 3; } std::vector<Job> jv; llvm::StringRef txt=(*mb)->getBuffer(); while(!txt.empty()){ auto pr=txt.split('\n'); txt=pr.second; if(pr.first.trim().empty()) continue; auto v=llvm::json::parse(pr.first); if(!v){ fprintf(stderr,"bad job json\n"); return 3; } auto*o=v->getAsObject(); Job j; j.name=o->getString("name")->str(); j.entry=o->getString("entry")->str(); if(auto*a=o->getArray("params")) for(auto&p:*a) j.params.push_back(*p.getAsInteger()); if(auto*a=o->getArray("texts")) for(auto&t:*a){ std::vector<TextItem> tv; for(auto&it:*t.getAsArray()){ TextItem x; if(auto n=it.getAsInteger()){ x.sym=false; x.c=*n; x.set=Bits::none(); } else { auto s=*it.getAsString(); if(s.size()==64){ x.sym=true; x.c=0; parseHexBits(s.str(),x.set); } else { // literal run
           for(char c:s){ TextItem y; y.sym=false; y.c=c; y.set=Bits::none(); tv.push_back(y);} continue; } } tv.push_back(x);} j.texts.push_back(tv);} if(auto n=o->getInteger("maxsteps")) j.maxsteps=*n; if(auto n=o->getNumber("cap")) j.cap=*n; if(auto b=o->getBoolean("nogw")) j.nogw=*b; if(auto n=o->getInteger("samples")) j.samples=*n; if(auto n=o->getInteger("maxpaths")) j.maxpaths=*n; jv.push_back(j); }
  int pfd[2]; if(pipe(pfd)) return 3; jsr=pfd[0]; jsw=pfd[1]; fcntl(jsr,F_SETFL,O_NONBLOCK); for(int i=0;i<par;i++) if(write(jsw,"t",1)!=1) return 3;
  size_t notrun=0; std::vector<pid_t> pids;
  signal(SIGPIPE,SIG_IGN);
  for(size_t i=0;i<jv.size();i++){ for(;;){ char b; if(read(jsr,&b,1)==1) break; usleep(1000); while(waitpid(-1,nullptr,WNOHANG)>0); }
    if(now()>deadline){ notrun++; if(write(jsw,"t",1)!=1){} FILE*f=fopen((outdir+"/r.main.jsonl").c_str(),"a"); fprintf(f,"{\"t\":\"notrun\",\"job\":\"%s\"}\n",esc(jv[i].name).c_str()); fclose(f); continue; }
    pid_t p=fork(); if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); child=true; J=&jv[i]; openOut(); jobStart=now(); lastSplit=jobStart; samplesLeft=J->samples; srand(1); auto it=G->byName.find(J->entry); if(it==G->byName.end()||!it->second->defined){ fprintf(outf,"{\"t\":\"err\",\"job\":\"%s\",\"msg\":\"no entry %s\"}\n",esc(J->name).c_str(),J->entry.c_str()); finishChild(); }
        State*s=new State(); s->objs=initObjs; s->acquire(); Exec ex; ex.st=s; ex.ended=false; std::vector<Val> none; ex.pc=0; ex.call(it->second,none,nullptr,-1,0,none); work.push_back(s); explore(); finishChild(); }
    if(p<0){ fprintf(stderr,"fork failed\n"); return 3; } }
  int w; pid_t p; while((p=wait(&w))>0){ if(!(WIFEXITED(w)&&WEXITSTATUS(w)==0)){ FILE*f=fopen((outdir+"/r.main.jsonl").c_str(),"a"); fprintf(f,"{\"t\":\"err\",\"job\":\"?\",\"msg\":\"worker %d died status %d\"}\n",p,w); fclose(f);} }
  // function and block coverage over the library
  std::vector<u8> tot(cov.size(),0); for(auto&e: std::vector<int>{0}){ (void)e; } 
  { std::string cmd; llvm::SmallVector<char,1> d; (void)d; }
  FILE*f=fopen((outdir+"/blocks.txt").c_str(),"w"); for(u32 i=0;i<G->nblocks;i++){ Func*fn=G->funcs[G->blkInfo[i].first]; fprintf(f,"%d %s %s %u\n",fn->lib?1:0,fn->name.c_str(),fn->file.empty()?"-":fn->file.c_str(),G->blkInfo[i].second); } fclose(f);
  printf("symx: %zu jobs, %zu not started, %.1fs\n",jv.size(),notrun,now()-t0); return 0; }
