  // returns false when the path ended
  bool builtin(const CallInfo&ci,const Inst&n){
    auto A=[&](int i)->const Val&{ return V(ci.args[i].op); };
    auto ret=[&](Val v){ if(n.dst>=0) R[n.dst]=v; };
    u64 x,y,z;
    switch(ci.bi){
      case B_nop: return true;
      case B_zero: ret(Val{0,nullptr}); return true;
      case B_ident: ret(A(0)); return true;
      case B_alloc: { if(!conc(A(0),x,64)||!conc(A(1),y,32)) return false; if(x>(64u<<20)){ ret(Val{0,nullptr}); return true; } Obj*o=Obj::make((u32)x,y?K_HARNESS:K_HEAP,true); u64 a=newObj(o); if(!y) st->live++; ret(Val{a,nullptr}); return true; }
      case B_free: { if(!addr(A(0),x)) return false; u32 slot; i64 off; Obj*o=find(x,slot,off,"free"); if(!o) return false; if(slot<NC||(o->kind!=K_HEAP&&o->kind!=K_HARNESS)){ fault("badfree","free of a non-heap object"); return false; } if(off){ fault("badfree","free of an interior pointer"); return false; } if(o->frozen){ fault("sharedwrite","an operation that only reads releases part of the tree it is given"); return false; } if(o->kind==K_HEAP) st->live--; freeSlot(slot-NC); return true; }
      case B_objsize: { if(!addr(A(0),x)) return false; u32 slot; i64 off; Obj*o=find(x,slot,off,"access"); if(!o) return false; if(off||slot<NC||o->kind!=K_HEAP){ fault("badfree","realloc of a non-heap pointer"); return false; } ret(Val{o->size,nullptr}); return true; }
      case B_freeze: { if(!conc(A(0),x,32)) return false; for(auto&sl:st->objs) if(sl.o&&sl.o->kind==K_HEAP&&sl.o->frozen!=(x!=0)){ if(sl.o->refs>1){ Obj*n2=sl.o->clone(); sl.o->refs--; sl.o=n2; } sl.o->frozen=x!=0; } return true; }
      case B_isheap: { if(!addr(A(0),x)) return false; ret(Val{(x>>62)&1,nullptr}); return true; }
      case B_memcpy: { if(!addr(A(0),x)||!addr(A(1),y)||!conc(A(2),z,64)) return false; if(!copyMem(x,y,z)) return false; ret(Val{x,nullptr}); return true; }
      case B_memset: { if(!addr(A(0),x)||!conc(A(2),z,64)) return false; if(z){ i64 off; Obj*o=wr(x,z,off); if(!o) return false; Val v=A(1); Val b= v.e? P.extb(v,0):Val{v.c&0xff,nullptr}; if(!b.e){ memset(o->data+off,(int)b.c,z); if(o->sh) memset(o->sh+off,0,z); } else for(u64 i=0;i<z;i++) storeN(o,off+i,1,b); } ret(Val{x,nullptr}); return true; }
      case B_sym: { int id=newVar(fullSet); st->symvars.push_back(id); ret(P.var(id)); return true; }
      case B_in: { if(!conc(A(0),x,32)||!conc(A(1),y,32)) return false; Bits b=Bits::none(); for(u64 i=x;i<=y&&i<256;i++) b.set(i); int id=newVar(P.internSet(b)); st->symvars.push_back(id); if(x==y) ret(Val{x,nullptr}); else ret(P.var(id)); return true; }
      case B_nvars: ret(Val{st->dom.size(),nullptr}); return true;
      case B_text: { if(!conc(A(0),x,32)||!addr(A(1),y)) return false; if(x>=J->texts.size()){ ret(Val{0,nullptr}); return true; } if(st->tvars.size()<=x) st->tvars.resize(J->texts.size()); auto&t=J->texts[x]; auto&tv=st->tvars[x]; if(tv.empty()) for(auto&it:t) if(it.sym) tv.push_back(newVar(P.internSet(it.set)));
          Obj*o=Obj::make(t.size(),K_HARNESS,false); size_t vi=0; for(size_t i=0;i<t.size();i++) if(t[i].sym) { int id=tv[vi++]; storeN(o,i,1,t[i].set.count()==1?Val{(u64)t[i].set.first(),nullptr}:P.var(id)); } else o->data[i]=t[i].c;
          u64 a=newObj(o); i64 off; Obj*po=wr(y,8,off); if(!po) return false; storeN(po,off,8,Val{t.size(),nullptr}); ret(Val{a,nullptr}); return true; }
      case B_param: { if(!conc(A(0),x,32)) return false; ret(Val{x<J->params.size()?(u64)J->params[x]:0,nullptr}); return true; }
      case B_nparams: ret(Val{J->params.size(),nullptr}); return true;
      case B_assume: { Val v=A(0); if(v.e&&v.e->w!=1) v=P.notv(P.bin(E_EQ,v.e->w,v,Val{0,nullptr})); if(!v.e){ if(!v.c){ ended=true; stt.infeasible++; return false; } return true; } if(v.e->taint){ fault("uninit","assumption on uninitialised value"); return false; } if(!sat(v.e)){ ended=true; stt.infeasible++; return false; } add(v.e); return true; }
      case B_assert: { stt.assertsChecked++; Val v=A(0); if(v.e&&v.e->w!=1) v=P.notv(P.bin(E_EQ,v.e->w,v,Val{0,nullptr})); if(!v.e){ if(v.c) return true; if(!conc(A(1),x,64)) return false; fault("prop",cstr(x)); return false; } if(v.e->taint){ fault("uninit","assertion on uninitialised value"); return false; }
          Val nv=P.notv(v); if(!nv.e){ if(!nv.c) return true; if(!conc(A(1),x,64)) return false; fault("prop",cstr(x)); return false; } if(sat(nv.e)){ if(!conc(A(1),x,64)) return false; fault("prop",cstr(x),nv.e); if(sat(v.e)){ ended=false; add(v.e); return true; } return false; } return true; }
      case B_conc: { if(!conc(A(0),x,64)) return false; ret(Val{x,nullptr}); return true; }
      case B_trace: { Val v=A(0); if(v.e&&v.e->taint){ fault("uninit","uninitialised value observed"); return false; } st->trace.push_back(v); return true; }
      case B_live: ret(Val{(u64)(u32)st->live,nullptr}); return true;
      case B_reach: { if(!conc(A(0),x,64)) return false; stt.reached[cstr(x)]++; return true; }
      case B_native: ret(Val{0,nullptr}); return true;
      case B_setjmp: { if(!addr(A(0),x)) return false; Jmp j; j.uid=st->fr.back().uid; j.depth=st->fr.size(); j.pc=pc+1; j.dst=n.dst; i64 off; Obj*o=wr(x,8,off); if(!o) return false; st->jmps.push_back(j); storeN(o,off,8,Val{0x5e7a0000ull+st->jmps.size()-1,nullptr}); ret(Val{0,nullptr}); return true; }
      case B_longjmp: { if(!addr(A(0),x)||!conc(A(1),y,32)) return false; i64 off; Obj*o=rd(x,8,off); if(!o) return false; Val tv=loadN(o,off,8); u64 t; if(tv.e||(t=tv.c-0x5e7a0000ull)>=st->jmps.size()){ fault("longjmp","longjmp through an invalid buffer"); return false; } Jmp j=st->jmps[t]; if(st->fr.size()<j.depth||st->fr[j.depth-1].uid!=j.uid){ fault("longjmp","longjmp to a returned frame"); return false; } while(st->fr.size()>j.depth) popFrame(); st->fr.back().pc=j.pc; sync(); if(j.dst>=0) R[j.dst]=Val{y?(y&0xffffffff):1,nullptr}; pc=j.pc-1; return true; }
      case B_assertfail: { if(!conc(A(0),x,64)||!conc(A(3),y,64)) return false; fault("abort","assertion failed: "+cstr(x)); return false; }
      case B_abort: fault("abort","abort called"); return false;
      case B_trap: { u64 code=0; if(ci.args.size()) conc(A(0),code,8); fault("ub","undefined behaviour (ubsan "+std::to_string(code)+")"); return false; }
      case B_done: { ended=true; finish(); return false; }
      case B_log10: { if(!conc(A(0),x,64)) return false; double d; memcpy(&d,&x,8); d=::log10(d); memcpy(&x,&d,8); ret(Val{x,nullptr}); return true; }
      case B_strlen: { if(!addr(A(0),x)) return false; u64 i=0; for(;;i++){ i64 off; Obj*o=rd(x+i,1,off); if(!o) return false; Val v=loadN(o,off,1); if(!v.e){ if(!v.c) break; continue; } bool d; if(!decide(P.bin(E_EQ,8,v,Val{0,nullptr}),d)) return false; if(d) break; } ret(Val{i,nullptr}); return true; }
      case B_smax: ret(P.ite(P.bin(E_SLT,n.w,A(0),A(1)),n.w,A(1),A(0))); return true;
      case B_smin: ret(P.ite(P.bin(E_SLT,n.w,A(0),A(1)),n.w,A(0),A(1))); return true;
      case B_umax: ret(P.ite(P.bin(E_ULT,n.w,A(0),A(1)),n.w,A(1),A(0))); return true;
      case B_umin: ret(P.ite(P.bin(E_ULT,n.w,A(0),A(1)),n.w,A(0),A(1))); return true;
      case B_iabs: ret(P.ite(P.bin(E_SLT,n.w,A(0),Val{0,nullptr}),n.w,P.bin(E_SUB,n.w,Val{0,nullptr},A(0)),A(0))); return true;
      case B_usubsat: ret(P.ite(P.bin(E_ULT,n.w,A(0),A(1)),n.w,Val{0,nullptr},P.bin(E_SUB,n.w,A(0),A(1)))); return true;
      case B_uaddsat: { Val s=P.bin(E_ADD,n.w,A(0),A(1)); ret(P.ite(P.bin(E_ULT,n.w,s,A(0)),n.w,Val{maskw(n.w),nullptr},s)); return true; }
      case B_ovf: { u8 w=n.w; Val a=A(0),b=A(1); Val r,o; if(a.e&&a.e->taint) { fault("uninit","arithmetic on uninitialised value"); return false; }
          if(w<=32){ bool sg=n.sub<3; Val ax=sg?P.sext(a,w,2*w):P.zext(a,w,2*w), bx=sg?P.sext(b,w,2*w):P.zext(b,w,2*w); EOp op=n.sub%3==0?E_ADD:n.sub%3==1?E_SUB:E_MUL; Val full=P.bin(op,2*w,ax,bx); r=P.trunc(full,2*w,w); Val back=sg?P.sext(r,w,2*w):P.zext(r,w,2*w); o=P.notv(P.bin(E_EQ,2*w,full,back)); }
          else { if(!conc(a,x,64)||!conc(b,y,64)) return false; bool ov=false; u64 rr=0; switch(n.sub){ case 0:{i64 q; ov=__builtin_add_overflow((i64)x,(i64)y,&q); rr=q; break;} case 1:{i64 q; ov=__builtin_sub_overflow((i64)x,(i64)y,&q); rr=q; break;} case 2:{i64 q; ov=__builtin_mul_overflow((i64)x,(i64)y,&q); rr=q; break;} case 3: ov=__builtin_add_overflow(x,y,&rr); break; case 4: ov=__builtin_sub_overflow(x,y,&rr); break; default: ov=__builtin_mul_overflow(x,y,&rr);} r=Val{rr,nullptr}; o=Val{ov,nullptr}; }
          if(n.dst>=0){ R[n.dst]=r; R[n.dst+1]=o; } return true; }
      case B_vastart: { if(!addr(A(0),x)) return false; i64 off; Obj*o=wr(x,24,off); if(!o) return false; storeN(o,off,4,Val{48,nullptr}); storeN(o,off+4,4,Val{304,nullptr}); storeN(o,off+8,8,Val{st->fr.back().va,nullptr}); storeN(o,off+16,8,Val{0,nullptr}); return true; }
      case B_vacopy: { if(!addr(A(0),x)||!addr(A(1),y)) return false; return copyMem(x,y,24); }
      case B_ctlz: case B_cttz: case B_ctpop: case B_bswap: { if(!conc(A(0),x,n.w)) return false; u64 r=0; if(ci.bi==B_ctpop) r=__builtin_popcountll(x); else if(ci.bi==B_cttz) r=x?__builtin_ctzll(x):n.w; else if(ci.bi==B_ctlz) r=x?__builtin_clzll(x)-(64-n.w):n.w; else r=__builtin_bswap64(x)>>(64-n.w); ret(Val{r,nullptr}); return true; }
    }
    fprintf(stderr,"builtin %d?\n",ci.bi); exit(3); }
  void finish(){ stt.done++; std::vector<u8> asg; if(samplesLeft>0 && (stt.done<=2 || (stt.done&(stt.done-1))==0 || (rand()%16)==0)){ if(model(st,asg,nullptr)){ samplesLeft--; fprintf(outf,"{\"t\":\"sample\",\"job\":\"%s\",\"rec\":\"%s\"}\n",esc(J->name).c_str(),esc(record(st,asg,true)).c_str()); } } }
