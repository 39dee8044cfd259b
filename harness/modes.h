// Modes other than generated single cases: threads (C18), large buffers (C22), emulated CPUID answers (C17).

static std::string modeReplay(const std::string& mode, const std::string& args, const std::string& msg) {
	uint64_t h = mix(std::hash<std::string>()(mode + args), 7); char nm[64]; snprintf(nm,sizeof nm,"%016llx",(unsigned long long)h);
	std::string path = g_replayDir + "/" + g_prop + "-" + g_build + "-" + nm + ".replay";
	FILE* f=fopen(path.c_str(),"w"); if(!f) { perror(path.c_str()); _exit(3); }
	fprintf(f,"harness prop=%s build=%s\nmode=%s %s\n# %s\n", g_prop.c_str(), g_build.c_str(), mode.c_str(), args.c_str(), msg.c_str()); fclose(f);
	return path;
}
struct ModeResult { uint64_t evals, nontrivial; std::map<std::string,uint64_t> cls; std::vector<std::string> samples; struct V { std::string replay, cs, why; }; std::vector<V> viols; ModeResult(): evals(0), nontrivial(0) {} };
static int writeMode(const ModeResult& R, const std::string& out, bool err) {
	FILE* f=fopen(out.c_str(),"w"); if(!f) { perror(out.c_str()); return 3; }
	fprintf(f,"{\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"build\":\"%s\",\"classes\":{",(unsigned long long)R.evals,(unsigned long long)R.nontrivial,g_build.c_str());
	bool c1=false; for(auto& x: R.cls) { fprintf(f,"%s\"%s\":%llu",c1?",":"",jesc(x.first).c_str(),(unsigned long long)x.second); c1=true; }
	fprintf(f,"},\"samples\":["); c1=false; for(auto& x: R.samples) { fprintf(f,"%s\"%s\"",c1?",":"",jesc(x).c_str()); c1=true; }
	fprintf(f,"],\"violations\":["); c1=false;
	for(auto& x: R.viols) { fprintf(f,"%s{\"replay\":\"%s\",\"case\":\"%s\",\"why\":\"%s\"}",c1?",":"",jesc(x.replay).c_str(),jesc(x.cs).c_str(),jesc(x.why).c_str()); c1=true; }
	fprintf(f,"]}\n"); fclose(f);
	return R.viols.size() ? 1 : err ? 3 : 0;
}
// (a child that hangs is ended by its alarm(); after one of those no further ones are begun)
static bool g_hung=false;
// runs f in a child with up to `par` children at a time; f writes text lines to fd
template<class F> static bool inChildren(size_t n, int par, F f, std::vector<std::string>& outs, std::vector<int>& status) {
	outs.assign(n,""); status.assign(n,0); std::map<pid_t,size_t> run; size_t next=0; pid_t me=getpid();
	auto file=[&](size_t j){ return g_tmp+"/m"+std::to_string(me)+"-"+std::to_string(j); };
	while((next<n && !g_hung) || run.size()) {
		while(next<n && (int)run.size()<par && !g_hung) {
			pid_t p=fork(); if(p<0) return false;
			if(!p) { FILE* o=fopen(file(next).c_str(),"w"); if(!o) _exit(3); int rc=f(next,o); fclose(o); _exit(rc); }
			run[p]=next++;
		}
		int st; pid_t p=wait(&st); if(p<0) return false; if(!run.count(p)) continue; status[run[p]]=st; if(WIFSIGNALED(st) && WTERMSIG(st)==SIGALRM) g_hung=true; run.erase(p);
	}
	for(size_t j=0;j<n;j++) { FILE* f=fopen(file(j).c_str(),"r"); if(!f) continue; char b[4096]; size_t k; while((k=fread(b,1,sizeof b,f))>0) outs[j].append(b,k); fclose(f); unlink(file(j).c_str()); }
	return true;
}

// ------------------------------------------------------------------------------------------------ threads
// The expected result of a case comes from the models; every thread computes on memory of its own.
struct TCase { Case c; Bytes want; EndRes er; uint32_t crc; long colAfter; };
static void expectCase(TCase& t) {
	const Case& c=t.c; t.er=EndRes(); t.crc=0; t.colAfter=0;
	switch(c.kind) {
		case K_ENC: case K_INCR: t.colAfter=(long)c.col; modelEncode(c.data.data(), c.data.size(), (long)c.ls, t.colAfter, c.kind==K_ENC, t.want); break;
		case K_DEC: { MState st=c.raw?M_CRLF:M_NONE; size_t rd; modelDecode(c.data.data(), c.data.size(), c.raw, false, st, t.want, rd); } break;
		case K_STREAM: { MState st=(MState)c.state; t.er.end=modelDecode(c.data.data(), c.data.size(), true, true, st, t.want, t.er.read); t.er.state=toYState(st); } break;
		case K_CRC: t.crc=modelCrc(c.data.data(), c.data.size(), c.init); break;
		case K_ALG: t.crc=mMul(c.init, mXpow((__int128)(c.n<0?-c.n:c.n)*8)) ^ c.b; break;
	}
}
static bool threadRun(const TCase& t, std::vector<uint8_t>& src, std::vector<uint8_t>& dst, char* why, size_t whyN) {
	const Case& c=t.c; size_t len=c.data.size(), n=0;
	if(!len && c.kind!=K_ALG) return true;
	size_t cap = (c.kind==K_ENC||c.kind==K_INCR ? modelMaxSize(len, c.ls) : len) + 256;
	if(src.size() < len+256) src.resize(len+256); if(dst.size() < cap+256) dst.resize(cap+256);
	uint8_t *s=src.data()+(c.sa&127), *d=dst.data()+(c.da&127); if(len) memcpy(s, c.data.data(), len);
	switch(c.kind) {
		case K_ENC: case K_INCR: { int col=(int)c.col; n=encode((int)c.ls, &col, s, d, len, c.kind==K_ENC); if(c.kind==K_INCR && col!=t.colAfter) { snprintf(why,whyN,"column %d, expected %ld",col,t.colAfter); return false; } } break;
		case K_DEC: n=decode(c.raw, s, d, len, NULL); break;
		case K_STREAM: { const void* sp=s; void* dp=d; YencDecoderState st=(YencDecoderState)toYState(c.state); YencDecoderEnd e=decode_end(&sp,&dp,len,&st); n=(uint8_t*)dp-d; int end=e==YDEC_END_CONTROL?ME_CONTROL:e==YDEC_END_ARTICLE?ME_ARTICLE:ME_NONE; size_t rd=(const uint8_t*)sp-s;
			if(end!=t.er.end || rd!=t.er.read || (end==ME_NONE && st!=t.er.state)) { snprintf(why,whyN,"end %d read %zu state %d, expected %d, %zu, %d",end,rd,(int)st,t.er.end,t.er.read,t.er.state); return false; } } break;
		case K_CRC: { uint32_t x=crc32(s,len,c.init); if(x!=t.crc) { snprintf(why,whyN,"crc32 %08x, expected %08x",x,t.crc); return false; } return true; }
		case K_ALG: { uint32_t x=crc32_combine(c.init,c.b,(uint64_t)(c.n<0?-c.n:c.n)); if(x!=t.crc) { snprintf(why,whyN,"crc32_combine %08x, expected %08x",x,t.crc); return false; } return true; }
	}
	if(n!=t.want.size() || memcmp(d,t.want.data(),n)) { snprintf(why,whyN,"%s: %zu bytes, expected %zu%s",kindName[c.kind],n,t.want.size(),n==t.want.size()?" (contents differ)":""); return false; }
	return true;
}
struct TShared { const std::vector<TCase>* cases; std::atomic<int> ready; int threads; std::atomic<int> bad; std::atomic<uint64_t> evals; char why[512]; size_t at; uint64_t seed; size_t per; };
struct TArg { TShared* S; int id; };
static void* threadMain(void* p) {
	TArg* a=(TArg*)p; TShared* S=a->S; Rng r(mix(S->seed, a->id)); std::vector<uint8_t> src, dst; char why[400];
	S->ready.fetch_add(1); while(S->ready.load()<S->threads) sched_yield(); // begin together
	uint64_t n=0; const size_t N=S->cases->size();
	for(size_t k=0;k<S->per && !S->bad.load(std::memory_order_relaxed);k++) {
		size_t i = (k/8)&1 ? r.below((uint32_t)N) : (S->seed + k/8) % N; // half of the time, all threads are at the same cases
		n++;
		if(!threadRun((*S->cases)[i], src, dst, why, sizeof why)) { int z=0; if(S->bad.compare_exchange_strong(z,1)) { snprintf(S->why,sizeof S->why,"thread %d: %s",a->id,why); S->at=i; } break; }
	}
	S->evals.fetch_add(n); return NULL;
}
static int threadsChild(int isa, FILE* o) {
	setIsa(isa);
	const size_t POOL=2000; std::vector<TCase> cases(POOL); uint64_t nt=0; Stats S;
	for(size_t i=0;i<POOL;i++) { genCase("C18", g_seed, i, isa, cases[i].c); if(cases[i].c.data.size()>6000) cases[i].c.data.resize(6000); expectCase(cases[i]); }
	uint64_t evals=0, rounds=0; Rng r(mix(g_seed, 77+isa)); size_t done=0;
	while(done < g_cases) { // threads come and go
		TShared sh; sh.cases=&cases; sh.ready=0; sh.threads=2+r.below(15); sh.bad=0; sh.evals=0; sh.why[0]=0; sh.at=0; sh.seed=r.next(); sh.per=std::max<size_t>(50, std::min<size_t>(g_cases/16, 60000)/sh.threads);
		alarm(120); // a round takes about a second
		std::vector<pthread_t> T(sh.threads); std::vector<TArg> A(sh.threads);
		for(int i=0;i<sh.threads;i++) { A[i].S=&sh; A[i].id=i; if(pthread_create(&T[i],NULL,threadMain,&A[i])) return 3; }
		for(int i=0;i<sh.threads;i++) pthread_join(T[i],NULL);
		evals+=sh.evals; done+=sh.evals; rounds++;
		if(sh.bad) { fprintf(o,"bad %s with %d threads: %s\n", g_isas[isa].name, sh.threads, sh.why); fprintf(o,"case %s\n", ser(cases[sh.at].c,100).c_str()); break; }
	}
	for(size_t i=0;i<POOL;i++) { Bytes none; if(classify(cases[i].c, cases[i].want, S, false)) nt++; }
	fprintf(o,"evals %llu\nrounds %llu\nnt %llu\nsample %s\n",(unsigned long long)evals,(unsigned long long)rounds,(unsigned long long)nt,ser(cases[7].c,40).c_str());
	return 0;
}
static int runThreads(const std::string& out) {
	std::vector<std::string> O; std::vector<int> st; ModeResult R; bool err=false;
	if(!inChildren(g_isas.size(), 1, [&](size_t k, FILE* o){ return threadsChild((int)k,o); }, O, st)) return 3;
	for(size_t k=0;k<O.size();k++) {
		size_t p=0; std::string bad, cs; while(p<O[k].size()) { size_t e=O[k].find('\n',p); std::string l=O[k].substr(p,e-p); p=e+1;
			if(!l.compare(0,6,"evals ")) { R.evals+=strtoull(l.c_str()+6,0,10); R.cls[std::string("thread calls: ")+g_isas[k].name]+=strtoull(l.c_str()+6,0,10); } else if(!l.compare(0,7,"rounds ")) R.cls["rounds of starting and joining threads"]+=strtoull(l.c_str()+7,0,10);
			else if(!l.compare(0,3,"nt ")) R.nontrivial+=strtoull(l.c_str()+3,0,10); else if(!l.compare(0,7,"sample ")) { if(R.samples.size()<3) R.samples.push_back(l.substr(7)); } else if(!l.compare(0,4,"bad ")) bad=l.substr(4); else if(!l.compare(0,5,"case ")) cs=l.substr(5); }
		char args[200]; snprintf(args,sizeof args,"isa=%s seed=%llu cases=%llu",g_isas[k].name,(unsigned long long)g_seed,(unsigned long long)g_cases);
		if(WIFEXITED(st[k]) && WEXITSTATUS(st[k])==66) bad = "ThreadSanitizer reports a data race"; // see stderr
		else if(WIFSIGNALED(st[k])) { char b[80]; snprintf(b,sizeof b,WTERMSIG(st[k])==SIGALRM ? "calls in several threads do not return (2 minutes)" : "killed by signal %d while several threads worked",WTERMSIG(st[k])); bad=b; }
		else if(st[k] && bad.empty()) err=true;
		if(bad.size()) { ModeResult::V v; v.replay=modeReplay("threads",args,bad); v.cs=cs.size()?cs:args; v.why=bad; R.viols.push_back(v); }
	}
	return writeMode(R,out,err);
}

// ------------------------------------------------------------------------------------------------ large buffers
static uint8_t* big(size_t n) { uint8_t* p=(uint8_t*)mmap(NULL,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED) return NULL; madvise(p,n,MADV_HUGEPAGE); return p; }
static size_t g_largeLen = ((size_t)1<<31) + 12345;
// what: 0 encode, 1 decode, 2 decode (dots), 3 decode to the end marker, 4 crc32
static const char* largeName[]={"encode","decode","decode with dot stripping","incremental decode up to the end marker","crc32","end marker gigabytes before the end"};
static std::string largeOne(int what, size_t len, uint64_t seed) {
	Rng r(seed); char b[300];
	if(what==5) { // memory behind the marker is never touched
		for(int k=0;k<60;k++) {
			size_t n = (k%3==0 ? len : k%3==1 ? len*2 : len*3) + r.below(5000), pre = (size_t)(r.chance(1,3) ? r.below(200) : r.chance(1,2) ? r.below(3000) : r.below(100000)); static const char* const marks[]={"\r\n=yend","\r\n.\r\nab","\r\n.=yend"}; const char* mk=marks[r.below(3)];
			uint8_t* s=big(n), *d=big(n+65536); if(!s||!d) return "internal: no memory";
			for(size_t i=0;i<pre;i++) { uint8_t c=(uint8_t)r.next(); s[i] = c==13||c==10||c==61||c==46 ? 'a' : c; } memcpy(s+pre,mk,strlen(mk));
			MState ms=M_CRLF; Bytes out; size_t rd; modelDecode(s,pre+strlen(mk),true,true,ms,out,rd);
			const void* sp=s; void* dp=d; YencDecoderState st=YDEC_STATE_CRLF; YencDecoderEnd e=decode_end(&sp,&dp,n,&st); size_t got=(uint8_t*)dp-d, gr=(const uint8_t*)sp-s;
			std::string bad; if(e==YDEC_END_NONE || gr!=rd || got!=out.size() || memcmp(d,out.data(),got)) { snprintf(b,sizeof b,"marker at %zu of %zu: end %d, read %zu (expected %zu), %zu bytes (expected %zu)",pre,n,(int)e,gr,rd,got,out.size()); bad=b; }
			munmap(s,n); munmap(d,n+65536); if(bad.size()) return bad;
		}
		return "";
	}
	// the period: for the encoder, data that exactly fills lines; for the decoders, text that ends in CRLF
	Bytes per, out; const long ls = 64 + (long)r.below(200);
	if(what==0) { long col=0; Bytes o; while(per.size()<700000 || col<ls) { uint8_t x = r.chance(1,5) ? special(r) : (uint8_t)r.next(); per.push_back(x); modelEncode(&x,1,ls,col,false,o); } long c2=0; modelEncode(per.data(),per.size(),ls,c2,false,out); if(c2<ls) return "internal: the period does not fill its lines"; }
	else if(what==4) for(int i=0;i<700001;i++) per.push_back((uint8_t)r.next());
	else { while(per.size()<700000) { Bytes seg; genDecData(r, seg, 0); for(uint8_t x: seg) per.push_back(x); } per.push_back('a'); per.push_back('\r'); per.push_back('\n');
		if(what==3) { // no end markers within
			for(bool again=true; again; ) { again=false; MState st=M_CRLF; size_t rd; out.clear(); if(modelDecode(per.data(),per.size(),true,true,st,out,rd)) { per[rd-1]='x'; if(per[rd-2]=='\r') per[rd-2]='x'; again=true; } } }
		MState st=what==1?M_NONE:M_CRLF; size_t rd; out.clear(); modelDecode(per.data(),per.size(),what!=1,what==3,st,out,rd); if(st!=M_CRLF && !(what==1 && st==M_CRLF)) return "internal: the period does not end in CRLF";
		if(what==1) { // a period that begins after a CRLF differs from one that begins in the middle, without dot stripping they are the same
			MState s2=M_CRLF; Bytes o2; modelDecode(per.data(),per.size(),false,false,s2,o2,rd); if(o2!=out) return "internal: the period depends on its start"; } }
	size_t reps = len/per.size(), rest = len - reps*per.size(); if(what==3) rest=0;
	Bytes tail(per.begin(),per.begin()+rest), want; size_t total=reps*per.size()+rest;
	const char* mark = "=yend size=1\r\n"; size_t markLen = what==3 ? strlen(mark) : 0;
	uint8_t* s=big(total+markLen+4096); if(!s) return "internal: no memory";
	for(size_t k=0;k<reps;k++) memcpy(s+k*per.size(),per.data(),per.size()); if(rest) memcpy(s+reps*per.size(),tail.data(),rest); if(markLen) memcpy(s+total,mark,markLen);
	std::string err; size_t n=0, wantN=0;
	if(what==4) {
		uint32_t x=0, c=modelCrc(per.data(),per.size(),0), sh=mXpow((__int128)per.size()*8); for(size_t k=0;k<reps;k++) x=mMul(x,sh)^c; // crc(ab) = crc(a)*x^8|b| + crc(b)
		x = mMul(x,mXpow((__int128)rest*8)) ^ modelCrc(tail.data(),rest,0);
		uint32_t g=crc32(s,total,0); if(g!=x) { snprintf(b,sizeof b,"crc32 of %zu bytes is %08x, expected %08x",total,g,x); err=b; }
	} else {
		size_t cap = what==0 ? modelMaxSize(total,ls) : total+markLen; uint8_t* d=big(cap+65536); if(!d) return "internal: no memory";
		const char* sepS = what==0 ? "\r\n" : ""; size_t sep=strlen(sepS); Bytes wt;
		if(what==0) { long c0=0; modelEncode(tail.data(),rest,ls,c0,true,wt); int col=0; n=encode((int)ls,&col,s,d,total,true); wantN=reps*(out.size()+sep) - (rest?0:sep) + wt.size(); }
		else if(what<3) { MState st=what==1?M_NONE:M_CRLF; size_t rd; modelDecode(tail.data(),rest,what==2,false,st,wt,rd); n=decode(what==2,s,d,total,NULL); wantN=reps*out.size()+wt.size(); }
		else { const void* sp=s; void* dp=d; YencDecoderState st=YDEC_STATE_CRLF; YencDecoderEnd e=decode_end(&sp,&dp,total+markLen,&st); n=(uint8_t*)dp-d; wantN=reps*out.size(); size_t rd=(const uint8_t*)sp-s; if(e!=YDEC_END_CONTROL || rd!=total+2) { snprintf(b,sizeof b,"end %d, read %zu; expected the end at %zu",(int)e,rd,total+2); err=b; } }
		if(err.empty() && n!=wantN) { snprintf(b,sizeof b,"%zu bytes of output for %zu bytes, expected %zu",n,total,wantN); err=b; }
		if(err.empty()) { size_t o=0; for(size_t k=0;k<reps && err.empty();k++) { if(memcmp(d+o,out.data(),out.size())) { snprintf(b,sizeof b,"the output differs between %zu and %zu",o,o+out.size()); err=b; } o+=out.size(); if(sep && (k+1<reps || rest)) { if(memcmp(d+o,sepS,sep)) { snprintf(b,sizeof b,"no line end at %zu",o); err=b; } o+=sep; } }
			if(err.empty() && wt.size() && memcmp(d+o,wt.data(),wt.size())) err="the end of the output differs"; }
		munmap(d,cap+65536);
	}
	munmap(s,total+markLen+4096);
	return err;
}
static int runLarge(const std::string& out, const std::string& onlyArgs) {
	struct J { int isa, what; }; std::vector<J> jobs; for(size_t i=0;i<g_isas.size();i++) for(int w=0;w<6;w++) { if(onlyArgs.size()) { char a[100]; snprintf(a,sizeof a,"isa=%s what=%d ",g_isas[i].name,w); if(onlyArgs.compare(0,strlen(a),a)) continue; } J j={(int)i,w}; jobs.push_back(j); }
	std::vector<std::string> O; std::vector<int> st; ModeResult R; bool err=false;
	if(!inChildren(jobs.size(), std::max(1,g_jobs), [&](size_t k, FILE* o){ alarm(300); setIsa(jobs[k].isa); std::string e=largeOne(jobs[k].what,g_largeLen,mix(g_seed,std::hash<std::string>()(g_isas[jobs[k].isa].name)+jobs[k].what)); fprintf(o,"%s",e.c_str()); return 0; }, O, st)) return 3;
	for(size_t k=0;k<jobs.size();k++) {
		R.evals++; std::string what=std::string(largeName[jobs[k].what])+", "+g_isas[jobs[k].isa].name, bad=O[k];
		if(!bad.compare(0,9,"internal:")) { fprintf(stderr,"%s: %s\n",what.c_str(),bad.c_str()); err=true; continue; }
		if(WIFSIGNALED(st[k])) { if(WTERMSIG(st[k])==SIGKILL) { err=true; fprintf(stderr,"%s: killed\n",what.c_str()); continue; } char b[60]; snprintf(b,sizeof b,WTERMSIG(st[k])==SIGALRM ? "the call does not return (5 minutes)" : "killed by signal %d",WTERMSIG(st[k])); bad=b; } else if(st[k]) { err=true; continue; }
		R.nontrivial++; R.cls[what]++; char args[200]; snprintf(args,sizeof args,"isa=%s what=%d seed=%llu len=%zu",g_isas[jobs[k].isa].name,jobs[k].what,(unsigned long long)g_seed,g_largeLen);
		if(R.samples.size()<3) R.samples.push_back(std::string(largeName[jobs[k].what])+" "+args);
		if(bad.size()) { ModeResult::V v; v.replay=modeReplay("large",args,bad); v.cs=what; v.why=bad; R.viols.push_back(v); }
	}
	return writeMode(R,out,err);
}

// ------------------------------------------------------------------------------------------------ CPUID answers
#if defined(HAVE_REAL_PLATFORM) && defined(__x86_64__)
#include <ucontext.h>
#include <fcntl.h>
extern "C" int yv_real_isa(); extern "C" int yv_real_crc_isa(); // platform.cc's functions under other names
struct Cpu { uint32_t l1a, l1c, l1d, x1c, x1d, l7b, l7c, l71d, l24b, xcr, max, other; };
// the registers that say nothing about the features in question
static uint32_t otherReg(const Cpu& c, uint32_t k) { return c.other ? (uint32_t)mix(c.other, k) : 0; }
static Cpu g_cpu; static std::map<uint8_t*,int> g_sites; static int g_trapped=0; static bool g_badXgetbv=false;
static void onIll(int, siginfo_t*, void* uc) {
	ucontext_t* u=(ucontext_t*)uc; greg_t* G=u->uc_mcontext.gregs; uint8_t* ip=(uint8_t*)G[REG_RIP]; auto it=g_sites.find(ip);
	if(it==g_sites.end()) { signal(SIGILL,SIG_DFL); return; }
	g_trapped++;
	if(it->second==2) { // xgetbv
		if(!(g_cpu.l1c & (1u<<27))) g_badXgetbv=true; // faults without OSXSAVE
		G[REG_RAX]=g_cpu.xcr; G[REG_RDX]=0; G[REG_RIP]+=3; return; }
	uint32_t a=(uint32_t)G[REG_RAX], c=(uint32_t)G[REG_RCX], A=0,B=0,C=0,D=0;
	if(a==0) { A=g_cpu.max; B=0x756e6547; D=0x49656e69; C=0x6c65746e; }
	else if(a==1) { A=g_cpu.l1a; B=otherReg(g_cpu,1); C=g_cpu.l1c; D=g_cpu.l1d; }
	else if(a==7 && g_cpu.max>=7) { if(c==0) { A=1; B=g_cpu.l7b; C=g_cpu.l7c; D=otherReg(g_cpu,2); } else if(c==1) { A=otherReg(g_cpu,3); B=otherReg(g_cpu,4); C=otherReg(g_cpu,5); D=g_cpu.l71d; } }
	else if(a==0x24 && g_cpu.max>=0x24) { if(c==0) { A=otherReg(g_cpu,6) & 1; B=g_cpu.l24b; C=otherReg(g_cpu,7); D=otherReg(g_cpu,8); } }
	else if(a==0x80000000u) A=0x80000008u; else if(a==0x80000001u) { A=otherReg(g_cpu,9); B=otherReg(g_cpu,10); C=g_cpu.x1c; D=g_cpu.x1d; }
	G[REG_RAX]=A; G[REG_RBX]=B; G[REG_RCX]=C; G[REG_RDX]=D; G[REG_RIP]+=2;
}
// every place of the program that asks the CPU (what the disassembler lists, relative to yv_real_isa), wherever the code has put it
static std::vector<long> g_siteOff;
static bool patchSites() {
	for(long o: g_siteOff) {
		uint8_t* f=(uint8_t*)&yv_real_isa+o; uintptr_t a=(uintptr_t)f & ~(uintptr_t)4095, e=((uintptr_t)f+3+4095) & ~(uintptr_t)4095;
		if(mprotect((void*)a,e-a,PROT_READ|PROT_WRITE|PROT_EXEC)) return false;
		if(f[0]==0x0f && f[1]==0xa2) { f[1]=0x0b; g_sites[f]=1; }
		else if(f[0]==0x0f && f[1]==0x01 && f[2]==0xd0) { f[1]=0x0b; f[2]=0x90; g_sites[f]=2; }
		else return false;
		mprotect((void*)a,e-a,PROT_READ|PROT_EXEC);
	}
	return g_siteOff.size()>0;
}
static void genCpu(Rng& r, Cpu& c) {
	memset(&c,0,sizeof c);
	static const uint32_t fam[]={0x000006f0,0x000306a0,0x000406f0,0x00050650,0x000706e0,0x000a0650,0x000106c0,0x00030670,0x000506c0,0x00500f00,0x00500f10,0x00800f10,0x00870f10,0x00a20f10,0x00600f10,0x000806f0};
	c.l1a = r.chance(1,8) ? (uint32_t)r.next() : fam[r.below(16)]; c.l1d=0x078bfbff; c.x1d=0x2c100800; c.max = r.chance(1,10) ? 1+r.below(7) : r.chance(1,2) ? 0x24 : 0xd+r.below(20);
	int lv=r.below(12); // a plausible generation of CPU ...
	uint32_t C=0x1; if(lv>=1) C|=0x200; if(lv>=2) C|=0x80000; if(lv>=3) C|=0x100000|0x800000; if(lv>=4) C|=2; if(lv>=5) C|=0x1C000000; c.l1c=C;
	if(lv>=3) c.x1c|=0x20; if(lv>=6) c.l7b|=0x128; if(lv>=7) c.l7c|=0x400; if(lv>=8) c.l7b|=0xD0030000; if(lv>=9) c.l7c|=0x1842|0x400; if(lv>=10) { c.l71d|=0x80000; c.l24b=(r.below(4)) | (r.below(8)<<16); }
	c.xcr = lv>=8 ? 0xe7 : lv>=5 ? 7 : 3;
	// ... of which a few features are missing or disabled by the system, or which has others
	for(int k=r.below(4);k--;) switch(r.below(9)) {
		case 0: { static const uint32_t b[]={0x200,0x80000,0x800000,2,0x4000000,0x8000000,0x10000000,0x100000}; uint32_t v=b[r.below(8)]; c.l1c ^= v; } break;
		case 1: c.x1c ^= 0x20; break; case 2: { static const uint32_t b[]={8,0x20,0x100,0x10000,0x40000000,0x80000000u,0x20000}; c.l7b ^= b[r.below(7)]; } break;
		case 3: c.l7c ^= r.chance(1,2) ? 0x40 : 0x400; break; case 4: { static const uint32_t x[]={1,3,5,7,0xe3,0xe7,0x67,0x27,0xc7,0x87,0}; c.xcr=x[r.below(11)]; } break;
		case 5: c.l71d ^= 0x80000; break; case 6: c.l24b = (uint32_t)r.next() & 0x700ff; break; case 7: c.l1c &= ~0x08000000u; break; default: c.l1c &= ~(1u<<r.below(32)); }
	// all that is beside the point is arbitrary in half of the cases
	if(r.chance(1,2)) { c.other=(uint32_t)r.next()|1; c.l1c ^= (uint32_t)r.next() & ~0x1C980203u & ~0x2u; c.x1c ^= (uint32_t)r.next() & ~0x20u; c.x1d = (uint32_t)r.next(); c.l7b ^= (uint32_t)r.next() & ~0xD0030128u; c.l7c ^= (uint32_t)r.next() & ~0x1C42u; c.l71d ^= (uint32_t)r.next() & ~0x80000u; }
}
static std::string cpuStr(const Cpu& c) { char b[300]; snprintf(b,sizeof b,"l1a=%08x l1c=%08x x1c=%08x l7b=%08x l7c=%08x l71d=%08x l24b=%08x xcr=%x max=%x x1d=%x other=%x",c.l1a,c.l1c,c.x1c,c.l7b,c.l7c,c.l71d,c.l24b,c.xcr,c.max,c.x1d,c.other); return b; }
static std::string judgeCpu(const Cpu& c, int isa, int crc) {
	bool sse3ok = c.l1c&0x200, sse41=c.l1c&0x80000, pop=(c.l1c&0x800000)||(c.x1c&0x20), lz=c.x1c&0x20, osx=c.l1c&0x8000000, avxOs = osx && (c.xcr&6)==6, avx = avxOs && (c.l1c&0x10000000);
	bool m7 = c.max>=7; uint32_t b7=m7?c.l7b:0, c7=m7?c.l7c:0;
	bool avx2=avx&&(b7&0x20), bmi=(b7&0x108)==0x108, z=(c.xcr&0xe0)==0xe0, f512=avx&&z&&(b7&0xC0010000)==0xC0010000, v2=f512&&(c7&0x40);
	bool a10 = avx&&z&&m7&&(c.l71d&0x80000)&&c.max>=0x24&&(c.l24b&0xff)>=1, a10_256=a10&&(c.l24b&0x20000), a10_512=a10&&(c.l24b&0x40000);
	int base=isa & ~7; std::string lack;
	#define NEED(cond, what) if(!(cond)) { if(lack.size()) lack+=", "; lack+=what; }
	if(isa & ISA_FEATURE_POPCNT) NEED(pop,"POPCNT"); if(isa & ISA_FEATURE_LZCNT) NEED(lz,"LZCNT");
	if(base>=(ISA_LEVEL_SSSE3&~7)) NEED(sse3ok,"SSSE3"); if(base>=(ISA_LEVEL_SSE41&~7)) NEED(sse41,"SSE4.1");
	if(base>=(ISA_LEVEL_AVX&~7)) { NEED(avx,"AVX (or the system's support of it)"); NEED(pop,"POPCNT"); }
	if(base>=(ISA_LEVEL_AVX2&~7)) { NEED(avx2,"AVX2"); NEED(bmi,"BMI1/2"); NEED(lz,"LZCNT"); }
	if(base>=(ISA_LEVEL_AVX3&~7)) NEED(f512||a10_256,"AVX-512 (or the system's support of it)");
	if(base>=(ISA_LEVEL_VBMI2&~7)) NEED(v2||a10_256,"AVX512VBMI2 or AVX10");
	if(isa & ISA_FEATURE_EVEX512) NEED(f512||a10_512,"512-bit EVEX");
	if(crc>=1) { NEED((c.l1c&2),"PCLMULQDQ"); NEED(sse3ok&&sse41,"SSE4.1"); } if(crc>=2) { NEED(avx2,"AVX2"); NEED((c7&0x400),"VPCLMULQDQ"); }
	if(g_badXgetbv) NEED(false,"XGETBV");
	if(lack.empty()) return ""; char b[100]; snprintf(b,sizeof b,"level %x, CRC level %d chosen although the CPU lacks ",isa,crc); return b+lack;
}
static void cpuidSetup() {
	struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=onIll; sa.sa_flags=SA_SIGINFO|SA_NODEFER; sigaction(SIGILL,&sa,NULL);
	if(!patchSites()) { fprintf(stderr,"cannot patch the code\n"); _exit(3); }
}
static std::string g_siteArg;
// what the first call in a new process finds: code may remember the CPU's answers
static bool failsAfresh(const Cpu& c) {
	std::string rep=modeReplay("cpuid",cpuStr(c),"-"), p=g_tmp+"/cpuid-confirm"; if(FILE* a=fopen(rep.c_str(),"r")) { FILE* b=fopen(p.c_str(),"w"); int ch; while((ch=fgetc(a))!=EOF) fputc(ch,b); fclose(a); fclose(b); unlink(rep.c_str()); } else return true;
	pid_t k=fork(); if(!k) { int n=open("/dev/null",O_WRONLY); dup2(n,1); dup2(n,2); execl("/proc/self/exe","harness","--replay",p.c_str(),"--tmp",g_tmp.c_str(),"--sites",g_siteArg.c_str(),(char*)0); _exit(9); }
	int st=0; waitpid(k,&st,0); return !(WIFEXITED(st) && WEXITSTATUS(st)==0);
}
static std::string cpuOnce(const Cpu& c, int& isa, int& crc) {
	g_cpu=c; g_badXgetbv=false; int t0=g_trapped; isa=yv_real_isa(); int t1=g_trapped; crc=yv_real_crc_isa();
	if(t1==t0 || g_trapped==t1) { isa=-1; return ""; } // detection works in another way: nothing to judge
	return judgeCpu(c,isa,crc);
}
static int runCpuid(const std::string& out) {
	ModeResult R; cpuidSetup(); std::set<std::string> seen; bool err=false; std::string firstBad;
	for(uint64_t k=0;k<g_cases;k++) {
		Rng r(mix(g_seed,k)); Cpu c; genCpu(r,c); int isa, crc; std::string e=cpuOnce(c,isa,crc);
		if(isa==-1) { R.cls["CPUID not used"]++; continue; }
		R.evals++; char b[40]; snprintf(b,sizeof b,"level %03x",isa&~7); R.cls[b]++; snprintf(b,sizeof b,"CRC level %d",crc); R.cls[b]++;
		std::string s=cpuStr(c); if(c.l1c&0x200) { if(seen.insert(s).second && R.samples.size()<3 && k>5) R.samples.push_back("cpuid "+s); }
		if(e.size()) { // fewer deviations: set features back to absent
			Cpu m=c; bool go=true; while(go) { go=false; uint32_t* w[]={&m.l1c,&m.x1c,&m.l7b,&m.l7c,&m.l71d,&m.l24b,&m.xcr,&m.l1a,&m.x1d}; for(uint32_t* p: w) for(int bit=0;bit<32;bit++) if(*p>>bit&1) { *p^=1u<<bit; int i2,c2; if(cpuOnce(m,i2,c2).size()) go=true; else *p^=1u<<bit; } if(m.other) { uint32_t o=m.other; int i2,c2; m.other=0; if(cpuOnce(m,i2,c2).size()) go=true; else m.other=o; } }
			if(!failsAfresh(m)) { m=c; if(!failsAfresh(m)) { R.cls["the answers are remembered: not judged"]++; if(R.cls["the answers are remembered: not judged"]>=20) break; continue; } }
			e=cpuOnce(m,isa,crc); ModeResult::V v; v.replay=modeReplay("cpuid",cpuStr(m),e); v.cs=cpuStr(m); v.why=e; R.viols.push_back(v); break; }
	}
	R.nontrivial=seen.size();
	return writeMode(R,out,err);
}
#endif

static std::string argOf(const std::string& s, const char* k) { std::string key=std::string(" ")+k+"="; size_t p=(" "+s).find(key); if(p==std::string::npos) return ""; p+=key.size()-1; return s.substr(p, s.find(' ',p)-p); }
static int replayMode(const std::string& file) {
	FILE* f=fopen(file.c_str(),"r"); if(!f) return 3; char* line=NULL; size_t cap=0; std::string m; while(getline(&line,&cap,f)>0) { std::string s=line; if(s.size()&&s[s.size()-1]=='\n') s.erase(s.size()-1); if(!s.compare(0,5,"mode=")) m=s; } fclose(f);
	std::string mode=argOf(m,"mode"), isa=argOf(m,"isa"); std::string args = m.substr(m.find(' ')+1);
	if(argOf(m,"seed").size()) g_seed=strtoull(argOf(m,"seed").c_str(),0,10); if(argOf(m,"cases").size()) g_cases=strtoull(argOf(m,"cases").c_str(),0,10); if(argOf(m,"len").size()) g_largeLen=strtoull(argOf(m,"len").c_str(),0,10);
	g_replayDir=g_tmp; int rc=3;
	if(mode=="threads") { std::vector<Isa> k; for(auto& x: g_isas) if(isa==x.name) k.push_back(x); g_isas=k; rc=runThreads("/dev/null"); }
	else if(mode=="large") { rc=runLarge("/dev/null", args); }
#if defined(HAVE_REAL_PLATFORM) && defined(__x86_64__)
	else if(mode=="cpuid") { cpuidSetup(); Cpu c; memset(&c,0,sizeof c); auto h=[&](const char* k){ return (uint32_t)strtoul(argOf(m,k).c_str(),0,16); }; c.l1a=h("l1a"); c.l1c=h("l1c"); c.x1c=h("x1c"); c.l7b=h("l7b"); c.l7c=h("l7c"); c.l71d=h("l71d"); c.l24b=h("l24b"); c.xcr=h("xcr"); c.max=h("max"); c.x1d=h("x1d"); c.other=h("other"); c.l1d=0x078bfbff; int i2,c2; std::string e=cpuOnce(c,i2,c2); printf("%s\n",e.size()?("FAIL: "+e).c_str():"ok"); return e.size()?1:0; }
#endif
	printf("%s\n", rc==1?"FAIL":rc==0?"ok":"error"); return rc;
}
static int runMode(const std::string& mode, const std::string& out) {
	if(mode=="threads") return runThreads(out);
	if(mode=="large") return runLarge(out,"");
#if defined(HAVE_REAL_PLATFORM) && defined(__x86_64__)
	if(mode=="cpuid") return runCpuid(out);
#endif
	fprintf(stderr,"no mode %s\n",mode.c_str()); return 3;
}
