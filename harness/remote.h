// Host side of the executors for other CPU architectures (cross/exec.cc): the functions of encoder.h, decoder.h and crc.h as calls
// to a process under emulation that shares the arenas. Included instead of the repository's headers.
#ifndef VERIF_REMOTE_H
#define VERIF_REMOTE_H
#include <fcntl.h>
#include <poll.h>
namespace RapidYenc {
	typedef int YencDecoderState; enum { YDEC_STATE_CRLF, YDEC_STATE_EQ, YDEC_STATE_CR, YDEC_STATE_NONE, YDEC_STATE_CRLFDT, YDEC_STATE_CRLFDTCR, YDEC_STATE_CRLFEQ };
	typedef int YencDecoderEnd; enum { YDEC_END_NONE, YDEC_END_CONTROL, YDEC_END_ARTICLE };
}
struct Isa { const char* name; int isa, crc; bool generic; std::vector<std::string> cmd; };
static std::vector<Isa> g_isas; static int g_curIsa = -1;
static int g_fd[2] = {-1,-1}; static uint8_t* g_base[2]; static size_t g_asize = 0;
static pid_t g_pid = 0; static int g_req = -1, g_ans = -1;
static int g_remoteWait=40000; static void remoteDied(int sig); // leaves the check; defined where faults are caught
static void remoteStop() { if(g_pid>0) { kill(g_pid, SIGKILL); int st; waitpid(g_pid,&st,0); } g_pid=0; if(g_req>=0) close(g_req); if(g_ans>=0) close(g_ans); g_req=g_ans=-1; }
static void remoteStart() {
	int a[2], b[2]; if(pipe2(a,O_CLOEXEC) || pipe2(b,O_CLOEXEC)) { perror("pipe"); _exit(3); }
	std::vector<std::string> cmd=g_isas[g_curIsa].cmd; for(auto& s: cmd) if(s=="@size") s=std::to_string(g_asize);
	std::vector<char*> av; for(auto& s: cmd) av.push_back((char*)s.c_str()); av.push_back(NULL);
	pid_t p=fork(); if(p<0) { perror("fork"); _exit(3); }
	if(!p) {
		for(int k=0;k<2;k++) { int t=fcntl(g_fd[k],F_DUPFD,20); dup2(t,100+k); close(t); }
		int q=fcntl(a[0],F_DUPFD,20), w=fcntl(b[1],F_DUPFD,20); dup2(q,0); dup2(w,1); close(q); close(w); dup2(100,3); dup2(101,4); close(100); close(101); int n=open("/dev/null",O_WRONLY); if(n>=0) dup2(n,2);
		struct itimerval z; memset(&z,0,sizeof z); setitimer(ITIMER_VIRTUAL,&z,NULL);
		sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK,&none,NULL);
		execvp(av[0],av.data()); _exit(127);
	}
	close(a[0]); close(b[1]); g_pid=p; g_req=a[1]; g_ans=b[0];
}
static void remoteCall(const uint64_t* rq, uint64_t* an) {
	if(!g_pid) remoteStart();
	size_t put=0; while(put<80) { ssize_t n=write(g_req,(const char*)rq+put,80-put); if(n<0 && errno==EINTR) continue; if(n<=0) break; put+=n; }
	size_t got=0; int why=0;
	while(put==80 && got<48) {
		struct pollfd pf={g_ans,POLLIN,0}; int r=poll(&pf,1,g_remoteWait); if(r<0 && errno==EINTR) continue; if(r==0) { why=SIGVTALRM; break; }
		ssize_t n=read(g_ans,(char*)an+got,48-got); if(n<0 && errno==EINTR) continue; if(n<=0) break; got+=n;
	}
	if(got==48) return;
	int st=0; if(!why) { for(int i=0;i<200;i++) { pid_t p=waitpid(g_pid,&st,WNOHANG); if(p==g_pid) { g_pid=0; break; } usleep(10000); } why = WIFSIGNALED(st) ? WTERMSIG(st) : WIFEXITED(st) && WEXITSTATUS(st)>128 ? WEXITSTATUS(st)-128 : 0; if(!why && !g_pid && WIFEXITED(st)) { fprintf(stderr,"harness: the executor ends with status %d\n",WEXITSTATUS(st)); _exit(3); } }
	remoteStop(); remoteDied(why ? why : SIGSEGV);
}
static uint64_t where(const void* p) { for(int k=0;k<2;k++) if((uint8_t*)p>=g_base[k] && (uint8_t*)p<=g_base[k]+g_asize) return ((uint64_t)k<<40) | (uint64_t)((uint8_t*)p-g_base[k]); return ~0ull; }
static uint64_t whereOrCopy(const void* p, size_t n) { uint64_t w=where(p); if(w!=~0ull) return w; if(n) memcpy(g_base[0]+64,p,n); return 64; }
namespace RapidYenc {
	static size_t encode(int ls, int* col, const void* s, void* d, size_t n, int end) { uint64_t q[10]={1,(uint64_t)(int64_t)ls,(uint64_t)(int64_t)*col,where(s),where(d),n,(uint64_t)end}, a[6]; remoteCall(q,a); *col=(int)(int64_t)a[1]; return (size_t)a[0]; }
	static size_t decode(int raw, const void* s, void* d, size_t n, YencDecoderState*) { uint64_t q[10]={2,(uint64_t)raw,0,where(s),where(d),n}, a[6]; remoteCall(q,a); return (size_t)a[0]; }
	static YencDecoderEnd decode_end(const void** s, void** d, size_t n, YencDecoderState* st) { uint64_t q[10]={3,(uint64_t)*st,0,where(*s),where(*d),n}, a[6]; remoteCall(q,a); *s=(const uint8_t*)*s+(int64_t)a[1]; *d=(uint8_t*)*d+(int64_t)a[2]; *st=(int)a[3]; return (int)a[0]; }
	static uint32_t crc32(const void* s, size_t n, uint32_t init) { uint64_t q[10]={4,init,0,whereOrCopy(s,n),0,n}, a[6]; remoteCall(q,a); return (uint32_t)a[0]; }
	static uint32_t call(uint64_t op, uint64_t x, uint64_t y, uint64_t z=0) { uint64_t q[10]={op,x,y,z}, a[6]; remoteCall(q,a); return (uint32_t)a[0]; }
	static uint32_t crc32_multiply(uint32_t x, uint32_t y) { return call(5,x,y); }
	static uint32_t crc32_combine(uint32_t x, uint32_t y, uint64_t n) { return call(6,x,y,n); }
	static uint32_t crc32_zeros(uint32_t x, uint64_t n) { return call(7,x,n); }
	static uint32_t crc32_unzero(uint32_t x, uint64_t n) { return call(8,x,n); }
	static uint32_t crc32_powmod(uint64_t n) { return call(9,n,0); }
	static uint32_t crc32_shift(uint32_t x, uint32_t n) { return call(10,x,n); }
}
// the levels are given on the command line: --remote name=command|arg|arg...
static void listIsas() {}
static void saveGeneric() { signal(SIGPIPE,SIG_IGN); }
static void addRemote(const std::string& s) {
	Isa I; size_t e=s.find('='); I.name=strdup(s.substr(0,e).c_str()); I.isa=I.crc=0; I.generic=false; std::string c=s.substr(e+1); size_t p=0;
	for(;;) { size_t q=c.find('|',p); I.cmd.push_back(c.substr(p,q==std::string::npos?q:q-p)); if(q==std::string::npos) break; p=q+1; }
	g_isas.push_back(I);
}
static void setIsa(int k) { if(k==g_curIsa) return; remoteStop(); g_curIsa=k; }
#endif
