// The JavaScript host. Requests and answers are length-prefixed frames over pipes; one node process per search worker, a fresh context per simulated process.
#include "os.h"
#include "js.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/wait.h>
JsHost g_js; static int to_js=-1, from_js=-1; static u64 g_seq=0;
static const char HOST[]=R"JS(
const fs=require('fs'),vm=require('vm');
function rd(n){const b=Buffer.alloc(n);let o=0;while(o<n){let k;try{k=fs.readSync(3,b,o,n-o,null);}catch(e){if(e.code==='EAGAIN'||e.code==='EINTR')continue;throw e;}if(k===0)process.exit(0);o+=k;}return b;}
function wr(b){let o=0;while(o<b.length){try{o+=fs.writeSync(4,b,o,b.length-o);}catch(e){if(e.code==='EAGAIN'||e.code==='EINTR')continue;throw e;}}}
let ctx=null,ctxid='',box=null;
for(;;){
  const h=JSON.parse(rd(rd(4).readUInt32LE(0)).toString());
  const code=rd(h.codelen).toString(), pool=rd(h.pool), mem=rd(h.memlen);
  const OFF=65536, HEAPU8=new Uint8Array(OFF+h.memlen); HEAPU8.set(mem,OFF); HEAPU8.fill(0x77,0,OFF);
  const st={pos:0,calls:0,quota:h.quota,throwAt:h.throwAt,kind:h.kind,order:h.order};
  if(h.ctx!==ctxid){ ctxid=h.ctx; box={}; ctx=vm.createContext(box); vm.runInContext("var __st; function __err(n){ var e=new Error(n); e.name=n; return e; }",ctx);
    // mocks are built inside the context so that typed arrays and errors are of the context's own kind
    box.__take=function(n){ const s=box.__st; const a=s.pos; if(a+n>box.__pool.length) return null; s.pos+=n; return [...box.__pool.subarray(a,a+n)]; };
    vm.runInContext(`
      var __mk={ fault:function(){ var c=__st.calls++; if(c===__st.throwAt||(__st.order&&__st.throwAt>=0&&c>__st.throwAt)) throw __err(__st.kind===1?'OperationError':__st.kind===2?'QuotaExceededError':'Error'); },
        grv:function(arr){ if(arr===null||typeof arr!=='object'||typeof arr.byteLength!=='number'||arr instanceof Float64Array||arr instanceof Float32Array) throw __err('TypeMismatchError'); if(__st.quota&&arr.byteLength>__st.quota) throw __err('QuotaExceededError'); __mk.fault(); var v=new Uint8Array(arr.buffer,arr.byteOffset,arr.byteLength); var d=__take(v.length); if(!d) throw __err('pool exhausted'); v.set(d); return arr; },
        rb:function(n){ if(typeof n!=='number'||!(n>=0)||n>2147483647||Math.floor(n)!==n) throw __err('RangeError'); __mk.fault(); var d=__take(n); if(!d) throw __err('pool exhausted'); return new Uint8Array(d); },
        rf:function(buf,o,s){ o=o||0; if(s===undefined) s=buf.length-o; __mk.fault(); var d=__take(s); if(!d) throw __err('pool exhausted'); buf.set(d,o); return buf; } };
      var __web={getRandomValues:__mk.grv}; var __mod={randomBytes:__mk.rb,randomFillSync:__mk.rf,webcrypto:__web,getRandomValues:__mk.grv};
      function __require(n){ if(n==='crypto'||n==='node:crypto') return __mod; throw __err('Cannot find module'); }
      function writeArrayToMemory(a,p){ HEAP8.set(a,p); }
    `,ctx);
  }
  box.__st=st; box.__pool=pool; box.HEAPU8=HEAPU8; box.HEAP8=new Int8Array(HEAPU8.buffer);
  delete box.window; delete box.require; delete box.crypto; delete box.self; delete box.process;
  const E=h.env; // 0 node, 1 browser, 2 browser with a module loader, 3 neither, 4 window without crypto + loader, 5 window.crypto without the function + loader, 6 window without crypto, no loader
  if(E===1||E===2) vm.runInContext("var window={crypto:__web};var self=window;var crypto=__web;",ctx); if(E===4||E===6) vm.runInContext("var window={};",ctx); if(E===5) vm.runInContext("var window={crypto:{}};",ctx);
  if(E===0||E===2||E===4||E===5) vm.runInContext("var require=__require;",ctx); if(E===0) vm.runInContext("var crypto=__web;var process={versions:{node:'22.0.0'}};",ctx);
  let ret=0,thrown='',bad=0; const names=h.args.map((_,i)=>'$'+i);
  try{ const f=vm.runInContext('(function('+names.join(',')+')'+code+')',ctx); box.__f=f; box.__a=h.args; ret=vm.runInContext('__f.apply(null,__a)',ctx,{timeout:8000})|0; }catch(e){ if(e&&e.code==='ERR_SCRIPT_EXECUTION_TIMEOUT') bad=2; else thrown=String(e&&e.name||e)||'exception'; }
  for(let i=0;i<OFF;i++) if(HEAPU8[i]!==0x77){bad=bad||1;break;}
  const o=Buffer.from(JSON.stringify({seq:h.seq,ret,thrown,delivered:st.pos,calls:st.calls,bad})); const L=Buffer.alloc(4); L.writeUInt32LE(o.length); wr(L); wr(o); wr(Buffer.from(HEAPU8.buffer,OFF,h.memlen));
}
)JS";
bool js_available(){ return to_js>=0; } void js_reset(){ memset(&g_js,0,sizeof g_js); g_js.throw_at=-1; g_js.quota=65536; }
void js_start(){ if(to_js>=0||access("/dev/null",R_OK)) return; int a[2],b[2]; if(pipe(a)||pipe(b)) return; signal(SIGPIPE,SIG_IGN); fflush(0); pid_t p=fork(); if(p<0) return;
  if(p==0){ if(fork()) _exit(0); // detached: ends when the pipe closes
    int x=fcntl(a[0],F_DUPFD,20), y=fcntl(b[1],F_DUPFD,20); int n=open("/dev/null",O_RDWR); dup2(n,0); dup2(n,1); dup2(n,2); dup2(x,3); dup2(y,4); for(int i=5;i<64;i++) close(i); unsetenv("NODE_OPTIONS"); execlp("node","node","--no-warnings","--max-old-space-size=512","-e",HOST,(char*)0); _exit(127); }
  while(waitpid(p,nullptr,0)<0&&errno==EINTR); close(a[0]); close(b[1]); to_js=a[1]; from_js=b[0]; }
static bool wr_all(const void*p,size_t n){ const u8*b=(const u8*)p; while(n){ ssize_t k=write(to_js,b,n); if(k<0){ if(errno==EINTR) continue; return false; } b+=k; n-=k; } return true; }
static bool rd_all(void*p,size_t n){ u8*b=(u8*)p; while(n){ ssize_t k=read(from_js,b,n); if(k<0&&errno==EINTR) continue; if(k<=0) return false; b+=k; n-=k; } return true; }
extern "C" int sim_em_asm(const char*code,...){
  Ent*e=ent_cur(); if(!e||!g_js.mem) simerror("JavaScript called outside a modelled request"); if(!js_available()) simerror("no JavaScript host"); int inop=R->in_op; R->in_op=0;
  int na=0; for(const char*s=code;*s;s++) if(*s=='$'&&s[1]>='0'&&s[1]<='9'&&s[1]-'0'+1>na) na=s[1]-'0'+1; std::string args; va_list ap; va_start(ap,code);
  u64 want=0; for(int i=0;i<na;i++){ u64 v=va_arg(ap,u64); u64 m=(u64)g_js.mem; if(v>=m&&v<=m+g_js.memlen) v=65536+(v-m); else { v&=0xffffffffu; if(v>want) want=v; } args+=(i?",":"")+std::to_string(v); } va_end(ap);
  size_t pool=2*g_js.memlen+4096; std::vector<u8> P(pool); ent_fill(*e,e->delivered,P.data(),pool); if(++g_js.calls>g_js.memlen+1000) violate("hang","JavaScript source called without end");
  char h[1024]; u64 seq=++g_seq; int hn=snprintf(h,sizeof h,"{\"seq\":%lu,\"ctx\":\"%d\",\"codelen\":%zu,\"pool\":%zu,\"memlen\":%zu,\"env\":%d,\"throwAt\":%ld,\"kind\":%d,\"quota\":%lu,\"order\":%d,\"args\":[%s]}",(unsigned long)seq,(int)getpid(),strlen(code),pool,g_js.memlen,g_js.env,(long)g_js.throw_at,g_js.throw_kind,(unsigned long)g_js.quota,g_js.order,args.c_str());
  u32 n=(u32)hn; if(!wr_all(&n,4)||!wr_all(h,hn)||!wr_all(code,strlen(code))||!wr_all(P.data(),pool)||!wr_all(g_js.mem,g_js.memlen)) simerror("JavaScript host gone (write)");
  u32 an; if(!rd_all(&an,4)||an>4000) simerror("JavaScript host gone (read)"); std::string a(an,0); if(!rd_all(&a[0],an)) simerror("JavaScript host gone"); if(!rd_all(g_js.mem,g_js.memlen)) simerror("JavaScript host gone");
  auto num=[&](const char*k)->long{ size_t q=a.find(std::string("\"")+k+"\":"); return q==std::string::npos?0:atol(a.c_str()+q+strlen(k)+3); }; if((u64)num("seq")!=seq) simerror("JavaScript host out of step");
  size_t t0=a.find("\"thrown\":\"")+10; std::string thrown=a.substr(t0,a.find('"',t0)-t0); int ret=(int)num("ret"); u64 del=num("delivered"); long calls=num("calls"); e->delivered+=del; e->ncalls_total++; R->in_op=inop; R->simtime_us+=50;
  if(g_js.throw_at>=0){ if(calls>g_js.throw_at){ fault("js_crypto_throws"); e->failing=true; } g_js.throw_at-=calls; if(g_js.throw_at<0&&!e->failing) g_js.throw_at=-1; }
  evh(ret,del); if(num("bad")==2) violate("hang","the JavaScript source keeps failing and the request never returns"); if(num("bad")) violate("outside-buffer","the JavaScript source wrote outside the memory it was given");
  if(!thrown.empty()){ fault("js_exception"); violate("exception-escapes","an exception (%s) leaves the random-byte request instead of an error code",thrown.c_str()); }
  return ret; }
