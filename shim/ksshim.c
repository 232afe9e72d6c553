/*
 * ksshim: LD_PRELOAD observer for krill-sync.
 *
 * Interposes the file system calls of the process, and after every mutating
 * call on a path walks the observed root and logs what changed.  It can also
 * end the process before a given mutating call (KS_KILL_AT), make a given call
 * fail (KS_FAIL_AT), stop the process before a given mutating call
 * (KS_PAUSE_AT), simulate mount points (KS_XDEV) and replace the wall clock
 * (KS_NOW), which sleeping advances.  All network connections go to the port
 * KS_NET on the loopback address, whatever their name and port; without KS_NET
 * they are refused.
 *
 * The observer itself uses raw system calls only.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/sendfile.h>
#include <time.h>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <linux/fs.h>

/* ---------------------------------------------------------------- sha256 */
typedef struct { uint32_t h[8]; uint64_t len; uint8_t buf[64]; size_t n; } sha_t;
static const uint32_t K[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,
0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,
0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,
0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
#define ROR(x,n) (((x)>>(n))|((x)<<(32-(n))))
static void sha_block(sha_t *s, const uint8_t *p) {
  uint32_t w[64], a,b,c,d,e,f,g,h,t1,t2; int i;
  for (i=0;i<16;i++) w[i]=(uint32_t)p[4*i]<<24|(uint32_t)p[4*i+1]<<16|(uint32_t)p[4*i+2]<<8|p[4*i+3];
  for (;i<64;i++) { uint32_t s0=ROR(w[i-15],7)^ROR(w[i-15],18)^(w[i-15]>>3), s1=ROR(w[i-2],17)^ROR(w[i-2],19)^(w[i-2]>>10); w[i]=w[i-16]+s0+w[i-7]+s1; }
  a=s->h[0];b=s->h[1];c=s->h[2];d=s->h[3];e=s->h[4];f=s->h[5];g=s->h[6];h=s->h[7];
  for (i=0;i<64;i++) {
    t1=h+(ROR(e,6)^ROR(e,11)^ROR(e,25))+((e&f)^(~e&g))+K[i]+w[i];
    t2=(ROR(a,2)^ROR(a,13)^ROR(a,22))+((a&b)^(a&c)^(b&c));
    h=g;g=f;f=e;e=d+t1;d=c;c=b;b=a;a=t1+t2;
  }
  s->h[0]+=a;s->h[1]+=b;s->h[2]+=c;s->h[3]+=d;s->h[4]+=e;s->h[5]+=f;s->h[6]+=g;s->h[7]+=h;
}
static void sha_init(sha_t *s){ static const uint32_t i[8]={0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19}; memcpy(s->h,i,32); s->len=0; s->n=0; }
static void sha_add(sha_t *s,const uint8_t*p,size_t n){ s->len+=n; while(n){ size_t k=64-s->n; if(k>n)k=n; memcpy(s->buf+s->n,p,k); s->n+=k;p+=k;n-=k; if(s->n==64){sha_block(s,s->buf);s->n=0;} } }
static void sha_hex(sha_t *s,char*o){ uint64_t bits=s->len*8; uint8_t x=0x80; sha_add(s,&x,1); x=0; while(s->n!=56) sha_add(s,&x,1); uint8_t l[8]; for(int i=0;i<8;i++) l[i]=bits>>(56-8*i); sha_add(s,l,8); for(int i=0;i<8;i++) sprintf(o+8*i,"%08x",s->h[i]); }

/* ---------------------------------------------------------------- state */
static int active = 0;
static pid_t mypid;
static char root[PATH_MAX], scratch[PATH_MAX], blobs[PATH_MAX];
static size_t rootlen, scratchlen;
static int logfd = -1;
static int pause_lock = 0;
static long kill_at = 0, fail_at = 0, pause_at = 0, fail_errno = EIO;
static int torn = 0, sticky = 0, stuck = 0, partial = 0;
static long nm = 0, na = 0;
static int net_port = 0;
static int64_t fake_now = 0; static int fake = 0;
static char *xdev[16]; static int nxdev = 0;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static __thread int inside = 0;

typedef struct { char *path; char type; uint64_t ino; int64_t mt, ct; int64_t size; uint32_t mode; char sum[PATH_MAX>65?512:512]; int seen; } ent_t;
static ent_t *tab; static size_t ntab, captab;

static char *lbuf; static size_t llen, lcap;
static void lput(const char *s, size_t n){ if(llen+n+1>lcap){ lcap=(llen+n+1)*2; lbuf=realloc(lbuf,lcap);} memcpy(lbuf+llen,s,n); llen+=n; }
static void lputs(const char*s){ lput(s,strlen(s)); }
static void lesc(const char*s){ for(;*s;s++){ unsigned char c=*s; if(c<0x20||c=='%'||c==0x7f){ char b[4]; sprintf(b,"%%%02x",c); lput(b,3);} else lput((char*)&c,1);} }
static void lflush(void){ static size_t all; if((all+=llen)>(256u<<20)) abort(); size_t o=0; while(o<llen){ ssize_t r=syscall(SYS_write,logfd,lbuf+o,llen-o); if(r<=0) break; o+=r; } llen=0; }

static int under(const char*p,const char*r,size_t n){ return n && strncmp(p,r,n)==0 && (p[n]=='/'||p[n]==0); }

static void file_sum(const char*p, char*out){
  int fd=syscall(SYS_openat,AT_FDCWD,p,O_RDONLY|O_NOFOLLOW|O_CLOEXEC,0);
  if(fd<0){ strcpy(out,"unreadable"); return; }
  static uint8_t *data; static size_t cap; size_t n=0;
  for(;;){ if(n+65536>cap){ cap=n+65536*2; data=realloc(data,cap);} ssize_t r=syscall(SYS_read,fd,data+n,65536); if(r<=0)break; n+=r; }
  syscall(SYS_close,fd);
  sha_t s; sha_init(&s); sha_add(&s,data,n); sha_hex(&s,out);
  /* only notification files have to be read later */
  if(!n || n>(4<<20) || !memmem(data,n<2048?n:2048,"notification",12)) return;
  char bp[PATH_MAX+80]; snprintf(bp,sizeof bp,"%s/%s",blobs,out);
  struct stat st;
  if(syscall(SYS_newfstatat,AT_FDCWD,bp,&st,0)!=0){
    char tp[PATH_MAX+100]; snprintf(tp,sizeof tp,"%s.%d",bp,(int)mypid);
    int w=syscall(SYS_openat,AT_FDCWD,tp,O_WRONLY|O_CREAT|O_TRUNC|O_CLOEXEC,0644);
    if(w>=0){ size_t o=0; while(o<n){ ssize_t r=syscall(SYS_write,w,data+o,n-o); if(r<=0)break; o+=r;} syscall(SYS_close,w); syscall(SYS_renameat2,AT_FDCWD,tp,AT_FDCWD,bp,0); }
  }
}

static ent_t* find(const char*p){ for(size_t i=0;i<ntab;i++) if(tab[i].path && strcmp(tab[i].path,p)==0) return &tab[i]; return NULL; }
static ent_t* add(const char*p){ for(size_t i=0;i<ntab;i++) if(!tab[i].path){ memset(&tab[i],0,sizeof(ent_t)); tab[i].path=strdup(p); return &tab[i]; }
  if(ntab==captab){ captab=captab?captab*2:256; tab=realloc(tab,captab*sizeof(ent_t)); }
  memset(&tab[ntab],0,sizeof(ent_t)); tab[ntab].path=strdup(p); return &tab[ntab++]; }
static void ldiff(const char*p,ent_t*e){
  char b[256]; lputs("D\t"); lesc(p); 
  if(!e){ lputs("\t-\n"); return; }
  snprintf(b,sizeof b,"\t%c\t%llu\t%lld\t%lld\t%o\t",e->type,(unsigned long long)e->ino,(long long)e->mt,(long long)e->size,e->mode); lputs(b); lesc(e->sum); lputs("\n");
}
struct ld64 { uint64_t ino; int64_t off; unsigned short reclen; unsigned char type; char name[]; };
static const char *touched1, *touched2;
static void walk(const char*dir,int quiet){
  int fd=syscall(SYS_openat,AT_FDCWD,dir,O_RDONLY|O_DIRECTORY|O_CLOEXEC|O_NOFOLLOW,0);
  if(fd<0) return;
  size_t cap=4096,n=0; char **names=malloc(cap*sizeof(char*)); char buf[32768];
  for(;;){ long r=syscall(SYS_getdents64,fd,buf,sizeof buf); if(r<=0)break;
    for(long o=0;o<r;){ struct ld64*d=(void*)(buf+o); o+=d->reclen; if(!strcmp(d->name,".")||!strcmp(d->name,".."))continue; if(n==cap){cap*=2;names=realloc(names,cap*sizeof(char*));} names[n++]=strdup(d->name);} }
  syscall(SYS_close,fd);
  for(size_t i=0;i<n;i++){
    char p[PATH_MAX]; snprintf(p,sizeof p,"%s/%s",dir,names[i]); free(names[i]);
    struct stat st; if(syscall(SYS_newfstatat,AT_FDCWD,p,&st,AT_SYMLINK_NOFOLLOW)!=0) continue;
    char type=S_ISREG(st.st_mode)?'f':S_ISDIR(st.st_mode)?'d':S_ISLNK(st.st_mode)?'l':'x';
    int64_t mt=(int64_t)st.st_mtim.tv_sec*1000000000LL+st.st_mtim.tv_nsec, ct=(int64_t)st.st_ctim.tv_sec*1000000000LL+st.st_ctim.tv_nsec;
    ent_t*e=find(p); int isnew=!e; if(!e) e=add(p);
    int chg=isnew||e->type!=type||e->ino!=st.st_ino||e->mode!=(st.st_mode&07777)||(type!='d'&&(e->mt!=mt||e->size!=st.st_size));
    int reread=(type=='f')&&(chg||e->ct!=ct||(touched1&&!strcmp(touched1,p))||(touched2&&!strcmp(touched2,p)));
    e->type=type;e->ino=st.st_ino;e->mt=mt;e->ct=ct;e->size=type=='d'?0:st.st_size;e->mode=st.st_mode&07777;e->seen=1;
    if(reread){ char s[72]; file_sum(p,s); if(strcmp(s,e->sum)){ strcpy(e->sum,s); chg=1; } }
    if(type=='l'){ char t[500]; long r=syscall(SYS_readlinkat,AT_FDCWD,p,t,sizeof t-1); if(r<0)r=0; t[r]=0; if(strcmp(t,e->sum)){strcpy(e->sum,t);chg=1;} }
    if(type=='d') e->sum[0]=0;
    if(chg&&!quiet) ldiff(p,e);
    if(type=='d') walk(p,quiet);
  }
  free(names);
}
static void scan(int quiet){
  for(size_t i=0;i<ntab;i++) tab[i].seen=0;
  size_t before=llen; (void)before;
  walk(root,quiet);
  for(size_t i=0;i<ntab;i++) if(tab[i].path&&!tab[i].seen){ if(!quiet) ldiff(tab[i].path,NULL); free(tab[i].path); tab[i].path=NULL; }
}

static void real_now(struct timespec*ts){ syscall(SYS_clock_gettime,CLOCK_REALTIME,ts); }

__attribute__((constructor)) static void init(void){
  const char*r=getenv("KS_ROOT"),*l=getenv("KS_LOG"),*b=getenv("KS_BLOBS"),*x=getenv("KS_EXE"),*s=getenv("KS_SCRATCH");
  if(!r||!l||!b||!x) return;
  char exe[PATH_MAX]; long n=syscall(SYS_readlinkat,AT_FDCWD,"/proc/self/exe",exe,sizeof exe-1); if(n<=0) return; exe[n]=0;
  if(strcmp(exe,x)) return;
  strncpy(root,r,sizeof root-1); rootlen=strlen(root); strncpy(blobs,b,sizeof blobs-1);
  if(s){ strncpy(scratch,s,sizeof scratch-1); scratchlen=strlen(scratch);} 
  char*v;
  if((v=getenv("KS_KILL_AT"))) kill_at=atol(v);
  if((v=getenv("KS_FAIL_AT"))) fail_at=atol(v);
  if((v=getenv("KS_PAUSE_AT"))) pause_at=atol(v);
  if((v=getenv("KS_PAUSE_LOCK"))) pause_lock=atoi(v);
  if((v=getenv("KS_ERRNO"))) fail_errno=atol(v);
  if((v=getenv("KS_NET"))) net_port=atoi(v);
  if((v=getenv("KS_TORN"))) torn=atoi(v);
  if((v=getenv("KS_PARTIAL"))) partial=atoi(v);
  if((v=getenv("KS_STICKY"))) sticky=atoi(v);
  if((v=getenv("KS_NOW"))){ fake=1; fake_now=atoll(v); }
  if((v=getenv("KS_XDEV"))){ char*c=strdup(v); for(char*t=strtok(c,":");t&&nxdev<16;t=strtok(NULL,":")) xdev[nxdev++]=t; }
  mypid=getpid();
  logfd=syscall(SYS_openat,AT_FDCWD,l,O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC,0644);
  if(logfd<0) _exit(99);
  { int hi=fcntl(logfd,F_DUPFD_CLOEXEC,700); if(hi>=0){ syscall(SYS_close,logfd); logfd=hi; } }
  scan(1);
  lputs("B\n"); lflush();
  active=1;
}
__attribute__((destructor)) static void fini(void){
  if(active&&getpid()==mypid){ char b[64]; snprintf(b,sizeof b,"E\t%ld\t%ld\n",nm,na); pthread_mutex_lock(&mu); lputs(b); lflush(); pthread_mutex_unlock(&mu); }
}

/* ---------------------------------------------------------------- paths */
static void normalise(char*p){ /* lexical; p absolute */
  char out[PATH_MAX]; size_t n=0; char*q=p;
  while(*q){ while(*q=='/')q++; if(!*q)break; char*e=q; while(*e&&*e!='/')e++; size_t k=e-q;
    if(k==1&&q[0]=='.'){} else if(k==2&&q[0]=='.'&&q[1]=='.'){ while(n&&out[n-1]!='/')n--; if(n)n--; }
    else { out[n++]='/'; memcpy(out+n,q,k); n+=k; }
    q=e; }
  if(!n) out[n++]='/';
  out[n]=0; strcpy(p,out);
}
static void abspath(int dfd,const char*path,char*out){
  if(!path){ out[0]=0; return; }
  if(path[0]=='/'){ strncpy(out,path,PATH_MAX-1); out[PATH_MAX-1]=0; }
  else { char base[PATH_MAX]; long r;
    if(dfd==AT_FDCWD) r=syscall(SYS_readlinkat,AT_FDCWD,"/proc/self/cwd",base,sizeof base-1);
    else { char f[64]; snprintf(f,sizeof f,"/proc/self/fd/%d",dfd); r=syscall(SYS_readlinkat,AT_FDCWD,f,base,sizeof base-1); }
    if(r<0) r=0;
    base[r]=0; snprintf(out,PATH_MAX,"%s/%s",base,path); }
  normalise(out);
}
static int fdpath(int fd,char*out){ char f[64]; snprintf(f,sizeof f,"/proc/self/fd/%d",fd); long r=syscall(SYS_readlinkat,AT_FDCWD,f,out,PATH_MAX-1); if(r<0){out[0]=0;return 0;} out[r]=0; return out[0]=='/'&&(strncmp(out,"/dev/",5)||!strncmp(out,"/dev/shm/",9))&&strncmp(out,"/proc/",6)&&strncmp(out,"/memfd:",7); }

static int on(void){ return active&&!inside&&getpid()==mypid; }
static int ignorable(const char*p){ return !strncmp(p,"/dev/null",9)||!strncmp(p,"/dev/tty",8)||!strncmp(p,"/proc/",6)||!strncmp(p,"/dev/std",8)||!strncmp(p,"/dev/urandom",12)||!strncmp(p,"/sys/",5); }
static int watched(const char*p){ return under(p,scratch,scratchlen)||under(p,root,rootlen); }

/* returns: 0 proceed, -1 fail with errno set */
static void lopline(const char*name,const char*p1,const char*p2,long ret,int err){
  char b[160]; snprintf(b,sizeof b,"O\t%ld\t%ld\t%s\t",nm,na,name); lputs(b); lesc(p1); lputs("\t"); if(p2) lesc(p2);
  snprintf(b,sizeof b,"\t%ld\t%d\t%lld\n",ret,err,(long long)fake_now); lputs(b);
}
static int begin_m(const char*name,const char*p1,const char*p2){
  pthread_mutex_lock(&mu); inside=1; nm++; na++;
  if(pause_at&&na==pause_at){ char b[64]; snprintf(b,sizeof b,"P\t%ld\n",nm); lputs(b); lflush(); syscall(SYS_kill,mypid,SIGSTOP); }
  if(kill_at&&nm==kill_at&&!torn){ char b[64]; snprintf(b,sizeof b,"K\t%ld\t%s\n",nm,name); lputs(b); lflush(); syscall(SYS_kill,mypid,SIGKILL); }
  /* containment: what is outside the scratch directory is recorded, not touched */
  if(scratchlen&&(!watched(p1)||(p2&&!watched(p2)))){ lopline(name,p1,p2,-1,EACCES); lflush(); inside=0; pthread_mutex_unlock(&mu); errno=EACCES; return -1; }
  if((fail_at&&na==fail_at&&!partial)||(sticky&&stuck)){ stuck=1;
    lopline(name,p1,p2,-1,fail_errno); lflush(); inside=0; pthread_mutex_unlock(&mu); errno=fail_errno; return -1; }
  return 0;
}
static void end_m(const char*name,const char*p1,const char*p2,long ret){
  int e=errno; lopline(name,p1,p2,ret,ret<0?e:0);
  touched1=p1; touched2=p2; scan(0); touched1=touched2=NULL; lflush();
  if(kill_at&&nm==kill_at&&torn){ char b[64]; snprintf(b,sizeof b,"K\t%ld\t%s\n",nm,name); lputs(b); lflush(); syscall(SYS_kill,mypid,SIGKILL); }
  inside=0; pthread_mutex_unlock(&mu); errno=e;
}
static int begin_r(const char*name,const char*p){
  pthread_mutex_lock(&mu); inside=1; na++;
  if(pause_at&&na==pause_at){ char b[64]; snprintf(b,sizeof b,"P\t%ld\n",na); lputs(b); lflush(); syscall(SYS_kill,mypid,SIGSTOP); }
  if(fail_at&&na==fail_at){ lopline(name,p,NULL,-1,fail_errno); lflush(); inside=0; pthread_mutex_unlock(&mu); errno=fail_errno; return -1; }
  return 0;
}
static void end_r(const char*name,const char*p,long ret){
  int e=errno; char b[128]; snprintf(b,sizeof b,"R\t%ld\t%s\t",na,name); lputs(b); lesc(p); snprintf(b,sizeof b,"\t%ld\t%d\n",ret,ret<0?e:0); lputs(b); lflush();
  inside=0; pthread_mutex_unlock(&mu); errno=e;
}
/* with KS_PAUSE_LOCK: stop once, just before a lock is asked for */
int flock(int fd,int op){
  if(pause_lock&&active&&(op&3)){ pause_lock=0; syscall(SYS_kill,mypid,SIGSTOP); }
  return syscall(SYS_flock,fd,op);
}
#define REAL(name) ({ static __typeof__(&name) f; if(!f) f=dlsym(RTLD_NEXT,#name); f; })

/* ---------------------------------------------------------------- open */
static int do_open(int dfd,const char*path,int flags,mode_t mode){
  if(!on()) return syscall(SYS_openat,dfd,path,flags,mode);
  char p[PATH_MAX]; abspath(dfd,path,p);
  int mut=(flags&(O_CREAT|O_TRUNC))||((flags&O_ACCMODE)!=O_RDONLY)||((flags&O_TMPFILE)==O_TMPFILE);
  if(ignorable(p)||(!mut&&!watched(p))) return syscall(SYS_openat,dfd,path,flags,mode);
  if(mut){ const char*nm_=(flags&O_TRUNC)?"open-trunc":(flags&O_CREAT)?"open-creat":"open-write";
    if(begin_m(nm_,p,NULL)) return -1;
    int r=syscall(SYS_openat,dfd,path,flags,mode); end_m(nm_,p,NULL,r); return r; }
  if(begin_r("open",p)) return -1;
  int r=syscall(SYS_openat,dfd,path,flags,mode); end_r("open",p,r); return r;
}
#define MODE() mode_t mode=0; if((flags&O_CREAT)||(flags&O_TMPFILE)==O_TMPFILE){ va_list ap; va_start(ap,flags); mode=va_arg(ap,mode_t); va_end(ap); }
int open(const char*path,int flags,...){ MODE(); return do_open(AT_FDCWD,path,flags,mode); }
int open64(const char*path,int flags,...){ MODE(); return do_open(AT_FDCWD,path,flags,mode); }
int openat(int d,const char*path,int flags,...){ MODE(); return do_open(d,path,flags,mode); }
int openat64(int d,const char*path,int flags,...){ MODE(); return do_open(d,path,flags,mode); }
int creat(const char*path,mode_t mode){ return do_open(AT_FDCWD,path,O_CREAT|O_WRONLY|O_TRUNC,mode); }
int creat64(const char*path,mode_t mode){ return do_open(AT_FDCWD,path,O_CREAT|O_WRONLY|O_TRUNC,mode); }

/* ---------------------------------------------------------------- write */
static int wfd(int fd,char*p){ if(fd==logfd) return 0; if(!on()) return 0; if(fd<=2) return 0; return fdpath(fd,p)&&!ignorable(p); }
static ssize_t do_write(int fd,const void*buf,size_t n,off_t off,int pw){
  char p[PATH_MAX];
  if(!wfd(fd,p)) return pw?syscall(SYS_pwrite64,fd,buf,n,off):syscall(SYS_write,fd,buf,n);
  if(begin_m("write",p,NULL)) return -1;
  size_t k=n;
  if(((kill_at&&nm==kill_at&&torn)||(partial&&fail_at&&na==fail_at))&&n>1) k=n/2;
  ssize_t r=pw?syscall(SYS_pwrite64,fd,buf,k,off):syscall(SYS_write,fd,buf,k);
  end_m("write",p,NULL,r); return r;
}
ssize_t write(int fd,const void*b,size_t n){ return do_write(fd,b,n,0,0); }
ssize_t pwrite(int fd,const void*b,size_t n,off_t o){ return do_write(fd,b,n,o,1); }
ssize_t pwrite64(int fd,const void*b,size_t n,off_t o){ return do_write(fd,b,n,o,1); }
ssize_t writev(int fd,const struct iovec*v,int c){ char p[PATH_MAX]; if(!wfd(fd,p)) return syscall(SYS_writev,fd,v,c);
  if(begin_m("write",p,NULL)) return -1; ssize_t r=syscall(SYS_writev,fd,v,c); end_m("write",p,NULL,r); return r; }
int ftruncate(int fd,off_t l){ char p[PATH_MAX]; if(!wfd(fd,p)) return syscall(SYS_ftruncate,fd,l); if(begin_m("ftruncate",p,NULL)) return -1; int r=syscall(SYS_ftruncate,fd,l); end_m("ftruncate",p,NULL,r); return r; }
int ftruncate64(int fd,off_t l){ return ftruncate(fd,l); }
int fallocate(int fd,int m,off_t o,off_t l){ char p[PATH_MAX]; if(!wfd(fd,p)) return syscall(SYS_fallocate,fd,m,o,l); if(begin_m("fallocate",p,NULL)) return -1; int r=syscall(SYS_fallocate,fd,m,o,l); end_m("fallocate",p,NULL,r); return r; }
int fallocate64(int fd,int m,off_t o,off_t l){ return fallocate(fd,m,o,l); }
int truncate(const char*path,off_t l){ if(!on()) return syscall(SYS_truncate,path,l); char p[PATH_MAX]; abspath(AT_FDCWD,path,p); if(begin_m("truncate",p,NULL)) return -1; int r=syscall(SYS_truncate,path,l); end_m("truncate",p,NULL,r); return r; }
int truncate64(const char*path,off_t l){ return truncate(path,l); }
ssize_t copy_file_range(int i,off64_t*io,int o,off64_t*oo,size_t n,unsigned fl){ char p[PATH_MAX]; if(!wfd(o,p)) return syscall(SYS_copy_file_range,i,io,o,oo,n,fl);
  if(begin_m("copy_file_range",p,NULL)) return -1; size_t k=n; ssize_t r;
  if(kill_at&&nm==kill_at&&torn){ struct stat st; if(syscall(SYS_fstat,i,&st)==0&&(size_t)st.st_size<n) k=st.st_size; if(k>1) k/=2; }
  r=syscall(SYS_copy_file_range,i,io,o,oo,k,fl); end_m("copy_file_range",p,NULL,r); return r; }
ssize_t sendfile(int o,int i,off_t*of,size_t n){ char p[PATH_MAX]; if(!wfd(o,p)) return syscall(SYS_sendfile,o,i,of,n); if(begin_m("sendfile",p,NULL)) return -1; ssize_t r=syscall(SYS_sendfile,o,i,of,n); end_m("sendfile",p,NULL,r); return r; }
ssize_t sendfile64(int o,int i,off64_t*of,size_t n){ return sendfile(o,i,of,n); }
ssize_t splice(int i,off64_t*io,int o,off64_t*oo,size_t n,unsigned fl){ char p[PATH_MAX]; if(!wfd(o,p)) return syscall(SYS_splice,i,io,o,oo,n,fl); if(begin_m("splice",p,NULL)) return -1; ssize_t r=syscall(SYS_splice,i,io,o,oo,n,fl); end_m("splice",p,NULL,r); return r; }

/* ---------------------------------------------------------------- names */
static const char* mnt(const char*p){ const char*best="/"; size_t bl=0; for(int i=0;i<nxdev;i++){ size_t l=strlen(xdev[i]); if(under(p,xdev[i],l)&&l>bl){best=xdev[i];bl=l;} } return best; }
static int do_rename(int od,const char*o,int nd,const char*n,unsigned fl,const char*what){
  if(!on()) return syscall(SYS_renameat2,od,o,nd,n,fl);
  char a[PATH_MAX],b[PATH_MAX]; abspath(od,o,a); abspath(nd,n,b);
  if(begin_m(what,a,b)) return -1;
  int r; if(nxdev&&strcmp(mnt(a),mnt(b))){ struct stat st; if(syscall(SYS_newfstatat,AT_FDCWD,a,&st,AT_SYMLINK_NOFOLLOW)==0){ r=-1; errno=EXDEV; } else { r=-1; errno=ENOENT; } } else r=syscall(SYS_renameat2,od,o,nd,n,fl);
  end_m(what,a,b,r); return r; }
int rename(const char*o,const char*n){ return do_rename(AT_FDCWD,o,AT_FDCWD,n,0,"rename"); }
int renameat(int a,const char*o,int b,const char*n){ return do_rename(a,o,b,n,0,"rename"); }
int renameat2(int a,const char*o,int b,const char*n,unsigned f){ return do_rename(a,o,b,n,f,"rename"); }
static int do_link(int od,const char*o,int nd,const char*n,int fl){
  if(!on()) return syscall(SYS_linkat,od,o,nd,n,fl);
  char a[PATH_MAX],b[PATH_MAX]; abspath(od,o,a); abspath(nd,n,b);
  if(begin_m("link",a,b)) return -1;
  int r; if(nxdev&&strcmp(mnt(a),mnt(b))){ r=-1; errno=EXDEV; } else r=syscall(SYS_linkat,od,o,nd,n,fl);
  end_m("link",a,b,r); return r; }
int link(const char*o,const char*n){ return do_link(AT_FDCWD,o,AT_FDCWD,n,0); }
int linkat(int a,const char*o,int b,const char*n,int f){ return do_link(a,o,b,n,f); }
static int do_symlink(const char*t,int d,const char*n){ if(!on()) return syscall(SYS_symlinkat,t,d,n); char a[PATH_MAX]; abspath(d,n,a); if(begin_m("symlink",a,NULL)) return -1; int r=syscall(SYS_symlinkat,t,d,n); end_m("symlink",a,NULL,r); return r; }
int symlink(const char*t,const char*n){ return do_symlink(t,AT_FDCWD,n); }
int symlinkat(const char*t,int d,const char*n){ return do_symlink(t,d,n); }
static int do_unlink(int d,const char*n,int fl){ if(!on()) return syscall(SYS_unlinkat,d,n,fl); char a[PATH_MAX]; abspath(d,n,a); const char*w=(fl&AT_REMOVEDIR)?"rmdir":"unlink"; if(begin_m(w,a,NULL)) return -1; int r=syscall(SYS_unlinkat,d,n,fl); end_m(w,a,NULL,r); return r; }
int unlink(const char*n){ return do_unlink(AT_FDCWD,n,0); }
int unlinkat(int d,const char*n,int f){ return do_unlink(d,n,f); }
int rmdir(const char*n){ return do_unlink(AT_FDCWD,n,AT_REMOVEDIR); }
static int do_mkdir(int d,const char*n,mode_t m){ if(!on()) return syscall(SYS_mkdirat,d,n,m); char a[PATH_MAX]; abspath(d,n,a); if(begin_m("mkdir",a,NULL)) return -1; int r=syscall(SYS_mkdirat,d,n,m); end_m("mkdir",a,NULL,r); return r; }
int mkdir(const char*n,mode_t m){ return do_mkdir(AT_FDCWD,n,m); }
int mkdirat(int d,const char*n,mode_t m){ return do_mkdir(d,n,m); }
int mknod(const char*n,mode_t m,dev_t v){ if(!on()) return syscall(SYS_mknodat,AT_FDCWD,n,m,v); char a[PATH_MAX]; abspath(AT_FDCWD,n,a); if(begin_m("mknod",a,NULL)) return -1; int r=syscall(SYS_mknodat,AT_FDCWD,n,m,v); end_m("mknod",a,NULL,r); return r; }
static int do_chmod(int d,const char*n,mode_t m){ if(!on()) return syscall(SYS_fchmodat,d,n,m); char a[PATH_MAX]; abspath(d,n,a); if(begin_m("chmod",a,NULL)) return -1; int r=syscall(SYS_fchmodat,d,n,m); end_m("chmod",a,NULL,r); return r; }
int chmod(const char*n,mode_t m){ return do_chmod(AT_FDCWD,n,m); }
int fchmodat(int d,const char*n,mode_t m,int f){ (void)f; return do_chmod(d,n,m); }
int fchmod(int fd,mode_t m){ char p[PATH_MAX]; if(!wfd(fd,p)) return syscall(SYS_fchmod,fd,m); if(begin_m("chmod",p,NULL)) return -1; int r=syscall(SYS_fchmod,fd,m); end_m("chmod",p,NULL,r); return r; }
int utimensat(int d,const char*n,const struct timespec t[2],int f){ if(!on()) return syscall(SYS_utimensat,d,n,t,f); char a[PATH_MAX]; const char*volatile nv=n; if(nv) abspath(d,n,a); else fdpath(d,a); if(begin_m("utimens",a,NULL)) return -1; int r=syscall(SYS_utimensat,d,n,t,f); end_m("utimens",a,NULL,r); return r; }
int futimens(int fd,const struct timespec t[2]){ return utimensat(fd,NULL,t,0); }
int utimes(const char*n,const struct timeval t[2]){ struct timespec s[2]; if(t){ for(int i=0;i<2;i++){s[i].tv_sec=t[i].tv_sec;s[i].tv_nsec=t[i].tv_usec*1000;} } return utimensat(AT_FDCWD,n,t?s:NULL,0); }
int lutimes(const char*n,const struct timeval t[2]){ struct timespec s[2]; if(t){ for(int i=0;i<2;i++){s[i].tv_sec=t[i].tv_sec;s[i].tv_nsec=t[i].tv_usec*1000;} } return utimensat(AT_FDCWD,n,t?s:NULL,AT_SYMLINK_NOFOLLOW); }
int ioctl(int fd,unsigned long rq,...){ va_list ap; va_start(ap,rq); void*a=va_arg(ap,void*); va_end(ap); char p[PATH_MAX];
  if((rq==FICLONE||rq==FICLONERANGE)&&wfd(fd,p)){ if(begin_m("clone",p,NULL)) return -1; int r=syscall(SYS_ioctl,fd,rq,a); end_m("clone",p,NULL,r); return r; }
  return syscall(SYS_ioctl,fd,rq,a); }

/* ---------------------------------------------------------------- reads (fault points only) */
#define RD(call,name,p) do{ if(begin_r(name,p)) return -1; long r_=(call); end_r(name,p,r_); return r_; }while(0)
ssize_t read(int fd,void*b,size_t n){ char p[PATH_MAX]; if(!on()||fd<=2||!fdpath(fd,p)||!watched(p)) return syscall(SYS_read,fd,b,n); RD(syscall(SYS_read,fd,b,n),"read",p); }
ssize_t pread64(int fd,void*b,size_t n,off64_t o){ char p[PATH_MAX]; if(!on()||fd<=2||!fdpath(fd,p)||!watched(p)) return syscall(SYS_pread64,fd,b,n,o); RD(syscall(SYS_pread64,fd,b,n,o),"read",p); }
int statx(int d,const char*n,int f,unsigned m,struct statx*s){ 
  const char*volatile nv=n; /* declared never to be NULL, but the runtime probes with NULL */
  if(!on()||!nv) return syscall(SYS_statx,d,n,f,m,s);
  char p[PATH_MAX]; if(n[0]==0&&(f&AT_EMPTY_PATH)){ if(!fdpath(d,p)) return syscall(SYS_statx,d,n,f,m,s); } else abspath(d,n,p);
  if(!watched(p)) return syscall(SYS_statx,d,n,f,m,s); RD(syscall(SYS_statx,d,n,f,m,s),"stat",p); }
int stat64(const char*n,struct stat64*s){ char p[PATH_MAX]; if(!on()) return syscall(SYS_newfstatat,AT_FDCWD,n,s,0); abspath(AT_FDCWD,n,p); if(!watched(p)) return syscall(SYS_newfstatat,AT_FDCWD,n,s,0); RD(syscall(SYS_newfstatat,AT_FDCWD,n,s,0),"stat",p); }
int lstat64(const char*n,struct stat64*s){ char p[PATH_MAX]; if(!on()) return syscall(SYS_newfstatat,AT_FDCWD,n,s,AT_SYMLINK_NOFOLLOW); abspath(AT_FDCWD,n,p); if(!watched(p)) return syscall(SYS_newfstatat,AT_FDCWD,n,s,AT_SYMLINK_NOFOLLOW); RD(syscall(SYS_newfstatat,AT_FDCWD,n,s,AT_SYMLINK_NOFOLLOW),"lstat",p); }
int fsync(int fd){ char p[PATH_MAX]; if(!on()||!fdpath(fd,p)||!watched(p)) return syscall(SYS_fsync,fd); RD(syscall(SYS_fsync,fd),"fsync",p); }
int fdatasync(int fd){ char p[PATH_MAX]; if(!on()||!fdpath(fd,p)||!watched(p)) return syscall(SYS_fdatasync,fd); RD(syscall(SYS_fdatasync,fd),"fsync",p); }
ssize_t readlink(const char*n,char*b,size_t c){ char p[PATH_MAX]; if(!on()) return syscall(SYS_readlink,n,b,c); abspath(AT_FDCWD,n,p); if(!watched(p)) return syscall(SYS_readlink,n,b,c); RD(syscall(SYS_readlink,n,b,c),"readlink",p); }

/* ---------------------------------------------------------------- clock */
int clock_gettime(clockid_t c,struct timespec*ts){
  if(active&&fake&&(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE)){ ts->tv_sec=fake_now; ts->tv_nsec=0; return 0; }
  return syscall(SYS_clock_gettime,c,ts)<0?-1:0; }
time_t time(time_t*t){ struct timespec ts; if(active&&fake) ts.tv_sec=fake_now; else real_now(&ts); if(t)*t=ts.tv_sec; return ts.tv_sec; }
int gettimeofday(struct timeval*tv,void*tz){ (void)tz; struct timespec ts; if(active&&fake){ts.tv_sec=fake_now;ts.tv_nsec=0;} else real_now(&ts); tv->tv_sec=ts.tv_sec; tv->tv_usec=ts.tv_nsec/1000; return 0; }
/* a program that sleeps for ever has to take its time, in the end */
static int sleepless(void){ static int n; return __sync_add_and_fetch(&n,1)<=20000; }
static void slept(int64_t s){ pthread_mutex_lock(&mu); fake_now+=s; char b[96]; snprintf(b,sizeof b,"S\t%lld\t%lld\n",(long long)s,(long long)fake_now); lputs(b); lflush(); pthread_mutex_unlock(&mu); }
int nanosleep(const struct timespec*r,struct timespec*m){ if(on()&&fake&&r->tv_sec>=1&&sleepless()){ slept(r->tv_sec); return 0; } return syscall(SYS_nanosleep,r,m)<0?-1:0; }
int clock_nanosleep(clockid_t c,int f,const struct timespec*r,struct timespec*m){
  if(on()&&fake){ struct timespec n; syscall(SYS_clock_gettime,c,&n); int64_t s=r->tv_sec; if(f&TIMER_ABSTIME){ if(c==CLOCK_REALTIME) s-=fake_now; else { s=r->tv_sec-n.tv_sec; if(r->tv_nsec<n.tv_nsec) s--; s+= (r->tv_nsec!=n.tv_nsec); } } if(s>=1&&sleepless()){ slept(s); return 0; } if(f&TIMER_ABSTIME&&c==CLOCK_REALTIME) return 0; }
  long r2=syscall(SYS_clock_nanosleep,c,f,r,m); return r2<0?errno:0; }
unsigned sleep(unsigned s){ if(on()&&fake&&sleepless()){ slept(s); return 0; } struct timespec t={s,0}; syscall(SYS_nanosleep,&t,NULL); return 0; }

/* ---------------------------------------------------------------- network */
int getaddrinfo(const char*node,const char*svc,const struct addrinfo*h,struct addrinfo**res){
  if(!active||!node) return REAL(getaddrinfo)(node,svc,h,res);
  pthread_mutex_lock(&mu); lputs("G\t"); lesc(node); lputs("\n"); lflush(); pthread_mutex_unlock(&mu);
  if(!net_port) return EAI_NONAME;
  struct addrinfo x; memset(&x,0,sizeof x); if(h) x=*h; x.ai_family=AF_INET; x.ai_flags=AI_NUMERICHOST;
  return REAL(getaddrinfo)("127.0.0.1",svc,&x,res); }
int connect(int fd,const struct sockaddr*a,socklen_t n){
  if(!active||!a||(a->sa_family!=AF_INET&&a->sa_family!=AF_INET6)) return syscall(SYS_connect,fd,a,n);
  if(!net_port||a->sa_family!=AF_INET){ errno=ECONNREFUSED; return -1; }
  struct sockaddr_in x; memset(&x,0,sizeof x); x.sin_family=AF_INET; x.sin_port=htons(net_port); x.sin_addr.s_addr=htonl(INADDR_LOOPBACK);
  return syscall(SYS_connect,fd,&x,sizeof x); }
