/* Deterministic-simulation seam for uCsim.
 *
 * Preloaded into an unmodified simulator binary, this library replaces every
 * libc entry point through which uCsim meets its environment (files, stdin and
 * stdout, sockets, readiness polling, the clock, sleeping) by an in-process
 * model driven by an explicit script (the scenario).  No real descriptor,
 * socket, clock or sleep is used, so one scenario is one exactly repeatable
 * execution.  The library itself takes no random decision: the seeded
 * scheduler (Python side) writes every arrival, delay and fault into the
 * scenario, which therefore is the replay file as well.
 */
#define _GNU_SOURCE
#undef _FORTIFY_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

typedef unsigned char u8;
typedef unsigned long long u64;
typedef long long i64;

enum kind { K_FILE, K_PIPE, K_TTY, K_SOCK, K_LISTEN, K_NULL };
enum opk { O_DATA, O_POLLS, O_TIME, O_OUT, O_CONS, O_ERR, O_EOF, O_RST, O_SHORT, O_CALLS, O_OUTN, O_CONN };

struct op { int k; i64 n; int ep; u8 *b; size_t bl; };

struct wfault { i64 at; int k; /*0 short 1 err 2 full*/ i64 n; };

struct ep {
  char *name;
  int kind;
  struct op *ops; int nops, cur;
  int started;            /* script clock running */
  i64 polls, polls0; u64 t0; i64 calls0;
  u8 *q; size_t ql, qpos, qcap;    /* readable bytes */
  int eof, rst, err, shortn;
  size_t fpos;            /* for files */
  u8 *out; size_t outl, outcap;
  struct { u64 call; size_t pos; } *outev; int noutev, capoutev;
  struct wfault *wf; int nwf;
  struct wfault *rf; int nrf; i64 fread_n;  /* scripted reads of a file */
  i64 writes; int full;
  int port, client, accepted, connected;
  int opened, closed_by_app;
  size_t *ocur;           /* per target ep: cursor for O_OUT */
  i64 nread, lateread;
  int append;
  i64 wouldblock, deadreads;
};

struct vfd { int used; int ep; int flags; size_t pos; int refs; int lport; };

#define MAXFD 200
static struct vfd fds[MAXFD];
#define MAXEP 256
static struct ep *eps[MAXEP]; static int neps;

static u64 vtime, tick_ns= 1000, epoch0= 1700000000ULL*1000000000ULL;
static i64 skew;
static i64 calls, calls_limit= 4000000, selects, clocks, sleeps, opens, accepts;
static int active;
static int tracefd= -1;
static u64 hash= 1469598103934665603ULL;
static int finished;
static u64 sleep_ns;
static i64 max_idle; 

struct gf { i64 at; int k; i64 n; };
#define MAXGF 512
static struct gf self_[MAXGF], clkf[MAXGF], slpf[MAXGF], opnf[MAXGF], accf[MAXGF], sockf[MAXGF];
static int nself, nclkf, nslpf, nopnf, naccf, nsockf;
static i64 sockets;
static char *openfail_path[64]; static int openfail_err[64]; static int nopenfail;

/* fault counters */
#define NFC 32
static const char *fc_name[NFC]; static i64 fc_cnt[NFC]; static int nfc;
static void fault(const char *n)
{
  int i;
  for (i= 0; i<nfc; i++) if (!strcmp(fc_name[i], n)) { fc_cnt[i]++; return; }
  if (nfc<NFC) { fc_name[nfc]= n; fc_cnt[nfc++]= 1; }
}

static void hb(const void *p, size_t n)
{
  const u8 *b= p;
  while (n--) { hash^= *b++; hash*= 1099511628211ULL; }
}
static FILE *evlog;
static void ev(char t, int e, i64 a, i64 b)
{
  i64 v[4]= { t, e, a, b };
  hb(v, sizeof v);
  if (tracefd>=0)
    {
      char s[160];
      int n= snprintf(s, sizeof s, "%lld %c %s %lld %lld\n", calls, t, (e>=0&&e<neps)?eps[e]->name:"-", a, b);
      syscall(SYS_write, tracefd, s, n);
    }
}

static void finish(const char *reason, i64 code);

static void *xrealloc(void *p, size_t n) { void *r= realloc(p, n); if (!r) syscall(SYS_exit_group, 99); return r; }

static void addq(struct ep *e, const u8 *b, size_t n)
{
  if (e->ql+n > e->qcap) { e->qcap= (e->ql+n)*2+64; e->q= xrealloc(e->q, e->qcap); }
  memcpy(e->q+e->ql, b, n); e->ql+= n;
}
static void addout(struct ep *e, const u8 *b, size_t n)
{
  if (!n) return;
  if (e->outl+n > e->outcap) { e->outcap= (e->outl+n)*2+256; e->out= xrealloc(e->out, e->outcap); }
  memcpy(e->out+e->outl, b, n); e->outl+= n;
  if (e->noutev >= e->capoutev) { e->capoutev= e->capoutev*2+64; e->outev= xrealloc(e->outev, e->capoutev*sizeof e->outev[0]); }
  e->outev[e->noutev].call= calls; e->outev[e->noutev].pos= e->outl; e->noutev++;
}

static int avail(struct ep *e) { return e->ql > e->qpos; }

/* run the endpoint's script as far as its conditions allow */
static int progress(int ei)
{
  struct ep *e= eps[ei];
  int moved= 0;
  if (!e->started) return 0;
  while (e->cur < e->nops)
    {
      struct op *o= &e->ops[e->cur];
      int done= 0;
      switch (o->k)
        {
        case O_DATA: addq(e, o->b, o->bl); done= 1; ev('d', ei, o->bl, 0); break;
        case O_POLLS: done= (e->polls - e->polls0 >= o->n); break;
        case O_TIME: done= (vtime - e->t0 >= (u64)o->n); break;
        case O_CALLS: done= (calls - e->calls0 >= o->n); break;
        case O_OUT:
          {
            struct ep *t= eps[o->ep];
            size_t *c= &e->ocur[o->ep];
            if (t->outl >= *c + o->bl)
              {
                u8 *f= memmem(t->out + *c, t->outl - *c, o->b, o->bl);
                if (f) { *c= (f - t->out) + o->bl; done= 1; }
              }
            break;
          }
        case O_OUTN: done= (eps[o->ep]->outl >= (size_t)o->n); break;
        case O_CONS: { struct ep *t= eps[o->ep]; done= (t->cur>=t->nops) && (!avail(t) || (t->accepted && t->closed_by_app)); break; }
        case O_CONN: done= eps[o->ep]->accepted; break;
        case O_ERR: if (avail(e)) break; if (!e->err) { e->err= o->n; done= 1; } break;
        case O_EOF: if (avail(e)) break; e->eof= 1; done= 1; ev('x', ei, 0, 0); fault(e->kind==K_SOCK?"peer_close":"eof"); break;
        case O_RST: e->rst= 1; e->qpos= e->ql; done= 1; ev('r', ei, 0, 0); fault("conn_reset"); break;
        case O_SHORT: e->shortn= o->n; done= 1; break;
        }
      if (e->accepted && e->closed_by_app && e->kind==K_SOCK && o->k != O_RST) done= 1;  /* nobody listens to this peer any more */
      if (!done) break;
      e->cur++; moved= 1;
      e->polls0= e->polls; e->t0= vtime; e->calls0= calls;
    }
  return moved;
}
static void progress_all(void)
{
  int i, again, g= 0;
  do { again= 0; for (i= 0; i<neps; i++) again|= progress(i); } while (again && ++g<100);
}

static void step(void)
{
  calls++;
  vtime+= tick_ns;
  if (calls > calls_limit) finish("limit", 0);
  progress_all();
}

/* blocking wait: nothing readable and the caller blocks.  Let time pass until a
   script moves; if only an event the blocked process itself must cause can move
   one, it is a deadlock. */
static void block_on(struct ep *e)
{
  int g;
  e->wouldblock++;
  for (g= 0; g<100000; g++)
    {
      if (avail(e) || e->eof || e->rst || e->err) return;
      vtime+= 1000000; e->polls++; 
      calls++;
      progress_all();
    }
  finish("blocked", 0);
}

static int find_ep(const char *n)
{
  int i;
  for (i= 0; i<neps; i++) if (!strcmp(eps[i]->name, n)) return i;
  return -1;
}
static int get_ep(const char *n, int kind)
{
  int i= find_ep(n);
  if (i>=0) return i;
  if (neps>=MAXEP) syscall(SYS_exit_group, 98);
  struct ep *e= calloc(1, sizeof *e);
  e->name= strdup(n); e->kind= kind; e->port= -1;
  e->ocur= calloc(MAXEP, sizeof(size_t));
  eps[neps]= e;
  return neps++;
}
static void start_ep(int i)
{
  struct ep *e= eps[i];
  if (!e->started) { e->started= 1; e->polls0= e->polls; e->t0= vtime; e->calls0= calls; progress(i); }
}

static int newfd(int e)
{
  int i;
  for (i= 3; i<MAXFD; i++)
    if (!fds[i].used) { fds[i].used= 1; fds[i].ep= e; fds[i].pos= 0; fds[i].flags= 0; fds[i].lport= 0; return i; }
  errno= EMFILE; return -1;
}

static struct ep *fdep(int fd)
{
  if (fd<0 || fd>=MAXFD || !fds[fd].used || fds[fd].ep<0) return NULL;
  return eps[fds[fd].ep];
}

/* ---------------------------------------------------------------- scenario */
static int hexv(int c) { return c<='9'?c-'0':(c|32)-'a'+10; }
static u8 *unhex(const char *s, size_t *l)
{
  size_t n= strlen(s)/2, i; u8 *b;
  if (*s=='-' || *s==0) { *l= 0; return calloc(1,1); }
  b= malloc(n+1);
  for (i= 0; i<n; i++) b[i]= hexv(s[2*i])*16+hexv(s[2*i+1]);
  *l= n; b[n]= 0;
  return b;
}
static char *tok(char **p)
{
  char *s= *p, *r;
  while (*s==' ') s++;
  if (!*s) return NULL;
  r= s; while (*s && *s!=' ') s++;
  if (*s) *s++= 0;
  *p= s; return r;
}
static int parse_kind(const char *k)
{
  if (!strcmp(k,"file")) return K_FILE;
  if (!strcmp(k,"pipe")) return K_PIPE;
  if (!strcmp(k,"tty")) return K_TTY;
  if (!strcmp(k,"sock")) return K_SOCK;
  if (!strcmp(k,"listen")) return K_LISTEN;
  return K_NULL;
}
static void gfadd(struct gf *a, int *n, i64 at, int k, i64 v)
{
  if (*n<MAXGF) { a[*n].at= at; a[*n].k= k; a[*n].n= v; (*n)++; }
}
static struct gf *gfhit(struct gf *a, int n, i64 at)
{
  int i; for (i= 0; i<n; i++) if (a[i].at==at) return &a[i];
  return NULL;
}
static char *respath;
static void load(const char *path)
{
  int fd= syscall(SYS_open, path, O_RDONLY), r; size_t n= 0, cap= 1<<16; char *b= malloc(cap), *line, *save;
  if (fd<0) syscall(SYS_exit_group, 97);
  while ((r= syscall(SYS_read, fd, b+n, cap-n-1))>0) { n+= r; if (cap-n<4096) b= xrealloc(b, cap*= 2); }
  syscall(SYS_close, fd);
  b[n]= 0;
  for (line= strtok_r(b, "\n", &save); line; line= strtok_r(NULL, "\n", &save))
    {
      char *p= line, *c= tok(&p);
      if (!c || *c=='#') continue;
      if (!strcmp(c,"tick")) tick_ns= atoll(tok(&p));
      else if (!strcmp(c,"epoch")) epoch0= atoll(tok(&p));
      else if (!strcmp(c,"limit")) calls_limit= atoll(tok(&p));
      else if (!strcmp(c,"file") || !strcmp(c, "ep"))
        {
          char *nm= tok(&p), *kd= tok(&p), *h;
          int e= get_ep(nm, parse_kind(kd));
          eps[e]->kind= parse_kind(kd);
          if ((h= tok(&p))) { size_t l; u8 *d= unhex(h, &l); addq(eps[e], d, l); }
        }
      else if (!strcmp(c,"client"))
        { /* client <name> <port> */
          char *nm= tok(&p); int e= get_ep(nm, K_SOCK);
          eps[e]->port= atoi(tok(&p)); eps[e]->kind= K_SOCK;
          eps[e]->client= 1; eps[e]->started= 1;
        }
      else if (!strcmp(c,"in"))
        {
          char *nm= tok(&p), *k= tok(&p), *a= tok(&p), *a2= tok(&p);
          struct ep *e= eps[get_ep(nm, K_PIPE)];
          struct op o; memset(&o, 0, sizeof o);
          switch (*k)
            {
            case 'd': o.k= O_DATA; o.b= unhex(a, &o.bl); break;
            case 'p': o.k= O_POLLS; o.n= atoll(a); break;
            case 't': o.k= O_TIME; o.n= atoll(a); break;
            case 'c': o.k= O_CALLS; o.n= atoll(a); break;
            case 'o': o.k= O_OUT; o.ep= get_ep(a, K_PIPE); o.b= unhex(a2, &o.bl); break;
            case 'n': o.k= O_OUTN; o.ep= get_ep(a, K_PIPE); o.n= atoll(a2); break;
            case 'q': o.k= O_CONS; o.ep= get_ep(a, K_PIPE); break;
            case 'a': o.k= O_CONN; o.ep= get_ep(a, K_SOCK); break;
            case 'e': o.k= O_ERR; o.n= atoll(a); break;
            case 'x': o.k= O_EOF; break;
            case 'r': o.k= O_RST; break;
            case 'z': o.k= O_SHORT; o.n= atoll(a); break;
            case 'C': o.k= O_DATA; o.b= calloc(1,1); o.bl= 0; o.n= 1; break; /* connect */
            }
          e->ops= xrealloc(e->ops, (e->nops+1)*sizeof(struct op));
          e->ops[e->nops++]= o;
        }
      else if (!strcmp(c,"w"))
        {
          struct ep *e= eps[get_ep(tok(&p), K_PIPE)];
          i64 at= atoll(tok(&p)); char *k= tok(&p); char *a= tok(&p);
          struct wfault f= { at, !strcmp(k,"short")?0:!strcmp(k,"err")?1:2, a?atoll(a):0 };
          e->wf= xrealloc(e->wf, (e->nwf+1)*sizeof f); e->wf[e->nwf++]= f;
        }
      else if (!strcmp(c,"r"))
        { /* r <file> <kth read> short|err <n> */
          struct ep *e= eps[get_ep(tok(&p), K_FILE)];
          i64 at= atoll(tok(&p)); char *k= tok(&p); char *a= tok(&p);
          struct wfault f= { at, !strcmp(k,"short")?0:1, a?atoll(a):0 };
          e->rf= xrealloc(e->rf, (e->nrf+1)*sizeof f); e->rf[e->nrf++]= f;
        }
      else if (!strcmp(c,"f"))
        { /* f select|clock|sleep|open|accept|socket <at> <kind> <n> */
          char *w= tok(&p); i64 at= atoll(tok(&p)); int k= atoi(tok(&p)); i64 n= atoll(tok(&p));
          if (!strcmp(w,"select")) gfadd(self_, &nself, at, k, n);
          else if (!strcmp(w,"clock")) gfadd(clkf, &nclkf, at, k, n);
          else if (!strcmp(w,"sleep")) gfadd(slpf, &nslpf, at, k, n);
          else if (!strcmp(w,"open")) gfadd(opnf, &nopnf, at, k, n);
          else if (!strcmp(w,"accept")) gfadd(accf, &naccf, at, k, n);
          else if (!strcmp(w,"socket")) gfadd(sockf, &nsockf, at, k, n);
        }
      else if (!strcmp(c,"openfail"))
        { openfail_path[nopenfail]= strdup(tok(&p)); openfail_err[nopenfail++]= atoi(tok(&p)); }
    }
  free(b);
}

/* ---------------------------------------------------------------- results */
static char rbuf[1<<16]; static size_t rn; static int rfd= -1;
static void rflush(void) { size_t o= 0; while (o<rn) { long w= syscall(SYS_write, rfd, rbuf+o, rn-o); if (w<=0) break; o+= w; } rn= 0; }
static void rputs(const char *s) { while (*s) { if (rn>=sizeof rbuf) rflush(); rbuf[rn++]= *s++; } }
static void rhex(const u8 *b, size_t n)
{
  static const char h[]= "0123456789abcdef";
  while (n--) { if (rn+2>=sizeof rbuf) rflush(); rbuf[rn++]= h[*b>>4]; rbuf[rn++]= h[*b++&15]; }
}
static void results(const char *reason, i64 code)
{
  char s[300]; int i, j;
  rfd= syscall(SYS_open, respath, O_WRONLY|O_CREAT|O_TRUNC, 0644);
  if (rfd<0) return;
  snprintf(s, sizeof s, "end %s %lld\n", reason, code); rputs(s);
  snprintf(s, sizeof s, "stat calls %lld\nstat vtime %llu\nstat selects %lld\nstat clocks %lld\nstat sleeps %lld\nstat sleep_ns %llu\nstat opens %lld\n",
           calls, vtime, selects, clocks, sleeps, sleep_ns, opens); rputs(s);
  for (i= 0; i<nfc; i++) { snprintf(s, sizeof s, "fault %s %lld\n", fc_name[i], fc_cnt[i]); rputs(s); }
  for (i= 0; i<neps; i++)
    {
      struct ep *e= eps[i];
      hb(e->out, e->outl);
      for (char *q= e->name; *q; q++) if ((unsigned char)*q <= ' ') *q= '_';	/* names made from rubbish; the run is over */
      snprintf(s, sizeof s, "ep %s %d %d %d %lld %lld %lld %d %d %d %lld %lld ", e->name, e->cur, e->nops, (int)(e->ql-e->qpos), e->nread, e->polls, e->writes, e->accepted, e->opened, e->closed_by_app, e->wouldblock, e->deadreads);
      rputs(s); rputs("h"); rhex(e->out, e->outl); rputs(" ");
      for (j= 0; j<e->noutev && j<20000; j++)
        if (j+1==e->noutev || e->outev[j+1].call!=e->outev[j].call) { snprintf(s, sizeof s, "%llu:%zu,", e->outev[j].call, e->outev[j].pos); rputs(s); }
      rputs("\n");
    }
  snprintf(s, sizeof s, "hash %016llx\n", hash); rputs(s);
  rflush();
  syscall(SYS_close, rfd);
}
static void finish(const char *reason, i64 code)
{
  if (!active || finished) { syscall(SYS_exit_group, 96); }
  finished= 1;
  results(reason, code);
  syscall(SYS_exit_group, 0);
}
static void atexit_fn(void)
{
  if (active && !finished) { fflush(NULL); finished= 1; results("exit", 0); }
}
static void onsig(int s)
{
  if (active && !finished) { finished= 1; results("signal", s); }
  syscall(SYS_exit_group, 128+s);
}

/* stdio on virtual descriptors */
struct ck { int fd; };
ssize_t read(int fd, void *b, size_t n);
ssize_t write(int fd, const void *b, size_t n);
int close(int fd);
static ssize_t ck_read(void *c, char *b, size_t n) { return read(((struct ck*)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r= write(((struct ck*)c)->fd, b, n); return r<0?0:r; }
static int ck_seek(void *c, off64_t *o, int w)
{
  int fd= ((struct ck*)c)->fd; struct ep *e= fdep(fd);
  if (!e || e->kind!=K_FILE) { errno= ESPIPE; return -1; }
  if (w==SEEK_SET) fds[fd].pos= *o; else if (w==SEEK_CUR) fds[fd].pos+= *o; else fds[fd].pos= e->ql + *o;
  *o= fds[fd].pos; return 0;
}
static int ck_close(void *c) { int r= close(((struct ck*)c)->fd); free(c); return r; }

static FILE *ck_open(int fd, const char *mode)
{
  cookie_io_functions_t io= { ck_read, ck_write, ck_seek, ck_close };
  struct ck *c= malloc(sizeof *c); c->fd= fd;
  FILE *f= fopencookie(c, mode, io);
  if (f) f->_fileno= -2;   /* ordinary cookie: no descriptor */
  return f;
}

static FILE *vstdout, *vstdin, *vstderr;

__attribute__((constructor)) static void ctor(void)
{
  char *s= getenv("DST_SCN"), *t= getenv("DST_RES"), *tr= getenv("DST_TRACE");
  int i;
  if (!s || !t) return;
  respath= strdup(t);
  get_ep("stdin", K_NULL); get_ep("stdout", K_PIPE); get_ep("stderr", K_PIPE);
  load(s);
  if (tr) tracefd= syscall(SYS_open, tr, O_WRONLY|O_CREAT|O_TRUNC, 0644);
  for (i= 0; i<3; i++) { fds[i].used= 1; fds[i].ep= i; }
  unsetenv("DST_SCN"); unsetenv("DST_RES"); unsetenv("DST_TRACE"); unsetenv("LD_PRELOAD");
  vstdout= ck_open(1, "w"); setvbuf(vstdout, NULL, _IOFBF, 4096);
  vstderr= ck_open(2, "w"); setvbuf(vstderr, NULL, _IONBF, 0);
  stdout= vstdout; stderr= vstderr;
  signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig); signal(SIGILL, onsig);
  active= 1;
  atexit(atexit_fn);
  for (i= 0; i<3; i++) { start_ep(i); eps[i]->opened= 1; }
}

/* ---------------------------------------------------------------- seam */
int fileno(FILE *f)
{
  if (f==stdin) return 0;
  if (active && f==vstdout) return 1;
  if (active && f==vstderr) return 2;
  return f->_fileno;
}

int open(const char *path, int flags, ...)
{
  int i, e, fd;
  struct gf *g;
  if (!active)
    { va_list ap; va_start(ap, flags); int m= va_arg(ap, int); va_end(ap); long r= syscall(SYS_openat, AT_FDCWD, path, flags, m); if (r<0) { errno= -r; return -1; } return r; }
  opens++; step();
  if ((g= gfhit(opnf, nopnf, opens))) { fault("open_error"); errno= g->n; ev('O', -1, -g->n, 0); return -1; }
  for (i= 0; i<nopenfail; i++) if (!strcmp(openfail_path[i], path)) { fault("open_error"); errno= openfail_err[i]; return -1; }
  e= find_ep(path);
  if (e<0)
    {
      if (!(flags & O_CREAT)) { errno= ENOENT; return -1; }
      e= get_ep(path, K_FILE);
    }
  fd= newfd(e);
  if (fd<0) return -1;
  fds[fd].flags= flags;
  if (eps[e]->kind==K_FILE && (flags & O_TRUNC)) { eps[e]->ql= eps[e]->qpos= 0; eps[e]->outl= 0; }
  if (flags & O_APPEND) fds[fd].pos= eps[e]->ql;
  eps[e]->opened++;
  start_ep(e);
  ev('o', e, fd, flags);
  return fd;
}
int open64(const char *path, int flags, ...) { return open(path, flags, 0644); }

FILE *fopen(const char *path, const char *mode)
{
  int fd, fl;
  fl= mode[0]=='r'?O_RDONLY:(mode[0]=='a'?O_WRONLY|O_CREAT|O_APPEND:O_WRONLY|O_CREAT|O_TRUNC);
  if (!active) { fd= open(path, fl, 0644); return fd<0?NULL:fdopen(fd, mode); }
  fd= open(path, fl, 0644);
  if (fd<0) return NULL;
  char m[3]= { mode[0], 0, 0 };
  FILE *f= ck_open(fd, m);
  if (f) f->_fileno= fd;
  return f;
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }

int close(int fd)
{
  struct ep *e;
  if (!active) return syscall(SYS_close, fd);
  step();
  if (fd<0 || fd>=MAXFD || !fds[fd].used) { errno= EBADF; ev('C', -1, fd, -1); fault("close_ebadf"); return -1; }
  e= fdep(fd);
  ev('C', fds[fd].ep, fd, 0);
  fds[fd].used= 0;
  if (e) e->closed_by_app++;
  return 0;
}

ssize_t read(int fd, void *b, size_t n)
{
  struct ep *e; size_t m;
  if (!active) { long r= syscall(SYS_read, fd, b, n); return r; }
  e= fdep(fd);
  if (!e) { step(); errno= EBADF; return -1; }
  e->polls++;
  step();
  if (e->kind==K_FILE)
    {
      size_t *pos= &fds[fd].pos;
      if (e->err) { errno= e->err; e->err= 0; fault("read_error"); ev('R', fds[fd].ep, -errno, 0); return -1; }
      m= *pos < e->ql ? e->ql - *pos : 0;
      if (m>n) m= n;
      for (int i= 0, at= ++e->fread_n; i<e->nrf; i++)
        if (e->rf[i].at==at)
          {
            if (e->rf[i].k) { errno= e->rf[i].n; fault(errno==EINTR?"read_eintr":errno==EAGAIN?"read_eagain":"read_error"); ev('R', fds[fd].ep, -errno, 0); return -1; }
            if (m>(size_t)e->rf[i].n) { m= e->rf[i].n; fault("short_read"); }
          }
      if (e->shortn && m) { if ((size_t)e->shortn<m) { m= e->shortn; fault("short_read"); } e->shortn= 0; }
      memcpy(b, e->q + *pos, m); *pos+= m; e->nread+= m;
      ev('R', fds[fd].ep, m, 0);
      return m;
    }
  if (e->kind==K_NULL) { ev('R', fds[fd].ep, 0, 0); return 0; }
  if (!avail(e) && !e->eof && !e->rst && !e->err) block_on(e);
  if (e->err) { errno= e->err; e->err= 0; fault(errno==EINTR?"read_eintr":"read_error"); ev('R', fds[fd].ep, -errno, 0); return -1; }
  if (e->rst) { e->deadreads++; errno= ECONNRESET; ev('R', fds[fd].ep, -errno, 0); return -1; }
  m= e->ql - e->qpos;
  if (!m && e->eof) { e->deadreads++; ev('R', fds[fd].ep, 0, 0); return 0; }
  if (m>n) m= n;
  if (e->shortn) { if ((size_t)e->shortn<m) { m= e->shortn; fault("short_read"); } e->shortn= 0; }
  memcpy(b, e->q+e->qpos, m); e->qpos+= m; e->nread+= m;
  ev('R', fds[fd].ep, m, 0); hb(b, m);
  return m;
}

ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { if (n > bl) abort(); return read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n)
{
  struct ep *e; int i; size_t m= n;
  if (!active) return syscall(SYS_write, fd, b, n);
  e= fdep(fd);
  step();
  if (!e) { errno= EBADF; fault("write_ebadf"); return -1; }
  e->writes++;
  if (e->full) { errno= ENOSPC; fault("write_enospc"); ev('W', fds[fd].ep, -errno, n); return -1; }
  for (i= 0; i<e->nwf; i++)
    if (e->wf[i].at==e->writes)
      {
        if (e->wf[i].k==0) { if ((size_t)e->wf[i].n<m) { m= e->wf[i].n; fault("short_write"); } }
        else if (e->wf[i].k==1) { errno= e->wf[i].n; fault(errno==EINTR?"write_eintr":errno==EAGAIN?"write_eagain":"write_error"); ev('W', fds[fd].ep, -errno, n); return -1; }
        else { e->full= 1; errno= ENOSPC; fault("write_enospc"); ev('W', fds[fd].ep, -errno, n); return -1; }
      }
  if (e->kind==K_SOCK && (e->rst || e->eof) ) { errno= e->rst?ECONNRESET:EPIPE; if (e->rst) { fault("write_to_dead_peer"); ev('W', fds[fd].ep, -errno, n); return -1; } }
  if (e->kind==K_FILE && m)
    {
      size_t *pos= &fds[fd].pos;
      if (fds[fd].flags & O_APPEND) *pos= e->ql;
      if (*pos > e->ql) { u8 z= 0; while (e->ql < *pos) addq(e, &z, 1); }
      size_t ov= *pos < e->ql ? e->ql - *pos : 0; if (ov>m) ov= m;
      memcpy(e->q + *pos, b, ov); if (m>ov) addq(e, (const u8*)b+ov, m-ov);
      *pos+= m;
    }
  addout(e, b, m);
  ev('W', fds[fd].ep, m, n);
  progress_all();
  return m;
}

static int rready(int fd)
{
  struct ep *e= fdep(fd);
  if (fds[fd].lport)
    {
      int i; for (i= 0; i<neps; i++) if (eps[i]->client && eps[i]->port==fds[fd].lport && !eps[i]->accepted && eps[i]->connected) return 1;
      return 0;
    }
  if (!e) return 0;
  if (e->kind==K_FILE || e->kind==K_NULL) return 1;
  return avail(e) || e->eof || e->rst || e->err;
}

/* a client is waiting in the backlog once its script passed its leading waits */
static void update_connect(void)
{
  int i;
  for (i= 0; i<neps; i++)
    {
      struct ep *e= eps[i];
      if (e->client && !e->connected)
        {
          int k;
          for (k= 0; k<e->cur; k++) if (e->ops[k].k==O_DATA && e->ops[k].n==1) { e->connected= 1; ev('c', i, 0, 0); break; }
        }
    }
}

int select(int nfds, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
  int i, n= 0, dead= 1;
  struct gf *g;
  fd_set ro, wo;
  if (!active) return syscall(SYS_select, nfds, r, w, x, tv);
  selects++;
  for (i= 0; r && i<nfds && i<MAXFD; i++)
    if (FD_ISSET(i, r)) { struct ep *e= fdep(i); if (e) e->polls++; if (fds[i].lport) { int k; for (k= 0; k<neps; k++) if (eps[k]->client && eps[k]->port==fds[i].lport && !eps[k]->accepted) eps[k]->polls++; } }
  step(); update_connect();
  if ((g= gfhit(self_, nself, selects))) { fault(g->n==EINTR?"select_eintr":"select_error"); errno= g->n; ev('S', -1, -g->n, selects); return -1; }
  FD_ZERO(&ro); FD_ZERO(&wo);
  for (i= 0; i<nfds && i<MAXFD; i++)
    {
      if (r && FD_ISSET(i, r))
        {
          if (!fds[i].used) { errno= EBADF; fault("select_ebadf"); return -1; }
          if (rready(i)) { FD_SET(i, &ro); n++; } else dead= 0;
        }
      if (w && FD_ISSET(i, w)) { FD_SET(i, &wo); n++; }
    }
  (void)dead;
  if (!n && tv) vtime+= tv->tv_sec*1000000000ULL + tv->tv_usec*1000ULL;
  if (r) *r= ro;
  if (w) *w= wo;
  if (x) FD_ZERO(x);
  ev('S', -1, n, 0);
  return n;
}

int isatty(int fd)
{
  struct ep *e;
  if (!active) return 0;
  e= fdep(fd);
  if (e && e->kind==K_TTY) return 1;
  errno= ENOTTY;
  return 0;
}

static void fillstat(struct stat *st, struct ep *e, int fd)
{
  memset(st, 0, sizeof *st);
  st->st_mode= 0644;
  if (!e) { st->st_mode|= fds[fd].lport||1?S_IFSOCK:0; return; }
  switch (e->kind)
    {
    case K_FILE: st->st_mode|= S_IFREG; st->st_size= e->ql; break;
    case K_PIPE: st->st_mode|= S_IFIFO; break;
    case K_TTY: case K_NULL: st->st_mode|= S_IFCHR; break;
    default: st->st_mode|= S_IFSOCK;
    }
}
int fstat(int fd, struct stat *st)
{
  if (!active) return syscall(SYS_fstat, fd, st);
  if (fd<0 || fd>=MAXFD || !fds[fd].used) { errno= EBADF; return -1; }
  fillstat(st, fdep(fd), fd);
  return 0;
}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat*)st); }
int stat(const char *p, struct stat *st)
{
  int e;
  if (!active) return syscall(SYS_stat, p, st);
  e= find_ep(p); if (e<0) { errno= ENOENT; return -1; }
  fillstat(st, eps[e], 0); return 0;
}

int socket(int d, int t, int p)
{
  struct gf *g; int fd;
  sockets++; step();
  if ((g= gfhit(sockf, nsockf, sockets))) { fault("socket_error"); errno= g->n; return -1; }
  fd= newfd(-1);
  ev('s', -1, fd, 0);
  return fd;
}
int setsockopt(int fd, int l, int o, const void *v, socklen_t n) { return 0; }
int bind(int fd, const struct sockaddr *a, socklen_t n)
{
  int i, port= ntohs(((struct sockaddr_in*)a)->sin_port);
  step();
  for (i= 0; i<MAXFD; i++) if (fds[i].used && fds[i].lport==port) { errno= EADDRINUSE; return -1; }
  fds[fd].lport= port; ev('b', -1, port, 0);
  return 0;
}
int listen(int fd, int n) { step(); return 0; }
int accept(int fd, struct sockaddr *a, socklen_t *l)
{
  int i, nf; struct gf *g;
  accepts++; step(); update_connect();
  if ((g= gfhit(accf, naccf, accepts))) { fault("accept_error"); errno= g->n; return -1; }
  for (i= 0; i<neps; i++)
    if (eps[i]->client && eps[i]->port==fds[fd].lport && eps[i]->connected && !eps[i]->accepted)
      {
        nf= newfd(i); if (nf<0) return -1;
        eps[i]->accepted= 1; eps[i]->opened++;
        ev('A', i, nf, 0);
        return nf;
      }
  finish("blocked_accept", 0);
  return -1;
}
int shutdown(int fd, int how)
{
  step();
  if (fd<0 || fd>=MAXFD || !fds[fd].used) { errno= EBADF; return -1; }
  ev('h', fds[fd].ep, how, 0); return 0;
}
int tcgetattr(int fd, struct termios *t) { if (!active) { errno= ENOTTY; return -1; } memset(t, 0, sizeof *t); return isatty(fd)?0:-1; }
int tcsetattr(int fd, int a, const struct termios *t) { if (!active) { errno= ENOTTY; return -1; } return isatty(fd)?0:-1; }

static u64 now(void)
{
  struct gf *g;
  clocks++;
  if ((g= gfhit(clkf, nclkf, clocks))) { skew+= g->n; fault(g->n<0?"clock_back":"clock_forward"); }
  return epoch0 + vtime + skew;
}
int gettimeofday(struct timeval *tv, void *tz)
{
  u64 t;
  if (!active) return syscall(SYS_gettimeofday, tv, tz);
  step(); t= now();
  tv->tv_sec= t/1000000000ULL; tv->tv_usec= (t%1000000000ULL)/1000; return 0;
}
time_t time(time_t *p)
{
  time_t t;
  if (!active) { t= 0; syscall(SYS_time, &t); }
  else { step(); t= now()/1000000000ULL; }
  if (p) *p= t;
  return t;
}
int clock_gettime(clockid_t c, struct timespec *ts)
{
  u64 t;
  if (!active || c == CLOCK_MONOTONIC /* only the address sanitizer asks it */) return syscall(SYS_clock_gettime, c, ts);
  step(); t= now(); ts->tv_sec= t/1000000000ULL; ts->tv_nsec= t%1000000000ULL; return 0;
}
int nanosleep(const struct timespec *t, struct timespec *rem)
{
  u64 ns; struct gf *g;
  if (!active) return syscall(SYS_nanosleep, t, rem);
  ns= t->tv_sec*1000000000ULL + t->tv_nsec;
  sleeps++; step();
  if ((g= gfhit(slpf, nslpf, sleeps)))
    {
      if (g->k==0) { fault("sleep_eintr"); errno= EINTR; ev('z', -1, -1, 0); return -1; }
      fault("stall"); vtime+= g->n; sleep_ns+= g->n;
    }
  vtime+= ns; sleep_ns+= ns; progress_all();
  ev('z', -1, ns, 0);
  return 0;
}
int usleep(useconds_t u) { struct timespec t= { u/1000000, (u%1000000)*1000 }; return nanosleep(&t, NULL); }
pid_t fork(void) { if (active) { fault("fork_error"); errno= EAGAIN; return -1; } return syscall(SYS_fork); }
int pipe(int p[2]) { if (active) { fault("pipe_error"); errno= EMFILE; return -1; } return syscall(SYS_pipe2, p, 0); }
int pipe2(int p[2], int fl) { if (active) { fault("pipe_error"); errno= EMFILE; return -1; } return syscall(SYS_pipe2, p, fl); }
void _exit(int c) { if (active && !finished) { finished= 1; results("_exit", c); } syscall(SYS_exit_group, c); __builtin_unreachable(); }
void exit(int c)
{
  static void (*rexit)(int) __attribute__((noreturn));
  extern void *dlsym(void*, const char*);
  if (active && !finished) ev('E', -1, c, 0);
  rexit= (void(*)(int))dlsym((void*)-1L, "exit");
  rexit(c);
}
