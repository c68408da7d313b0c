// Virtual environment: see env.h.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <netdb.h>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <arpa/inet.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/sendfile.h>
#include <sys/time.h>
#include <sys/uio.h>
#include "env.h"

#define W __attribute__((weak))

int ve_faults; unsigned ve_fault_mask; int ve_faulted; const char *ve_fault_last;
void (*ve_hook)(int, vnode *, const char *);
void (*ve_open_hook)(vnode *, const char *);
int (*ve_system_hook)(const char *);
void (*ve_exec_hook)(const char *, char *const *);
void (*ve_exit_hook)(int);
int (*ve_thread_hook)(void *(*)(void *), void *);
int (*ve_accept_hook)(void);
void (*ve_sleep_hook)(void);
void (*ve_pipe_hook)(int);
int ve_nsystem; char *ve_system_cmd[64];
int ve_fork_ret = 4242, ve_wait_status;
long ve_time = 1700000000, ve_time_nsec; int ve_sleeps;
ve_out ve_stdout, ve_stderr;
const char *ve_stdin = ""; size_t ve_stdin_len, ve_stdin_pos; int ve_stdin_err;
char *ve_cwd_path;

static vnode *root; static vnode *cwd; static long next_ino = 2;

int ve_fault(unsigned kind, const char *what) {
    if (!(ve_fault_mask & kind) || ve_faulted >= ve_faults) return 0;
    if (v_choose(2) == 0) return 0;
    ve_faulted++;
    ve_fault_last = what;
    return 1;
}

// a failing call sets any of the error numbers that it may set
static int any_(const char *set) { char c; v_sym(&c, 1); int in = 0; for (; *set; set++) in |= c == *set; v_assume(in); return c; }
#define ANY(...) any_((const char[]) {__VA_ARGS__, 0})
#define E_PATH ANY(EACCES, EIO, ELOOP, ENAMETOOLONG, ENOMEM)
#define E_MODIFY ANY(EACCES, EPERM, ENOSPC, EROFS, EDQUOT, EIO, ENOMEM)
#define E_OPEN ANY(EACCES, EPERM, EMFILE, ENFILE, EIO, ENOMEM, ELOOP, EOVERFLOW)
#define E_READ ANY(EIO, ENOMEM, ECONNRESET, ETIMEDOUT)
#define E_WRITE ANY(ENOSPC, EIO, EPIPE, EFBIG, EDQUOT, EPERM)
#define E_CLOSE ANY(EIO, ENOSPC, EDQUOT)

// ---- tree
static vnode *mk(vnode *parent, const char *name, int type) {
    vnode *n = calloc(1, sizeof(vnode));
    n->type = type; n->name = strdup(name); n->parent = parent; n->ino = next_ino++; n->sec = 1600000000; n->mode = type == 'd' ? 0777 : 0666;
    if (parent) { vnode **p = &parent->child; while (*p) p = &(*p)->next; *p = n; }
    return n;
}
static vnode *rootn(void) { if (!root) { root = mk(NULL, "", 'd'); root->parent = root; cwd = root; } return root; }
static vnode *lookup(vnode *d, const char *name, size_t len) {
    for (vnode *c = d->child; c; c = c->next) {
        size_t l = strlen(c->name);
        if (l != len) continue;
        int diff = 0;
        for (size_t i = 0; i < l; i++) diff |= c->name[i] ^ name[i];
        if (diff == 0) return c;
    }
    return NULL;
}
// walk: follows intermediate symlinks and, if follow, the last one.  On ENOENT of the last component *parent and last are set.
static vnode *walk(vnode *at, const char *path, int follow, vnode **parent, char *last, int depth) {
    rootn();
    if (parent) *parent = NULL;
    if (depth > 8) { errno = ELOOP; return NULL; }
    size_t i = 0;
    vnode *d = at ? at : cwd;
    if (path[0] == 0) { errno = ENOENT; return NULL; }
    if (path[0] == '/') d = root;
    for (;;) {
        while (path[i] == '/') i++;
        if (path[i] == 0) { if (parent) { *parent = d->parent; if (last) last[0] = 0; } return d; }
        size_t s = i;
        while (path[i] && path[i] != '/') i++;
        size_t len = i - s;
        if (len > 255) { errno = ENAMETOOLONG; return NULL; }
        size_t e = i;
        while (path[e] == '/') e++;
        int islast = path[e] == 0, slash = path[i] == '/';
        if (d->type != 'd') { errno = ENOTDIR; return NULL; }
        vnode *n;
        if (len == 1 && path[s] == '.') n = d;
        else if (len == 2 && path[s] == '.' && path[s + 1] == '.') n = d->parent;
        else n = lookup(d, path + s, len);
        if (n && n->type == 'l' && (!islast || follow || slash)) {
            vnode *pp; char ll[256];
            vnode *t = walk(d, n->target, 1, &pp, ll, depth + 1);
            if (!t) {
                if (islast && parent && errno == ENOENT && pp && ll[0]) { *parent = pp; if (last) strcpy(last, ll); }
                return NULL;
            }
            n = t;
        }
        if (!n) {
            if (islast && parent) {
                *parent = d;
                if (last) { for (size_t k = 0; k < len; k++) last[k] = path[s + k]; last[len] = 0; }
            }
            errno = ENOENT;
            return NULL;
        }
        if (islast) {
            if (slash && n->type != 'd') { errno = ENOTDIR; return NULL; }
            if (parent) { *parent = n == d ? d->parent : d; if (last) last[0] = 0; }
            return n;
        }
        d = n;
    }
}
static vnode *ensure(const char *path, int type) {
    rootn();
    vnode *d = root; size_t i = 0;
    for (;;) {
        while (path[i] == '/') i++;
        size_t s = i;
        while (path[i] && path[i] != '/') i++;
        char nm[256]; memcpy(nm, path + s, i - s); nm[i - s] = 0;
        int islast = path[i] == 0;
        if (i == s) return d;
        vnode *n = lookup(d, nm, i - s);
        if (!n) n = mk(d, nm, islast ? type : 'd');
        if (islast) return n;
        d = n;
    }
}
static void setdata(vnode *n, const char *data, size_t len) {
    n->data = malloc(len + 1); n->cap = len + 1; n->len = len;
    if (len) memcpy(n->data, data, len);
}
vnode *ve_mkdir(const char *path) { return ensure(path, 'd'); }
vnode *ve_file(const char *path, const char *data, size_t len) { vnode *n = ensure(path, 'f'); setdata(n, data, len); return n; }
vnode *ve_text(const char *path, const char *t) { return ve_file(path, t, strlen(t)); }
vnode *ve_link(const char *path, const char *target) { vnode *n = ensure(path, 'l'); n->target = strdup(target); return n; }
vnode *ve_get(const char *path, int follow) { int e = errno; vnode *n = walk(NULL, path, follow, NULL, NULL, 0); errno = e; return n; }
void ve_mtime(vnode *n, long s, long ns) { n->sec = s; n->nsec = ns; }
int ve_inside(vnode *n, const vnode *dir) { for (;;) { if (n == dir) return 1; if (n == n->parent) return 0; n = n->parent; } }
char *ve_path(vnode *n) {
    if (n == root) return strdup("/");
    size_t len = 0;
    for (vnode *k = n; k != root; k = k->parent) len += strlen(k->name) + 1;
    char *r = malloc(len + 1); r[len] = 0;
    for (vnode *k = n; k != root; k = k->parent) { size_t l = strlen(k->name); len -= l; memcpy(r + len, k->name, l); r[--len] = '/'; }
    return r;
}
void ve_remove(vnode *n) { vnode **p = &n->parent->child; while (*p && *p != n) p = &(*p)->next; if (*p) *p = n->next; n->next = NULL; }
void ve_chdir(const char *path) { vnode *n = ve_mkdir(path); cwd = n; }
int ve_count(vnode *d) { int k = 0; for (vnode *c = d->child; c; c = c->next) k++; return k; }
static void hook(int op, vnode *n, const char *p) { if (ve_hook) ve_hook(op, n, p); }

// ---- output buffers
static void out(ve_out *o, const char *s, size_t n) {
    if (o->n + n + 1 > o->cap) {
        size_t c = (o->n + n + 1) * 2 + 64;
        char *t = malloc(c);
        if (o->n) memcpy(t, o->s, o->n);
        free(o->s); o->s = t; o->cap = c;
    }
    if (n) memcpy(o->s + o->n, s, n);
    o->n += n;
    o->s[o->n] = 0;
}

// ---- descriptors
int ve_sock_blocks; void (*ve_close_hook)(int); void (*ve_yield_hook)(const char *); int (*ve_join_hook)(unsigned long); int ve_gai_fail; const char *ve_gai_host, *ve_gai_service;
static void yield_(const char *w) { if (ve_yield_hook) ve_yield_hook(w); }
enum { FD_FREE, FD_FILE, FD_IN, FD_SOCK, FD_PIPE_R, FD_PIPE_W };
typedef struct { int kind; vnode *n; size_t pos; int wr, rd, app, ioerr; const char *data; size_t len, split; ve_out o; int pipe; } vfd;
#define NFD 64
static vfd fds[NFD];
typedef struct { ve_out buf; size_t rpos; ve_out written; } vpipe;
static vpipe pipes[384]; static int npipes;
static int newfd(void) { for (int i = 3; i < NFD; i++) if (fds[i].kind == FD_FREE) { memset(&fds[i], 0, sizeof(vfd)); return i; } v_fail("model: too many descriptors"); return -1; }
int ve_fd_in(const char *d, size_t n) { int f = newfd(); fds[f].kind = FD_IN; fds[f].data = d; fds[f].len = n; return f; }
int ve_fd_sock(const char *d, size_t n) { int f = ve_fd_in(d, n); fds[f].kind = FD_SOCK; return f; }
void ve_sock_split(int fd, size_t at) { fds[fd].split = at; }
ve_out *ve_fd_out(int fd) { return &fds[fd].o; }
int ve_fd_open(int fd) { return fd >= 0 && fd < NFD && fds[fd].kind != FD_FREE; }
ve_out *ve_pipe_written(int k) { return &pipes[k].written; }
void ve_pipe_feed(int k, const char *s, size_t n) { out(&pipes[k].buf, s, n); }

static vnode *open_node(const char *path, int flags, int mode, int *err) {
    vnode *p; char last[256];
    vnode *n = walk(NULL, path, !(flags & O_NOFOLLOW), &p, last, 0);
    if (n && (flags & O_CREAT) && (flags & O_EXCL)) { *err = EEXIST; return NULL; }
    if (n && n->type == 'l') { *err = ELOOP; return NULL; }
    if (!n) {
        *err = errno;
        if (!(flags & O_CREAT) || *err != ENOENT || !p || !last[0]) return NULL;
        if (ve_fault(VF_OPEN, "open")) { *err = E_OPEN; return NULL; }
        hook(VO_CREATE, p, path);
        n = mk(p, last, 'f'); setdata(n, "", 0); n->mode = mode; n->sec = ve_time; n->nsec = ve_time_nsec;
        return n;
    }
    if (ve_fault(VF_OPEN, "open")) { *err = E_OPEN; return NULL; }
    int acc = flags & O_ACCMODE;
    if (n->type == 'd' && (acc != O_RDONLY || (flags & O_CREAT))) { *err = EISDIR; return NULL; }
    if (n->noread && acc != O_WRONLY) { *err = EACCES; return NULL; }
    if ((flags & O_TRUNC) && acc != O_RDONLY) { hook(VO_TRUNC, n, path); n->len = 0; n->sec = ve_time; n->nsec = ve_time_nsec; }
    if (acc == O_RDONLY && ve_open_hook) ve_open_hook(n, path);
    return n;
}
static int openm(const char *path, int flags, int mode) {
    yield_("open");
    int e = 0;
    vnode *n = open_node(path, flags, mode, &e);
    if (!n) { errno = e; return -1; }
    int f = newfd();
    fds[f].kind = FD_FILE; fds[f].n = n; fds[f].rd = (flags & O_ACCMODE) != O_WRONLY; fds[f].wr = (flags & O_ACCMODE) != O_RDONLY; fds[f].app = !!(flags & O_APPEND);
    return f;
}
W int v_open(const char *path, int flags, ...) {
    int m = 0;
    if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
    return openm(path, flags, m);
}
W int v_open64(const char *path, int flags, ...) {
    int m = 0;
    if (flags & O_CREAT) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
    return openm(path, flags, m);
}
W int v_creat(const char *path, mode_t m) { return openm(path, O_WRONLY | O_CREAT | O_TRUNC, m); }
static void node_write(vnode *n, size_t *pos, const char *b, size_t len) {
    hook(VO_WRITE, n, NULL);
    if (*pos + len + 1 > n->cap) {
        size_t c = (*pos + len + 1) * 2;
        char *t = malloc(c);
        if (n->len) memcpy(t, n->data, n->len);
        free(n->data); n->data = t; n->cap = c;
    }
    if (len) memcpy(n->data + *pos, b, len);
    *pos += len;
    if (*pos > n->len) n->len = *pos;
    n->sec = ve_time; n->nsec = ve_time_nsec;
}
// ---- the command behind three pipes (stdin, stdout, stderr in the order of their creation), when ve_child is set
int ve_epipe, ve_child; size_t ve_child_cap = 4096; ve_step ve_child_step[8]; int ve_child_free; ve_out ve_child_got;
static int cstep, calive, cbase; static size_t cdone, crpos;
int (*ve_run_hook)(int); extern int ve_stdout_sure;
void (*ve_killed_hook)(int); int ve_signals; static int ve_nosignal; int ve_sigpipe_default(void); void ve_deliver(int);
static struct sigaction sigs[65]; static unsigned long sigmask_;
static int ends(int kind, int k) { int n = 0; for (int i = 0; i < NFD; i++) if (fds[i].kind == kind && fds[i].pipe == k) n++; return n; }
static int ischild(vfd *f) { return ve_child && (f->kind == FD_PIPE_R || f->kind == FD_PIPE_W) && f->pipe >= cbase && f->pipe < cbase + 3; }
static size_t used(int k) { return k != cbase ? pipes[k].buf.n - pipes[k].rpos : pipes[k].written.n - crpos; }
static int child_step(void) {       // whether it got any further
    if (!calive) return 0;
    if (ve_run_hook) { if (ends(FD_PIPE_W, cbase)) return 0; calive = 0; ve_wait_status = ve_run_hook(cbase); return 1; }
    ve_step *s = &ve_child_step[cstep];
    if (!s->op) { calive = 0; return 1; }
    if (s->op == 'r') {
        size_t k = used(0), want = s->n - cdone; if (k > want) k = want;
        if (k) { out(&ve_child_got, pipes[cbase].written.s + crpos, k); crpos += k; cdone += k; }
        if (cdone == s->n || (!used(cbase) && !ends(FD_PIPE_W, cbase))) { cstep++; cdone = 0; return 1; }
        return k > 0;
    }
    int p = cbase + (s->op == 'o' ? 1 : 2);
    if (!ends(FD_PIPE_R, p)) { calive = 0; return 1; }
    size_t room = ve_child_cap - used(p), k = s->n - cdone; if (k > room) k = room;
    if (k) { out(&pipes[p].buf, s->s + cdone, k); cdone += k; }
    if (cdone == s->n) { cstep++; cdone = 0; return 1; }
    return k > 0;
}
static void child_may_run(void) { if (ve_child && calive) { if (ve_child_free > 0) { ve_child_free--; int n = v_choose(3); if (n == 1) child_step(); else if (n == 2) while (child_step()); } } }
static void child_must_run(void) { if (!child_step()) v_fail("the command waits for its pipes and is waited for"); }
static int rready(int k) { return used(k) > 0 || (!calive && !ends(FD_PIPE_W, k)); }
static int noreader(void) { return !calive && !ends(FD_PIPE_R, cbase); }
static int wready(void) { return noreader() || ve_child_cap - used(cbase) >= 4096; }
static ssize_t child_write(vfd *f, const char *b, size_t n) {
    if (f->pipe != cbase) v_fail("written to the wrong end");
    size_t done = 0;
    while (done < n) {
        if (noreader()) {
            if (done) return done;
            if (sigs[SIGPIPE].sa_handler == SIG_DFL && !(sigmask_ >> SIGPIPE & 1)) v_fail("killed because the command does not read its input");
            errno = EPIPE; return -1;
        }
        size_t room = ve_child_cap - used(cbase), k = n - done;
        if (k > room) k = n <= 4096 ? 0 : room;
        if (k) { out(&pipes[cbase].written, b + done, k); done += k; continue; }
        if (f->app) { if (done) return done; errno = EAGAIN; return -1; }
        child_must_run();
    }
    return n;
}
W int v_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); int a = va_arg(ap, int); va_end(ap);
    if (fd > 2 && !ve_fd_open(fd)) { errno = EBADF; return -1; }
    int pipe = fd > 2 && (fds[fd].kind == FD_PIPE_R || fds[fd].kind == FD_PIPE_W);
    if (cmd == F_GETFL) return fd < 3 ? O_RDWR : pipe ? (fds[fd].kind == FD_PIPE_W ? O_WRONLY : O_RDONLY) | (fds[fd].app ? O_NONBLOCK : 0) : (fds[fd].wr ? fds[fd].rd ? O_RDWR : O_WRONLY : O_RDONLY) | (fds[fd].app ? O_APPEND : 0);
    if (cmd == F_SETFL) { if (pipe) fds[fd].app = !!(a & O_NONBLOCK); return 0; }
    if (cmd == F_GETFD || cmd == F_SETFD) return 0;
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && fd > 2) { int f = newfd(); fds[f] = fds[fd]; return f; }
    errno = EINVAL; return -1;
}
W int v_poll(struct pollfd *p, nfds_t n, int ms) {
    int c = 0; child_may_run();
    for (;;) {
        int child = 0; c = 0;
        for (nfds_t i = 0; i < n; i++) {
            p[i].revents = 0; if (p[i].fd < 0) continue;
            if (p[i].fd > 2 && !ve_fd_open(p[i].fd)) { p[i].revents = POLLNVAL; c++; continue; }
            vfd *f = p[i].fd < NFD ? &fds[p[i].fd] : NULL;
            if (f && ischild(f)) {
                child = 1;
                if (f->kind == FD_PIPE_W) { if (noreader()) p[i].revents = POLLERR | (p[i].events & POLLOUT); else if (wready()) p[i].revents = p[i].events & POLLOUT; }
                else { if (used(f->pipe)) p[i].revents = p[i].events & POLLIN; if (!calive && !ends(FD_PIPE_W, f->pipe)) p[i].revents |= POLLHUP; }
            } else p[i].revents = p[i].events & (POLLIN | POLLOUT);
            if (p[i].revents) c++;
        }
        if (c || !child || !ms) return c;
        if (ms > 0 && !child_step()) return 0;
        if (ms < 0) child_must_run();
    }
}
W int v_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *m) { (void) m; return v_poll(p, n, t ? 1 : -1); }
W int v_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
    struct pollfd p[NFD]; int k = 0, c = 0; if (n > NFD) n = NFD;
    for (int i = 0; i < n; i++) { int x = (r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0); if (x) { p[k].fd = i; p[k++].events = x; } }
    if (v_poll(p, k, t ? t->tv_sec || t->tv_usec ? 1 : 0 : -1) < 0) return -1;
    if (e) FD_ZERO(e);
    for (int i = 0; i < k; i++) {
        if (p[i].revents & POLLNVAL) { errno = EBADF; return -1; }
        if (p[i].events & POLLIN) { if (p[i].revents & (POLLIN | POLLHUP)) c++; else FD_CLR(p[i].fd, r); }
        if (p[i].events & POLLOUT) { if (p[i].revents & (POLLOUT | POLLERR)) c++; else FD_CLR(p[i].fd, w); }
    }
    return c;
}
W int v_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *t, const sigset_t *m) { (void) m; struct timeval v = {1, 0}; return v_select(n, r, w, e, t ? &v : NULL); }
W ssize_t v_read(int fd, void *buf, size_t n) {
    yield_("read");
    if (fd < 0 || fd >= NFD || fds[fd].kind == FD_FREE) {
        if (fd == 0) { size_t k = ve_stdin_len - ve_stdin_pos; if (k > n) k = n; if (k) memcpy(buf, ve_stdin + ve_stdin_pos, k); ve_stdin_pos += k; return k; }
        errno = EBADF; return -1;
    }
    vfd *f = &fds[fd];
    if (f->kind == FD_FILE && f->n->type == 'd') { errno = EISDIR; return -1; }
    if (f->kind == FD_PIPE_W || (f->kind == FD_FILE && !f->rd)) { errno = EBADF; return -1; }
    if (f->ioerr || (n && ve_fault(VF_READ, "read"))) { f->ioerr = 1; errno = E_READ; return -1; }
    if (n && ischild(f)) {
        child_may_run();
        while (!rready(f->pipe)) { if (f->app) { errno = EAGAIN; return -1; } child_must_run(); }
    }
    const char *d; size_t avail, *pos;
    if (f->kind == FD_FILE) { d = f->n->data; avail = f->n->len > f->pos ? f->n->len - f->pos : 0; pos = &f->pos; }
    else if (f->kind == FD_PIPE_R) { vpipe *p = &pipes[f->pipe]; d = p->buf.s; avail = p->buf.n - p->rpos; pos = &p->rpos; }
    else { d = f->data; avail = f->len - f->pos; pos = &f->pos; }
    size_t k = avail < n ? avail : n;
    if (f->split > f->pos && k > f->split - f->pos) k = f->split - f->pos;
    if (f->kind == FD_SOCK && k == 0 && n && ve_sock_blocks) v_fail("waits for more input than the client sends");
    if (k > 1 && ve_fault(VF_SHORT, "short read")) k = 1;
    if (k) memcpy(buf, d + *pos, k);
    *pos += k;
    return k;
}
W ssize_t v_write(int fd, const void *buf, size_t n) {
    yield_("write");
    if (fd == 1 || fd == 2) {
        if (fd >= 3 || fds[fd].kind == FD_FREE) {
            if (!(fd == 1 && ve_stdout_sure) && ve_fault(VF_WRITE, "write")) { errno = E_WRITE; return -1; }
            out(fd == 1 ? &ve_stdout : &ve_stderr, buf, n); return n;
        }
    }
    if (fd < 0 || fd >= NFD || fds[fd].kind == FD_FREE) { errno = EBADF; return -1; }
    vfd *f = &fds[fd];
    if (f->kind == FD_SOCK && f->wr) { errno = EPIPE; return -1; }      // the connection broke before
    if (n && ve_fault(VF_WRITE, "write")) { if (f->kind == FD_SOCK) f->wr = 1; if (ischild(f)) errno = EIO; else errno = E_WRITE; if (errno == EPIPE) { ve_epipe = 1; if (ve_signals && f->kind == FD_SOCK && !ve_nosignal && ve_sigpipe_default()) ve_deliver(SIGPIPE); } return -1; }
    if (n && ischild(f)) { child_may_run(); return child_write(f, buf, n); }
    if (n > 1 && ve_fault(VF_SHORT, "short write")) n = n / 2;
    if (f->kind == FD_FILE) { if (!f->wr) { errno = EBADF; return -1; } if (f->app) f->pos = f->n->len; node_write(f->n, &f->pos, buf, n); return n; }
    if (f->kind == FD_SOCK) { out(&f->o, buf, n); return n; }
    if (f->kind == FD_PIPE_W) { out(&pipes[f->pipe].written, buf, n); return n; }
    errno = EBADF; return -1;
}
W int v_close(int fd) {
    if (fd < 0 || fd >= NFD || fds[fd].kind == FD_FREE) { if (fd >= 0 && fd < 3) return 0; errno = EBADF; return -1; }
    int sock = fds[fd].kind == FD_SOCK;
    if (ve_close_hook) ve_close_hook(fd);
    ve_out o = fds[fd].o;
    int wr = fds[fd].wr;
    memset(&fds[fd], 0, sizeof(vfd));
    if (sock) fds[fd].o = o;
    if (wr && ve_fault(VF_CLOSE, "close")) { errno = E_CLOSE; return -1; }
    return 0;
}
W int v_dup2(int a, int b) { if (a < 0 || a >= NFD) { errno = EBADF; return -1; } if (b >= 0 && b < NFD && a != b) fds[b] = fds[a]; return b; }
W int v_pipe(int p[2]) {
    if (ve_fault(VF_PIPE, "pipe")) { errno = ANY(EMFILE, ENFILE); return -1; }
    if (npipes >= 384) v_fail("model: too many pipes");
    int k = npipes++;
    p[0] = newfd(); fds[p[0]].kind = FD_PIPE_R; fds[p[0]].pipe = k;
    p[1] = newfd(); fds[p[1]].kind = FD_PIPE_W; fds[p[1]].pipe = k;
    if (ve_pipe_hook) ve_pipe_hook(k);
    return 0;
}
W int v_fsync(int fd) { (void) fd; if (ve_fault(VF_FLUSH, "fsync")) { errno = ANY(EIO, ENOSPC, EINVAL, EROFS); return -1; } return 0; }
W off_t v_lseek(int fd, off_t o, int wh) { if (fd < 3 || fd >= NFD || fds[fd].kind != FD_FILE) { errno = ESPIPE; return -1; } size_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? fds[fd].pos : fds[fd].n->len; fds[fd].pos = b + o; return b + o; }
W ssize_t v_recv(int fd, void *b, size_t n, int fl) { (void) fl; return v_read(fd, b, n); }
W ssize_t v_send(int fd, const void *b, size_t n, int fl) { ve_nosignal = !!(fl & MSG_NOSIGNAL); ssize_t r = v_write(fd, b, n); ve_nosignal = 0; return r; }
W ssize_t v_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { (void) fl; (void) a; if (l) *l = 0; return v_read(fd, b, n); }
W ssize_t v_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) { (void) fl; (void) a; (void) l; return v_write(fd, b, n); }
W ssize_t v_writev(int fd, const struct iovec *v, int k) { ssize_t t = 0; for (int i = 0; i < k; i++) { if (!v[i].iov_len) continue; ssize_t r = v_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t) r < v[i].iov_len) break; } return t; }
W int v_pipe2(int p[2], int fl) { int r = v_pipe(p); if (!r && (fl & O_NONBLOCK)) fds[p[0]].app = fds[p[1]].app = 1; return r; }
W int v_dup(int a) { if (!ve_fd_open(a)) { errno = EBADF; return -1; } int f = newfd(); fds[f] = fds[a]; return f; }
W int v_ftruncate(int fd, off_t l) { if (!ve_fd_open(fd) || fds[fd].kind != FD_FILE || !fds[fd].wr) { errno = EBADF; return -1; } hook(VO_TRUNC, fds[fd].n, NULL); if ((size_t) l < fds[fd].n->len) fds[fd].n->len = l; return 0; }

W ssize_t v_pread(int fd, void *b, size_t n, off_t o) { off_t k = v_lseek(fd, 0, SEEK_CUR); if (k < 0 || v_lseek(fd, o, SEEK_SET) < 0) return -1; ssize_t r = v_read(fd, b, n); v_lseek(fd, k, SEEK_SET); return r; }
W ssize_t v_pwrite(int fd, const void *b, size_t n, off_t o) { off_t k = v_lseek(fd, 0, SEEK_CUR); if (k < 0 || v_lseek(fd, o, SEEK_SET) < 0) return -1; ssize_t r = v_write(fd, b, n); v_lseek(fd, k, SEEK_SET); return r; }
W ssize_t v_sendfile(int to, int from, off_t *o, size_t n) {
    char b[256]; size_t got = 0; off_t k = 0;
    if (o) { k = v_lseek(from, 0, SEEK_CUR); if (v_lseek(from, *o, SEEK_SET) < 0) return -1; }
    while (got < n) { ssize_t r = v_read(from, b, n - got < sizeof b ? n - got : sizeof b); if (r < 0 && !got) return -1; if (r <= 0) break; ssize_t w = v_write(to, b, r); if (w < 0) return got ? (ssize_t) got : -1; got += w; if (w < r) { if (fds[from].kind == FD_FILE) v_lseek(from, w - r, SEEK_CUR); break; } }
    if (o) { *o += got; v_lseek(from, k, SEEK_SET); }
    return got;
}
W ssize_t v_copy_file_range(int from, off_t *oi, int to, off_t *oo, size_t n, unsigned fl) { (void) fl; if (oo) v_fail("model: copy_file_range to an offset"); return v_sendfile(to, from, oi, n); }

// ---- stdio
typedef struct { int fd; int eof, err, wr; int open; int pushed; ve_out line; } vfile;
static vfile files[16]; static int stdin_short;
static int std_of(FILE *f) { return f == stdin ? 1 : f == stdout ? 2 : f == stderr ? 3 : 0; }
W FILE *v_fdopen(int fd, const char *mode) {
    for (int i = 0; i < 16; i++) if (!files[i].open) {
        memset(&files[i], 0, sizeof(vfile));
        files[i].open = 1; files[i].fd = fd; files[i].wr = mode[0] != 'r' || mode[1] == '+'; files[i].pushed = -1;
        return (FILE *) &files[i];
    }
    v_fail("model: too many streams");
    return NULL;
}
static vfile *vf(FILE *f);
W FILE *v_fopen(const char *path, const char *mode) {
    int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    for (const char *m = mode + 1; *m; m++) { if (*m == '+') fl = (fl & ~O_ACCMODE) | O_RDWR; if (*m == 'x') fl |= O_EXCL; }
    int fd = openm(path, fl, 0666);
    if (fd < 0) return NULL;
    return v_fdopen(fd, mode);
}
W int v_fseek(FILE *f, long o, int wh) { if (std_of(f)) { errno = ESPIPE; return -1; } vfile *v = vf(f); if (v_lseek(v->fd, o - (wh == SEEK_CUR && v->pushed >= 0), wh) < 0) return -1; v->eof = 0; v->pushed = -1; return 0; }
W long v_ftell(FILE *f) { if (std_of(f)) { errno = ESPIPE; return -1; } vfile *v = vf(f); off_t r = v_lseek(v->fd, 0, SEEK_CUR); return r < 0 ? r : r - (v->pushed >= 0); }
W int v_fseeko(FILE *f, off_t o, int wh) { return v_fseek(f, o, wh); }
W off_t v_ftello(FILE *f) { return v_ftell(f); }
W void v_rewind(FILE *f) { v_fseek(f, 0, SEEK_SET); if (!std_of(f)) vf(f)->err = 0; }
W FILE *v_fopen64(const char *path, const char *mode) { return v_fopen(path, mode); }
static vfile *vf(FILE *f) {
    vfile *v = (vfile *) f;
    if (v < files || v >= files + 16 || !v->open) v_fail("operation on a stream that is not open");
    return v;
}
W size_t v_fread(void *b, size_t sz, size_t n, FILE *f) {
    if (sz * n == 0) return 0;
    if (std_of(f) == 1) { ssize_t r = v_read(0, b, sz * n); if (r < (ssize_t) (sz * n)) stdin_short = 1; return r < 0 ? 0 : r / sz; }
    vfile *v = vf(f);
    size_t got = 0;
    if (v->pushed >= 0) { *(char *) b = v->pushed; v->pushed = -1; got = 1; }
    while (got < sz * n) {
        ssize_t r = v_read(v->fd, (char *) b + got, sz * n - got);
        if (r < 0) { v->err = 1; break; }
        if (r == 0) { v->eof = 1; break; }
        got += r;
    }
    return got / sz;
}
static int fput(FILE *f, const char *s, size_t n) {
    int k = std_of(f);
    if (k == 2 || k == 3) {
        ve_out *o = k == 2 ? &ve_stdout : &ve_stderr;
        if (k == 2 && o->fail) return -1;
        if (k == 2 && n && !ve_stdout_sure && ve_fault(VF_WRITE, "write stdout")) { o->fail = 1; errno = E_WRITE; return -1; }
        out(o, s, n); return 0;
    }
    vfile *v = vf(f);
    if (!v->wr) { v->err = 1; errno = EBADF; return -1; }
    if (n && ve_fault(VF_WRITE, "fwrite")) { v->err = 1; errno = E_WRITE; return -1; }
    vfd *d = &fds[v->fd];
    if (d->kind == FD_FILE) { if (d->app) d->pos = d->n->len; node_write(d->n, &d->pos, s, n); }
    else if (d->kind == FD_SOCK) out(&d->o, s, n);
    else if (d->kind == FD_PIPE_W) out(&pipes[d->pipe].written, s, n);
    else { v->err = 1; errno = EBADF; return -1; }
    return 0;
}
W size_t v_fwrite(const void *b, size_t sz, size_t n, FILE *f) { return fput(f, b, sz * n) < 0 ? 0 : n; }
W int v_fputs(const char *s, FILE *f) { return fput(f, s, strlen(s)) < 0 ? EOF : 1; }
W int v_fputc(int c, FILE *f) { char x = c; return fput(f, &x, 1) < 0 ? EOF : (unsigned char) c; }
W int v_putc(int c, FILE *f) { return v_fputc(c, f); }
W int v_putchar(int c) { return v_fputc(c, stdout); }
W int v_puts(const char *s) { if (fput(stdout, s, strlen(s)) < 0) return EOF; return v_fputc('\n', stdout) < 0 ? EOF : 1; }
W int v_vfprintf(FILE *f, const char *fmt, va_list ap) {
    char *b = NULL;
    int n = vasprintf(&b, fmt, ap);
    if (n < 0) return n;
    int r = fput(f, b, n);
    free(b);
    return r < 0 ? -1 : n;
}
W int v_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = v_vfprintf(f, fmt, ap); va_end(ap); return r; }
W int v_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = v_vfprintf(stdout, fmt, ap); va_end(ap); return r; }
W int v_vprintf(const char *fmt, va_list ap) { return v_vfprintf(stdout, fmt, ap); }
W int v_dprintf(int fd, const char *fmt, ...) { va_list ap; va_start(ap, fmt); char *b = NULL; int n = vasprintf(&b, fmt, ap); va_end(ap); ssize_t r = v_write(fd, b, n); free(b); return r; }
W int v_vdprintf(int fd, const char *fmt, va_list ap) { char *b = NULL; int n = vasprintf(&b, fmt, ap); ssize_t r = v_write(fd, b, n); free(b); return r; }
W void v_perror(const char *s) { v_fprintf(stderr, "%s: %s\n", s, strerror(errno)); }
static int stdin_eof; int ve_stdout_sure;
void ve_stdin_new(const char *s, size_t n) { ve_stdin = s; ve_stdin_len = n; ve_stdin_pos = 0; ve_stdin_err = stdin_eof = stdin_short = 0; }
W int v_fgetc(FILE *f) {
    unsigned char c;
    if (std_of(f) == 1) {
        if (ve_stdin_err) return EOF;
        if ((ve_fault_mask & VF_READ) && (ve_stdin_pos == 0 || ve_stdin_pos >= ve_stdin_len || ve_stdin[ve_stdin_pos - 1] == '\n' || ve_stdin_pos % 7 == 0) && ve_fault(VF_READ, "read stdin")) { ve_stdin_err = 1; errno = E_READ; return EOF; }
        if (ve_stdin_pos >= ve_stdin_len) { stdin_eof = 1; return EOF; }
        return (unsigned char) ve_stdin[ve_stdin_pos++];
    }
    vfile *v = vf(f);
    if (v->pushed >= 0) { int p = v->pushed; v->pushed = -1; return p; }
    ssize_t r = v_read(v->fd, &c, 1);
    if (r < 0) { v->err = 1; return EOF; }
    if (r == 0) { v->eof = 1; return EOF; }
    return c;
}
W int v_getc_unlocked(FILE *f) { return v_fgetc(f); }
W int v_fgetc_unlocked(FILE *f) { return v_fgetc(f); }
W int v_putc_unlocked(int c, FILE *f) { return v_fputc(c, f); }
W int v_fputc_unlocked(int c, FILE *f) { return v_fputc(c, f); }
W int v_putchar_unlocked(int c) { return v_fputc(c, stdout); }
W int v_getc(FILE *f) { return v_fgetc(f); }
W int v_getchar(void) { return v_fgetc(stdin); }
W int v_ungetc(int c, FILE *f) { if (std_of(f) == 1) { ve_stdin_pos--; return c; } vf(f)->pushed = c; return c; }
W char *v_fgets(char *s, int n, FILE *f) {
    int i = 0;
    while (i + 1 < n) { int c = v_fgetc(f); if (c == EOF) break; s[i++] = c; if (c == '\n') break; }
    if (i == 0) return NULL;
    s[i] = 0; return s;
}
W ssize_t v_getline(char **l, size_t *cap, FILE *f) {
    ve_out o = {0};
    for (;;) { int c = v_fgetc(f); if (c == EOF) break; char x = c; out(&o, &x, 1); if (c == '\n') break; }
    if (o.n == 0) return -1;
    free(*l); *l = o.s; *cap = o.cap; return o.n;
}
W int v_feof(FILE *f) { if (std_of(f) == 1) return stdin_eof || stdin_short; if (std_of(f)) return 0; return vf(f)->eof; }
W int v_ferror(FILE *f) { int k = std_of(f); if (k == 1) return ve_stdin_err; if (k == 2) return ve_stdout.fail; if (k) return 0; return vf(f)->err; }
W void v_clearerr(FILE *f) { if (!std_of(f)) vf(f)->err = vf(f)->eof = 0; }
W int v_fileno(FILE *f) { int k = std_of(f); return k ? k - 1 : vf(f)->fd; }
size_t ve_stdout_flushed;
W int v_fflush(FILE *f) {
    int k = f ? std_of(f) : 2;
    if (k == 2) {
        if (ve_stdout.fail) return EOF;
        if (ve_stdout_flushed == ve_stdout.n) return 0;
        if (!ve_stdout_sure && ve_fault(VF_FLUSH, "flush stdout")) { ve_stdout.fail = 1; errno = E_WRITE; return EOF; }
        ve_stdout_flushed = ve_stdout.n;
        return 0;
    }
    if (k) return 0;
    if (vf(f)->wr && ve_fault(VF_FLUSH, "fflush")) { vf(f)->err = 1; errno = E_WRITE; return EOF; }
    return 0;
}
W int v_fclose(FILE *f) {
    int k = std_of(f);
    if (k == 2) { if (ve_stdout.fail) return EOF; if (!ve_stdout_sure && ve_fault(VF_FLUSH, "close stdout")) { ve_stdout.fail = 1; errno = E_WRITE; return EOF; } ve_stdout_flushed = ve_stdout.n; return 0; }
    if (k) return 0;
    vfile *v = vf(f);
    int wr = v->wr;
    v->open = 0;
    int fd = v->fd;
    if (fd >= 3 && fds[fd].kind != FD_FREE) { ve_out o = fds[fd].o; int sk = fds[fd].kind == FD_SOCK; memset(&fds[fd], 0, sizeof(vfd)); if (sk) fds[fd].o = o; }
    if (wr && ve_fault(VF_FLUSH, "fclose")) { errno = E_WRITE; return EOF; }
    return 0;
}
W int v_setvbuf(FILE *f, char *b, int m, size_t n) { (void) f; (void) b; (void) m; (void) n; return 0; }
int ve_open_fds(void) { int k = 0; for (int i = 0; i < NFD; i++) k += fds[i].kind != FD_FREE; return k; }

// ---- directories
typedef struct { vnode *d; vnode **list; int n, i; struct dirent e; } vdir;
static int ndirs;
W DIR *v_opendir(const char *path) {
    vnode *n = walk(NULL, path, 1, NULL, NULL, 0);
    if (!n) return NULL;
    if (n->type != 'd') { errno = ENOTDIR; return NULL; }
    if (n->noread) { errno = EACCES; return NULL; }
    if (ve_fault(VF_OPENDIR, "opendir")) { errno = E_OPEN; return NULL; }
    vdir *d = calloc(1, sizeof(vdir));
    d->d = n; d->n = ve_count(n) + 2; d->list = malloc(sizeof(vnode *) * d->n);
    int k = 0;
    d->list[k++] = NULL; d->list[k++] = NULL;
    for (vnode *c = n->child; c; c = c->next) d->list[k++] = c;
    ndirs++;
    return (DIR *) d;
}
W int v_closedir(DIR *d);
W struct dirent *v_readdir(DIR *D) {
    vdir *d = (vdir *) D;
    if (d->i >= d->n) return NULL;
    int k = d->i++;
    memset(&d->e, 0, sizeof(d->e));
    if (k < 2) { d->e.d_name[0] = '.'; d->e.d_name[1] = k ? '.' : 0; d->e.d_name[2] = 0; d->e.d_type = DT_DIR; }
    else { vnode *c = d->list[k]; strcpy(d->e.d_name, c->name); d->e.d_ino = c->ino; d->e.d_type = c->type == 'd' ? DT_DIR : c->type == 'l' ? DT_LNK : DT_REG; }
    return &d->e;
}
W int v_scandir(const char *path, struct dirent ***l, int (*sel)(const struct dirent *), int (*cmp)(const struct dirent **, const struct dirent **)) {
    DIR *d = v_opendir(path); if (!d) return -1;
    int n = 0; struct dirent *e; *l = malloc(sizeof(**l) * ((vdir *) d)->n);
    while ((e = v_readdir(d))) if (!sel || sel(e)) { struct dirent *c = malloc(sizeof(*c)); *c = *e; (*l)[n++] = c; }
    if (cmp) for (int i = 1; i < n; i++) for (int j = i; j > 0 && cmp((const struct dirent **) &(*l)[j - 1], (const struct dirent **) &(*l)[j]) > 0; j--) { struct dirent *t = (*l)[j]; (*l)[j] = (*l)[j - 1]; (*l)[j - 1] = t; }
    v_closedir(d); return n;
}
W int v_alphasort(const struct dirent **a, const struct dirent **b) { return strcmp((*a)->d_name, (*b)->d_name); }
W struct dirent64 *v_readdir64(DIR *D) { return (struct dirent64 *) v_readdir(D); }
W int v_closedir(DIR *D) { vdir *d = (vdir *) D; free(d->list); free(d); ndirs--; if (ve_fault(VF_CLOSE, "closedir")) { errno = EIO; return -1; } return 0; }
static void fill(struct stat *b, vnode *n) {
    memset(b, 0, sizeof(*b));
    b->st_mode = n->type == 'd' ? S_IFDIR | 0755 : n->type == 'l' ? S_IFLNK | 0777 : S_IFREG | (n->noexec ? 0644 : 0755);
    b->st_ino = n->ino; b->st_size = n->type == 'l' ? strlen(n->target) : n->len; b->st_nlink = 1;
    b->st_mtim.tv_sec = n->sec; b->st_mtim.tv_nsec = n->nsec;
}
static int do_stat(vnode *at, const char *p, struct stat *b, int follow) {
    yield_("stat");
    vnode *n = walk(at, p, follow, NULL, NULL, 0);
    if (!n) return -1;
    if (ve_fault(VF_STAT, "stat")) { errno = E_PATH; return -1; }
    fill(b, n);
    return 0;
}
W int v_stat(const char *p, struct stat *b) { return do_stat(NULL, p, b, 1); }
W int v_lstat(const char *p, struct stat *b) { return do_stat(NULL, p, b, 0); }
W int v_stat64(const char *p, struct stat *b) { return do_stat(NULL, p, b, 1); }
W int v_lstat64(const char *p, struct stat *b) { return do_stat(NULL, p, b, 0); }
W int v_fstat(int fd, struct stat *b) { if (!ve_fd_open(fd)) { errno = EBADF; return -1; } if (fds[fd].kind != FD_FILE) { memset(b, 0, sizeof(*b)); b->st_mode = S_IFIFO; return 0; } fill(b, fds[fd].n); return 0; }
W int v_fstatat(int dfd, const char *p, struct stat *b, int fl) { (void) dfd; return do_stat(NULL, p, b, !(fl & AT_SYMLINK_NOFOLLOW)); }
W int v_access(const char *p, int m) {
    vnode *n = walk(NULL, p, 1, NULL, NULL, 0);
    if (!n) return -1;
    if (ve_fault(VF_ACCESS, "access")) { errno = ANY(EACCES, EIO, ELOOP, ENAMETOOLONG, ENOMEM, EROFS, ETXTBSY); return -1; }
    if ((m & R_OK) && n->noread) { errno = EACCES; return -1; }
    if ((m & X_OK) && n->noexec) { errno = EACCES; return -1; }
    return 0;
}
W int v_mkdir(const char *p, mode_t m) {
    vnode *par; char last[256];
    vnode *n = walk(NULL, p, 0, &par, last, 0);
    if (n) { errno = EEXIST; return -1; }
    if (errno != ENOENT || !par || !last[0]) return -1;
    if (ve_fault(VF_MKDIR, "mkdir")) { errno = ANY(EACCES, EPERM, ENOSPC, EROFS, EDQUOT, EMLINK, ENOMEM); return -1; }
    hook(VO_MKDIR, par, p);
    mk(par, last, 'd')->mode = m;
    return 0;
}
W int v_rmdir(const char *p) {
    size_t l = strlen(p);
    vnode *n = walk(NULL, p, 0, NULL, NULL, 0);
    if (!n) return -1;
    if (l && p[l - 1] == '.' && (l == 1 || p[l - 2] == '/')) { errno = EINVAL; return -1; }
    if (n->type != 'd') { errno = ENOTDIR; return -1; }
    if (n->child) { errno = ENOTEMPTY; return -1; }
    if (n == root) { errno = EBUSY; return -1; }
    if (ve_fault(VF_RMDIR, "rmdir")) { errno = ANY(EACCES, EPERM, EROFS, EBUSY, EIO); return -1; }
    hook(VO_RMDIR, n, p);
    ve_remove(n);
    return 0;
}
W int v_unlink(const char *p) {
    vnode *n = walk(NULL, p, 0, NULL, NULL, 0);
    if (!n) return -1;
    if (n->type == 'd') { errno = EISDIR; return -1; }
    if (ve_fault(VF_UNLINK, "unlink")) { errno = ANY(EACCES, EPERM, EROFS, EBUSY, EIO); return -1; }
    hook(VO_UNLINK, n, p);
    ve_remove(n);
    return 0;
}
W int v_remove(const char *p) { vnode *n = walk(NULL, p, 0, NULL, NULL, 0); if (!n) return -1; return n->type == 'd' ? v_rmdir(p) : v_unlink(p); }
W int v_unlinkat(int d, const char *p, int fl) { (void) d; return fl & AT_REMOVEDIR ? v_rmdir(p) : v_unlink(p); }
W int v_symlink(const char *target, const char *p) {
    vnode *par; char last[256];
    vnode *n = walk(NULL, p, 0, &par, last, 0);
    if (n) { errno = EEXIST; return -1; }
    if (errno != ENOENT || !par || !last[0]) return -1;
    if (ve_fault(VF_SYMLINK, "symlink")) { errno = E_MODIFY; return -1; }
    hook(VO_SYMLINK, par, p);
    n = mk(par, last, 'l'); n->target = strdup(target);
    return 0;
}
W ssize_t v_readlink(const char *p, char *b, size_t n) {
    vnode *k = walk(NULL, p, 0, NULL, NULL, 0);
    if (!k) return -1;
    if (k->type != 'l') { errno = EINVAL; return -1; }
    size_t l = strlen(k->target); if (l > n) l = n;
    memcpy(b, k->target, l); return l;
}
W int v_rename(const char *a, const char *b) {
    vnode *n = walk(NULL, a, 0, NULL, NULL, 0);
    if (!n) return -1;
    vnode *par; char last[256];
    vnode *o = walk(NULL, b, 0, &par, last, 0);
    if (!o && (errno != ENOENT || !par || !last[0])) return -1;
    if (o && o->type == 'd' && n->type != 'd') { errno = EISDIR; return -1; }
    if (o && o->type != 'd' && n->type == 'd') { errno = ENOTDIR; return -1; }
    if (o && o->type == 'd' && o->child) { errno = ENOTEMPTY; return -1; }
    if (ve_fault(VF_RENAME, "rename")) { errno = ANY(EACCES, EPERM, EROFS, EBUSY, EXDEV, ENOSPC, EDQUOT); return -1; }
    if (o == n) return 0;
    hook(VO_RENAME, n, b);
    char *nm = strdup(o ? o->name : last);
    if (o) ve_remove(o);
    ve_remove(n);
    n->name = nm; n->parent = par; n->next = NULL;
    vnode **q = &par->child; while (*q) q = &(*q)->next; *q = n;
    return 0;
}
W int v_chdir(const char *p) {
    vnode *n = walk(NULL, p, 1, NULL, NULL, 0);
    if (!n) return -1;
    if (n->type != 'd') { errno = ENOTDIR; return -1; }
    if (ve_fault(VF_CHDIR, "chdir")) { errno = E_PATH; return -1; }
    hook(VO_CHDIR, n, p);
    cwd = n;
    return 0;
}
W char *v_getcwd(char *b, size_t n) {
    rootn();
    char *p = ve_path(cwd); size_t l = strlen(p);
    if (b == NULL) return p;
    if (l + 1 > n) { free(p); errno = ERANGE; return NULL; }
    memcpy(b, p, l + 1); free(p);
    return b;
}
W char *v_realpath(const char *p, char *r) {
    yield_("realpath");
    vnode *n = walk(NULL, p, 1, NULL, NULL, 0);
    if (!n) return NULL;
    if (ve_fault(VF_REALPATH, "realpath")) { errno = E_PATH; return NULL; }
    char *s = ve_path(n);
    if (r == NULL) return s;
    strcpy(r, s); free(s);
    return r;
}
static int tmpn;
static int tmpname(char *t) {
    size_t l = strlen(t);
    if (l < 6) { errno = EINVAL; return -1; }
    for (size_t i = l - 6; i < l; i++) if (t[i] != 'X') { errno = EINVAL; return -1; }
    if (ve_fault(VF_TMP, "mktemp")) { errno = E_MODIFY; return -1; }
    for (size_t i = l - 6; i < l; i++) t[i] = 'q';
    t[l - 1] = '0' + tmpn++ % 10;
    return 0;
}
W char *v_mkdtemp(char *t) {
    if (tmpname(t) < 0) return NULL;
    unsigned m = ve_fault_mask; ve_fault_mask = 0;
    int r = v_mkdir(t, 0700);
    ve_fault_mask = m;
    return r == 0 ? t : NULL;
}
W int v_mkstemp(char *t) { if (tmpname(t) < 0) return -1; unsigned m = ve_fault_mask; ve_fault_mask = 0; int fd = openm(t, O_RDWR | O_CREAT | O_EXCL, 0600); ve_fault_mask = m; return fd; }
W int v_mkostemp(char *t, int fl) { (void) fl; return v_mkstemp(t); }
W int v_mkstemp64(char *t) { return v_mkstemp(t); }
W int v_chmod(const char *p, mode_t m) { vnode *n = walk(NULL, p, 1, NULL, NULL, 0); if (!n) return -1; n->mode = m; return 0; }
W int v_fchmod(int fd, mode_t m) { if (!ve_fd_open(fd)) return -1; if (fds[fd].n) fds[fd].n->mode = m; return 0; }
W int v_truncate(const char *p, off_t l) { vnode *n = walk(NULL, p, 1, NULL, NULL, 0); if (!n) return -1; hook(VO_TRUNC, n, p); if ((size_t) l < n->len) n->len = l; return 0; }

// ---- environment, processes
static struct { char *k, *v; } envs[32]; static int nenv;
void ve_setenv(const char *k, const char *v) {
    for (int i = 0; i < nenv; i++) if (!strcmp(envs[i].k, k)) { envs[i].v = v ? strdup(v) : NULL; return; }
    if (nenv >= 32) v_fail("model: too many environment variables");
    envs[nenv].k = strdup(k); envs[nenv++].v = v ? strdup(v) : NULL;
}
W char *v_getenv(const char *k) { for (int i = 0; i < nenv; i++) if (!strcmp(envs[i].k, k)) return envs[i].v; return NULL; }
W char *v_secure_getenv(const char *k) { return v_getenv(k); }
W int v_setenv(const char *k, const char *v, int o) { if (!o && v_getenv(k)) return 0; ve_setenv(k, v); return 0; }
W int v_unsetenv(const char *k) { ve_setenv(k, NULL); return 0; }
W int v_system(const char *cmd) {
    if (ve_nsystem < 64) ve_system_cmd[ve_nsystem] = strdup(cmd);
    ve_nsystem++;
    if (ve_fault(VF_SYSTEM, "system")) return 1 << 8;
    int st = 0;
    if (ve_signals) { struct sigaction old = sigs[SIGINT]; sigs[SIGINT].sa_handler = SIG_IGN; ve_thread_yield(); st = ve_system_hook ? ve_system_hook(cmd) : 0; sigs[SIGINT] = old; ve_thread_yield(); return st; }
    return ve_system_hook ? ve_system_hook(cmd) : 0;
}
W pid_t v_fork(void) { if (ve_fault(VF_FORK, "fork")) { errno = ANY(EAGAIN, ENOMEM); return -1; } if (ve_fork_ret > 0) { calive = 1; if (ve_run_hook) { cbase = npipes - 3; crpos = 0; } } return ve_fork_ret; }
W pid_t v_vfork(void) { return v_fork(); }
W pid_t v_waitpid(pid_t p, int *st, int o) { if (ve_child) { child_may_run(); while (calive) { if (o & WNOHANG) { if (!child_step()) return 0; } else child_must_run(); } } if (ve_fault(VF_WAIT, "waitpid")) { errno = ECHILD; return -1; } if (st) *st = ve_wait_status; return p; }
W pid_t v_wait(int *st) { return v_waitpid(4242, st, 0); }
W int v_execv(const char *f, char *const *a) { if (ve_exec_hook) ve_exec_hook(f, a); errno = ENOENT; return -1; }
W int v_execvp(const char *f, char *const *a) { return v_execv(f, a); }
W int v_execve(const char *f, char *const *a, char *const *e) { (void) e; return v_execv(f, a); }
static int execl_(const char *f, const char *a0, va_list ap) {
    char *av[16]; int n = 0;
    for (const char *a = a0; ; a = va_arg(ap, const char *)) { if (n < 16) av[n] = (char *) a; n++; if (!a || n >= 16) break; }
    return v_execv(f, av);
}
W int v_execlp(const char *f, const char *a, ...) { va_list ap; va_start(ap, a); int r = execl_(f, a, ap); va_end(ap); return r; }
W int v_execl(const char *f, const char *a, ...) { va_list ap; va_start(ap, a); int r = execl_(f, a, ap); va_end(ap); return r; }
W void v_exit(int s) { if (ve_exit_hook) ve_exit_hook(s); v_end(); }
W void v__exit(int s) { v_exit(s); }
W int v_kill(pid_t p, int s) { (void) p; (void) s; return 0; }
// ---- real threads: each one has its own call stack, and is left at locks, sleeps, system() and where the harness says
int ve_threads, ve_preempt, ve_lazy;     // threads really run; how often one may be left where it could go on; how often a sleep may end before another thread went on
static struct { void *(*fn)(void *); void *arg; int id, done; } co_[8]; static int nco_, cocur_; static struct { void *m; int owner; } mtx_[8]; static int nmtx_;
static void co_body(void *p) { int k = (int) (long) p; co_[k].fn(co_[k].arg); co_[k].done = 1; for (;;) ve_thread_switch(0); }
void ve_thread_switch(int k) { if (k == cocur_) return; int e = errno; cocur_ = k; v_co_switch(k ? co_[k].id : 0); errno = e; }
int ve_thread_self(void) { return cocur_; }
int ve_thread_live(void) { int n = 0; for (int i = 1; i <= nco_; i++) n += !co_[i].done; return n; }
static int co_others(int *k) { int n = 0; for (int i = 0; i <= nco_; i++) if (i != cocur_ && (!i || !co_[i].done)) k[n++] = i; return n; }
void ve_thread_yield(void) { int k[9], n; if (!ve_threads || ve_preempt <= 0 || !(n = co_others(k))) return; int c = v_choose(n + 1); if (!c) return; ve_preempt--; ve_thread_switch(k[c - 1]); }
void ve_thread_block(void) { int k[9], n = ve_threads ? co_others(k) : 0; if (n) ve_thread_switch(k[n > 1 ? v_choose(n) : 0]); }     // somebody else goes on
static void co_sleep(void) { int k[9]; if (!ve_threads || !co_others(k)) return; if (ve_lazy > 0 && v_choose(2)) { ve_lazy--; return; } ve_thread_block(); }
static int co_mutex(pthread_mutex_t *m) { for (int i = 0; i < nmtx_; i++) if (mtx_[i].m == m) return i; if (nmtx_ >= 8) v_fail("model: too many mutexes"); mtx_[nmtx_].m = m; mtx_[nmtx_].owner = -1; return nmtx_++; }
void ve_signal_default(int s, int ignored) { sigs[s].sa_handler = ignored ? SIG_IGN : SIG_DFL; }
void ve_deliver(int s) { if (sigs[s].sa_handler == SIG_IGN) return; if (sigs[s].sa_handler == SIG_DFL) { if (ve_killed_hook) ve_killed_hook(s); v_end(); } sigs[s].sa_handler(s); }
W int v_raise(int s) { if (ve_signals) ve_deliver(s); return 0; }
static void slept(void) { ve_sleeps++; co_sleep(); if (ve_sleep_hook) ve_sleep_hook(); }
W unsigned v_sleep(unsigned n) { (void) n; slept(); return 0; }
W int v_usleep(unsigned n) { (void) n; slept(); return 0; }
W int v_nanosleep(const struct timespec *a, struct timespec *b) { (void) a; (void) b; slept(); return 0; }
W time_t v_time(time_t *t) { if (t) *t = ve_time; return ve_time; }
W int v_clock_gettime(clockid_t c, struct timespec *t) { (void) c; t->tv_sec = ve_time; t->tv_nsec = ve_time_nsec; return 0; }
W int v_gettimeofday(struct timeval *t, void *z) { (void) z; t->tv_sec = ve_time; t->tv_usec = ve_time_nsec / 1000; return 0; }
W pid_t v_getpid(void) { return 4200; }
W long v_sysconf(int n) { (void) n; return 4; }
W int v_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (s < 1 || s > 64) { errno = EINVAL; return -1; } if (o) *o = sigs[s]; if (a) sigs[s] = *a; return 0; }
W sighandler_t v_signal(int s, sighandler_t h) { struct sigaction a, o; memset(&a, 0, sizeof a); a.sa_handler = h; if (v_sigaction(s, &a, &o)) return SIG_ERR; return o.sa_handler; }
int ve_sigpipe_default(void) { return sigs[SIGPIPE].sa_handler == SIG_DFL && !(sigmask_ >> SIGPIPE & 1); }
W int v_sigprocmask(int how, const sigset_t *s, sigset_t *o) { unsigned long m = s ? ((const unsigned long *) s)[0] << 1 : 0; if (o) { memset(o, 0, sizeof *o); ((unsigned long *) o)[0] = sigmask_ >> 1; } if (s) sigmask_ = how == SIG_BLOCK ? sigmask_ | m : how == SIG_UNBLOCK ? sigmask_ & ~m : m; return 0; }
W int v_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { return v_sigprocmask(how, s, o); }
W int v_sigaddset(sigset_t *s, int n) { ((unsigned long *) s)[0] |= 1ul << (n - 1); return 0; }
W int v_sigdelset(sigset_t *s, int n) { ((unsigned long *) s)[0] &= ~(1ul << (n - 1)); return 0; }
W int v_sigfillset(sigset_t *s) { memset(s, 255, sizeof *s); return 0; }
W int v_sigismember(const sigset_t *s, int n) { return ((const unsigned long *) s)[0] >> (n - 1) & 1; }
W int v_sigpending(sigset_t *s) { memset(s, 0, sizeof *s); return 0; }
W int v_sigtimedwait(const sigset_t *s, siginfo_t *i, const struct timespec *t) { (void) s; (void) i; (void) t; errno = EAGAIN; return -1; }
W int v_sigemptyset(sigset_t *s) { memset(s, 0, sizeof(*s)); return 0; }
W int v_getrusage(int w, struct rusage *r) { (void) w; memset(r, 0, sizeof(*r)); return 0; }
W int v_gethostname(char *b, size_t n) { (void) b; (void) n; errno = EPERM; return -1; }
W struct hostent *v_gethostbyname(const char *h) { (void) h; return NULL; }
W char *v_setlocale(int c, const char *l) { (void) c; (void) l; return "C"; }

// ---- sockets and threads
static struct sockaddr_storage ve_sa[4]; static struct addrinfo ve_ai[4]; int ve_gai_port = 8080, ve_gai_n = 1, ve_gai_six, ve_sock_bad, ve_bound = -1, ve_listening, ve_gai_freed; static int ve_sk;
W int v_getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **r) {
    (void) hi; ve_gai_host = h ? strdup(h) : NULL; ve_gai_service = s ? strdup(s) : NULL; if (ve_gai_fail) return -2;
    for (int i = 0; i < ve_gai_n; i++) { int six = ve_gai_six >> i & 1; ve_sa[i].ss_family = six ? AF_INET6 : AF_INET; if (six) { struct sockaddr_in6 *x = (struct sockaddr_in6 *) &ve_sa[i]; ((unsigned char *) &x->sin6_addr)[15] = i + 1; x->sin6_port = htons(ve_gai_port); } else { struct sockaddr_in *x = (struct sockaddr_in *) &ve_sa[i]; ((unsigned char *) &x->sin_addr)[3] = i + 1; x->sin_port = htons(ve_gai_port); } ve_ai[i].ai_family = ve_sa[i].ss_family; ve_ai[i].ai_addr = (struct sockaddr *) &ve_sa[i]; ve_ai[i].ai_addrlen = six ? 28 : 16; ve_ai[i].ai_next = i + 1 < ve_gai_n ? &ve_ai[i + 1] : NULL; }
    *r = ve_ai; return 0;
}
W void v_freeaddrinfo(struct addrinfo *a) { (void) a; ve_gai_freed++; }
W const char *v_gai_strerror(int e) { (void) e; return "error"; }
W int v_socket(int a, int b, int c) { (void) a; (void) b; (void) c; if (ve_sock_bad >> ve_sk++ & 1) { errno = ANY(EMFILE, ENFILE, EACCES, EAFNOSUPPORT, ENOBUFS, ENOMEM, EPROTONOSUPPORT); return -1; } return ve_fd_sock("", 0); }
W int v_setsockopt(int a, int b, int c, const void *d, socklen_t e) { (void) a; (void) b; (void) c; (void) d; (void) e; if (ve_sock_bad >> (7 + ve_sk) & 1) { errno = ANY(EINVAL, ENOPROTOOPT, ENOMEM); return -1; } return 0; }
W int v_bind(int a, const struct sockaddr *b, socklen_t c) {
    if (!ve_fd_open(a)) { errno = EBADF; return -1; }
    int i = (const struct sockaddr_storage *) b - ve_sa; if (i < 0 || i >= ve_gai_n || c != ve_ai[i].ai_addrlen) v_fail("bind: not an address that was looked up");
    if (ve_sock_bad >> (16 + i) & 1) { errno = ANY(EADDRINUSE, EADDRNOTAVAIL, EACCES, EINVAL, ENOMEM); return -1; }
    ve_bound = i; return 0;
}
W int v_listen(int a, int b) { (void) b; if (!ve_fd_open(a)) { errno = EBADF; return -1; } if (ve_sock_bad >> 24 & 1) { errno = ANY(EADDRINUSE, EOPNOTSUPP, EINVAL); return -1; } ve_listening = 1; return 0; }
W int v_accept(int s, struct sockaddr *a, socklen_t *l) {
    if (!ve_fd_open(s)) { errno = EBADF; return -1; }
    int six = ve_bound >= 0 && (ve_gai_six >> ve_bound & 1); socklen_t k = six ? 28 : 16; if (a) { if (l && *l < k) k = *l; memset(a, 0, k); a->sa_family = six ? AF_INET6 : AF_INET; static unsigned char peer; if (k > (six ? 23u : 7u)) ((unsigned char *) a)[six ? 23 : 7] = ++peer; } if (l) *l = k; if (ve_accept_hook) return ve_accept_hook(); errno = EINVAL; return -1; }
W const char *v_inet_ntop(int af, const void *s, char *d, socklen_t n) { if (af != AF_INET && af != AF_INET6) { errno = EAFNOSUPPORT; return NULL; } if (n < 9) { errno = ENOSPC; return NULL; } strcpy(d, af == AF_INET ? "10.0.0.0" : "fe80::a0"); d[7] = '0' + ((const unsigned char *) s)[af == AF_INET ? 3 : 15] % 10; return d; }
W int v_shutdown(int s, int h) { (void) s; (void) h; return 0; }
W int v_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) { (void) a; static unsigned long tid; *t = ++tid; if (ve_threads) { if (ve_thread_hook) ve_thread_hook(NULL, NULL); if (nco_ >= 7) v_fail("model: too many threads"); int k = ++nco_; co_[k].fn = fn; co_[k].arg = arg; co_[k].id = v_co_new(co_body, (void *) (long) k); ve_thread_yield(); return 0; } if (ve_thread_hook) return ve_thread_hook(fn, arg); return 0; }
W int v_pthread_join(pthread_t t, void **r) { if (r) *r = NULL; if (ve_threads) { while (!co_[t].done) ve_thread_switch(cocur_ == (int) t ? 0 : (int) t); return 0; } return ve_join_hook ? ve_join_hook(t) : 0; }
W int v_pthread_detach(pthread_t t) { (void) t; return 0; }
W int v_pthread_attr_init(pthread_attr_t *a) { (void) a; return 0; }
W int v_pthread_attr_destroy(pthread_attr_t *a) { (void) a; return 0; }
W int v_pthread_attr_setdetachstate(pthread_attr_t *a, int s) { (void) a; (void) s; return 0; }
W int v_pthread_mutex_lock(pthread_mutex_t *m) { if (!ve_threads) return 0; ve_thread_yield(); int i = co_mutex(m); while (mtx_[i].owner >= 0) { if (mtx_[i].owner == cocur_) v_fail("a thread waits for itself"); ve_thread_switch(mtx_[i].owner); } mtx_[i].owner = cocur_; return 0; }
W int v_pthread_mutex_unlock(pthread_mutex_t *m) { if (!ve_threads) return 0; int i = co_mutex(m); if (mtx_[i].owner != cocur_) v_fail("a mutex is given back by another thread"); mtx_[i].owner = -1; ve_thread_yield(); return 0; }
