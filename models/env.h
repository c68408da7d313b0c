// Virtual environment (file system, processes, stdio, sockets) used both symbolically and in native replay.
// Calls the code under test makes to X go to v_X.  Nothing here touches the real system.
#pragma once
#include "v.h"
#include <time.h>

typedef struct vnode vnode;
struct vnode {
    int type;               // 'd' 'f' 'l'
    char *name;
    vnode *parent, *child, *next;
    char *data; size_t len, cap;
    char *target;           // symlink
    long sec, nsec;
    int noread, noexec;
    int mode;               // permission bits asked for on creation
    long ino;
};

// building and inspecting the tree (paths absolute, created with their parents)
vnode *ve_mkdir(const char *path);
vnode *ve_file(const char *path, const char *data, size_t len);
vnode *ve_text(const char *path, const char *text);
vnode *ve_link(const char *path, const char *target);
vnode *ve_get(const char *path, int follow);     // NULL if absent
void ve_mtime(vnode *n, long sec, long nsec);
char *ve_path(vnode *n);                          // canonical absolute path, malloc'd
int ve_inside(vnode *n, const vnode *dir);        // n is dir or below it
void ve_remove(vnode *n);                         // detach
extern char *ve_cwd_path;                         // "" before use
void ve_chdir(const char *path);
int ve_count(vnode *d);

// environment variables
void ve_setenv(const char *k, const char *v);     // NULL: unset

// faults: at most ve_faults calls out of those selected by ve_fault_mask fail; each is a symbolic choice
extern int ve_faults;
extern unsigned ve_fault_mask;
enum { VF_OPEN = 1, VF_READ = 2, VF_WRITE = 4, VF_CLOSE = 8, VF_MKDIR = 16, VF_UNLINK = 32, VF_RMDIR = 64, VF_SYMLINK = 128, VF_CHDIR = 256,
       VF_SYSTEM = 512, VF_REALPATH = 1024, VF_OPENDIR = 2048, VF_TMP = 4096, VF_PIPE = 8192, VF_FORK = 16384, VF_STAT = 32768, VF_ACCESS = 65536,
       VF_RENAME = 1 << 17, VF_SHORT = 1 << 18 /* short reads and writes */, VF_FLUSH = 1 << 19, VF_WAIT = 1 << 20 };
extern int ve_faulted;      // number that did fail
extern const char *ve_fault_last;
int ve_fault(unsigned kind, const char *what);

// mutations are announced here before they take effect; node is the object (or the parent for creations)
enum { VO_CREATE = 1, VO_TRUNC, VO_WRITE, VO_MKDIR, VO_UNLINK, VO_RMDIR, VO_SYMLINK, VO_RENAME, VO_CHDIR };
extern void (*ve_hook)(int op, vnode *node, const char *path);
extern void (*ve_open_hook)(vnode *node, const char *path);        // successful opens for reading

// processes
extern int (*ve_system_hook)(const char *cmd);                      // wait status; default 0
extern void (*ve_exec_hook)(const char *file, char *const *argv);   // then the call fails with ENOENT unless it ends the path
extern void (*ve_exit_hook)(int status);                            // exit(): then the path ends
extern int ve_nsystem;
extern char *ve_system_cmd[64];
extern int ve_fork_ret;                                             // what fork() returns (default 4242: parent)
extern int ve_wait_status;                                          // what waitpid() stores
extern int (*ve_thread_hook)(void *(*fn)(void *), void *arg);       // pthread_create
extern int (*ve_accept_hook)(void);                                 // accept()
extern long ve_time, ve_time_nsec;
extern int ve_sleeps;
extern void (*ve_sleep_hook)(void);
extern int ve_threads, ve_preempt, ve_lazy;      // threads with call stacks of their own; switches where a thread could go on; sleeps during which no other thread goes on
extern void ve_thread_switch(int k), ve_thread_yield(void), ve_thread_block(void);   // 0: the main thread
extern int ve_thread_self(void), ve_thread_live(void);
extern int ve_signals;                           // raise() and SIGINT work
extern void (*ve_killed_hook)(int sig);          // killed by a signal; the path ends
extern void ve_signal_default(int sig, int ignored), ve_deliver(int sig);

// stdio capture
typedef struct { char *s; size_t n, cap; int fail; } ve_out;
extern ve_out ve_stdout, ve_stderr;
extern const char *ve_stdin; extern size_t ve_stdin_len, ve_stdin_pos; extern int ve_stdin_err;

// raw descriptors made by the harness
int ve_fd_in(const char *data, size_t len);       // readable descriptor with this content
int ve_fd_sock(const char *data, size_t len);     // readable, and writes are captured
ve_out *ve_fd_out(int fd);                        // what was written to it
void ve_sock_split(int fd, size_t at);            // input arrives in two parts
extern int ve_sock_blocks;                        // reading more than the input waits for ever: a violation
extern void (*ve_close_hook)(int fd);
extern void (*ve_yield_hook)(const char *what);   // before read, write, open, stat, realpath: another thread may run here
extern int (*ve_join_hook)(unsigned long thread); // threads are numbered from 1
extern int ve_gai_port, ve_gai_n, ve_gai_six, ve_sock_bad, ve_bound, ve_listening, ve_gai_freed;   // addresses (bit i of six: IPv6); bad: bit i socket, 8+i setsockopt, 16+i bind, 24 listen fails
extern int ve_gai_fail; extern const char *ve_gai_host, *ve_gai_service;
int ve_fd_open(int fd);                           // still open?
int ve_open_fds(void);                            // descriptors and streams still open
ve_out *ve_pipe_written(int k);                   // bytes written to the k-th pipe created
void ve_pipe_feed(int k, const char *s, size_t n);
// a command that uses its pipes (each of this capacity) step by step: 'r' reads that many bytes (or all), 'o'/'e' writes to output/messages, 0 exits; ve_child_free: how often it may run ahead of the moment it is waited for
typedef struct { int op; size_t n; const char *s; } ve_step;
extern int ve_epipe /* a write failed because nobody reads */, ve_child; extern size_t ve_child_cap; extern ve_step ve_child_step[8]; extern int ve_child_free; extern ve_out ve_child_got;
void ve_stdin_new(const char *s, size_t n); extern int ve_stdout_sure;      // writing to standard output does not fail
extern int (*ve_run_hook)(int base);   // with ve_child: runs the forked command once its input is complete (its pipes are base, base + 1, base + 2); gives its wait status
int ve_sigpipe_default(void); extern size_t ve_stdout_flushed;
extern void (*ve_pipe_hook)(int k);               // k-th pipe() has been created
