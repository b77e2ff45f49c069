/* A file system in memory below MFS, with every operation a point where it may fail or where the process or the
   machine may stop. What survives the machine: of each file what was synchronised and any subset of the later
   writes, one of them possibly cut; of the directory what was synchronised and any prefix of the later changes. */
#ifndef MEMFS_H
#define MEMFS_H
#include "seqx.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void __real_free(void *);      /* not subject to the failures of allocations */
#define MFS "/mfs"
#define MFD 10000
typedef struct { int kind; size_t off, n; unsigned char *b; } mlog;                 /* kind 0: write, 1: set the size to off */
typedef struct { unsigned char *d, *sd; size_t n, sn; mlog log[64]; int nlog, nlinks, opens; } mino;
typedef struct { char name[300]; int ino; } ment;
typedef struct { ment e[24]; int n; } mdir;
static mino mi[64]; static int nmi;
static mdir mcur, msync, mhist[128]; static int nmhist;      /* the directory now, as synchronised, after each change since */
typedef struct { int used, ino, write, app, isdir; size_t pos; } mfd; static mfd mf[64];
typedef struct { FILE *f; int fd; } mstream; static mstream ms[64];

static int m_dead;                        /* the process has stopped: nothing it does has an effect any more */
static int m_ops;                         /* operations that change something */
static int m_faults, m_faulted;           /* how many operations may fail, how many did */
static int m_crash;                       /* 1: the process may stop, 2: the machine may stop, 3: either */
static int m_crashed;                     /* 1 the process, 2 the machine */
static int m_power;                       /* the machine stops when the process does */
static int m_mute;                        /* nothing happens: operations of the harness itself, or only read */

static void m_free(void) { for (int i = 0; i < nmi; i++) { __real_free(mi[i].d); __real_free(mi[i].sd); for (int k = 0; k < mi[i].nlog; k++) __real_free(mi[i].log[k].b); } memset(mi, 0, sizeof mi[0] * (size_t)(nmi ? nmi : 1)); nmi = 0; }
static void m_reset(void) { m_free(); mcur.n = msync.n = 0; nmhist = 0; memset(mf, 0, sizeof mf); memset(ms, 0, sizeof ms); m_dead = m_ops = m_faults = m_faulted = m_crash = m_crashed = m_power = m_mute = 0; }
static int m_under(const char *p) { size_t n = strlen(MFS); return p && !strncmp(p, MFS, n) && (p[n] == '/' || !p[n]); }
static const char *m_name(const char *p) { p += strlen(MFS); while (*p == '/') p++; return p; }
static int m_find(const mdir *d, const char *name) { for (int i = 0; i < d->n; i++) if (!strcmp(d->e[i].name, name)) return i; return -1; }
static void m_changed(void) { if (nmhist < 128) mhist[nmhist++] = mcur; }
static void m_put(unsigned char **d, size_t *n, size_t off, const void *b, size_t len) { if (off + len > *n) { *d = __real_realloc(*d, off + len); memset(*d + *n, 0, off + len - *n); *n = off + len; } memcpy(*d + off, b, len); }
static void m_size(unsigned char **d, size_t *n, size_t to) { if (to > *n) { *d = __real_realloc(*d, to); memset(*d + *n, 0, to - *n); } *n = to; }
static void m_remember(mino *i, int kind, size_t off, const void *b, size_t n) { if (i->nlog == 64) sx_fail("harness", "too many writes"); mlog *l = &i->log[i->nlog++]; l->kind = kind; l->off = off; l->n = n; l->b = n ? __real_malloc(n) : NULL; if (n) memcpy(l->b, b, n); }
static void m_synced(mino *i) { i->sd = __real_realloc(i->sd, i->n ? i->n : 1); memcpy(i->sd, i->d ? i->d : (unsigned char *)"", i->n); i->sn = i->n; for (int k = 0; k < i->nlog; k++) __real_free(i->log[k].b); i->nlog = 0; }

/* the machine has stopped: choose what is found afterwards */
static void m_lose(void) {
    int k = sx_choose(nmhist + 1); mcur = k ? mhist[k - 1] : msync;
    if (sx_noting()) sx_note("%d of %d changes of the directory survive", k, nmhist);
    for (int e = 0; e < mcur.n; e++) {
        mino *i = &mi[mcur.e[e].ino]; if (!i->nlog) continue;
        unsigned char *d = __real_malloc(i->sn ? i->sn : 1); size_t n = i->sn; memcpy(d, i->sd ? i->sd : (unsigned char *)"", n);
        int torn = 0;
        for (int l = 0; l < i->nlog; l++) {
            mlog *g = &i->log[l]; int c = sx_choose(g->kind == 0 && !torn ? 3 : 2);      /* there, lost, cut */
            if (c == 1) continue;
            if (g->kind == 1) m_size(&d, &n, g->off);
            else if (c == 0) m_put(&d, &n, g->off, g->b, g->n);
            else { torn = 1; size_t cut = sx_thorough() && g->n <= 400 ? (size_t)sx_choose((int)g->n) : (size_t[]){0, 1, 5, g->n / 4, g->n / 2, g->n - 1}[sx_choose(6)]; m_put(&d, &n, g->off, g->b, cut < g->n ? cut : g->n); }
        }
        __real_free(i->d); i->d = d; i->n = n; m_synced(i);
    }
    msync = mcur; nmhist = 0;
}
/* before an operation that changes something: 0 do it, -1 it fails, -2 the process is gone. *part: how much of a write is done first */
static int m_step(const char *what, const char *name, size_t n, size_t *part) {
    if (m_mute) return 0;
    if (m_dead) { errno = EIO; return -2; }
    m_ops++;
    if (m_crash && !m_crashed && sx_flip()) {
        m_crashed = m_dead = 1;
        if (n && part) *part = sx_thorough() && n <= 400 ? (size_t)sx_choose((int)n + 1) : (size_t[]){0, 1, n / 2, n - 1}[sx_choose(4)];
        if (sx_noting()) sx_note("the process stops at %s %s", what, name);
        if (m_crash == 3) m_power = sx_flip(); else m_power = m_crash == 2;
        errno = EIO; return -2;
    }
    if (m_faulted < m_faults && sx_flip()) {
        m_faulted++;
        if (n && part) *part = (size_t[]){0, 1, n / 2, n - 1}[sx_choose(4)];
        if (sx_noting()) sx_note("%s %s fails", what, name);
        errno = !strcmp(what, "write") ? ENOSPC : EIO; return -1;
    }
    if (sx_noting()) sx_note("%s %s", what, name);
    return 0;
}
static void m_after(void) { if (m_crashed && m_power) m_lose(); m_dead = 0; memset(mf, 0, sizeof mf); }      /* the process starts again */
static void m_stop_now(int power) { m_crashed = 1; m_power = power; if (power) m_lose(); memset(mf, 0, sizeof mf); }

static int m_openino(const char *name, int trunc, int create, int excl) {
    int e = m_find(&mcur, name);
    if (e < 0) {
        if (!create) { errno = ENOENT; return -1; }
        if (strlen(name) > 255) { errno = ENAMETOOLONG; return -1; }
        if (m_step("create", name, 0, NULL)) return -1;
        if (nmi == 64 || mcur.n == 24) sx_fail("harness", "too many files");
        int i = nmi++; memset(&mi[i], 0, sizeof mi[i]);
        e = mcur.n++; snprintf(mcur.e[e].name, sizeof mcur.e[e].name, "%s", name); mcur.e[e].ino = i; m_changed();
        return i;
    }
    if (excl) { errno = EEXIST; return -1; }
    int i = mcur.e[e].ino;
    if (trunc) { if (m_step("truncate", name, 0, NULL)) return -1; m_size(&mi[i].d, &mi[i].n, 0); if (!m_mute) m_remember(&mi[i], 1, 0, NULL, 0); else m_synced(&mi[i]); }
    return i;
}
static int m_newfd(int ino, int write, int app) { for (int i = 0; i < 64; i++) if (!mf[i].used) { mf[i] = (mfd){1, ino, write, app, 0, 0}; return MFD + i; } sx_fail("harness", "too many open files"); return -1; }
static ssize_t m_write(mfd *f, const void *b, size_t n) {
    if (!f->used || !f->write) { errno = EBADF; return -1; }
    if (!n) return 0;
    mino *i = &mi[f->ino]; size_t part = 0; int r = m_step("write", "", n, &part); size_t off = f->app ? i->n : f->pos;
    if (r) { if (part) { m_put(&i->d, &i->n, off, b, part); m_remember(i, 0, off, b, part); f->pos = off + part; } if (r == -1 && part) return (ssize_t)part; return -1; }
    m_put(&i->d, &i->n, off, b, n); f->pos = off + n; if (!m_mute) m_remember(i, 0, off, b, n); return (ssize_t)n;
}
static ssize_t m_read(mfd *f, void *b, size_t n) { if (!f->used || f->isdir) { errno = EBADF; return -1; } mino *i = &mi[f->ino]; if (f->pos >= i->n) return 0; if (n > i->n - f->pos) n = i->n - f->pos; memcpy(b, i->d + f->pos, n); f->pos += n; return (ssize_t)n; }
static int m_sync(int fd) {
    mfd *f = &mf[fd - MFD]; if (!f->used) { errno = EBADF; return -1; }
    if (m_step(f->isdir ? "fsync of the directory" : "fsync", "", 0, NULL)) return -1;
    if (f->isdir) { msync = mcur; nmhist = 0; } else m_synced(&mi[f->ino]);
    return 0;
}
static int m_close(int fd) { mfd *f = &mf[fd - MFD]; if (!f->used) { errno = EBADF; return -1; } int w = f->write; f->used = 0; if (w && m_step("close", "", 0, NULL)) return -1; return 0; }

/* streams: the C library's own, on top of these operations */
static ssize_t k_read(void *c, char *b, size_t n) { return m_read(&mf[(int)(long)c], b, n); }
static ssize_t k_write(void *c, const char *b, size_t n) { ssize_t r = m_write(&mf[(int)(long)c], b, n); return r < 0 ? 0 : r; }
static int k_seek(void *c, off64_t *o, int w) { mfd *f = &mf[(int)(long)c]; off64_t p = w == SEEK_SET ? *o : w == SEEK_CUR ? (off64_t)f->pos + *o : (off64_t)mi[f->ino].n + *o; if (p < 0) return -1; f->pos = (size_t)p; *o = p; return 0; }
static int k_close(void *c) { int fd = (int)(long)c; for (int i = 0; i < 64; i++) if (ms[i].f && ms[i].fd == fd + MFD) ms[i].f = NULL; return m_close(fd + MFD); }
static FILE *m_stream(int fd, const char *mode) {
    FILE *f = fopencookie((void *)(long)(fd - MFD), mode, (cookie_io_functions_t){k_read, k_write, k_seek, k_close});
    for (int i = 0; i < 64; i++) if (!ms[i].f) { ms[i].f = f; ms[i].fd = fd; break; }
    return f;
}
FILE *__real_fopen(const char *, const char *); FILE *__wrap_fopen(const char *p, const char *m) {
    if (!m_under(p)) return __real_fopen(p, m);
    if (m_dead) { errno = EIO; return NULL; }
    int w = m[0] == 'w', a = m[0] == 'a', plus = strchr(m, '+') != NULL, i = m_openino(m_name(p), w, w || a, strchr(m, 'x') != NULL);
    return i < 0 ? NULL : m_stream(m_newfd(i, w || a || plus, a), m);
}
FILE *__real_fdopen(int, const char *); FILE *__wrap_fdopen(int fd, const char *m) { return fd < MFD ? __real_fdopen(fd, m) : m_stream(fd, m); }
int __real_fileno(FILE *); int __wrap_fileno(FILE *f) { for (int i = 0; i < 64; i++) if (f && ms[i].f == f) return ms[i].fd; return __real_fileno(f); }
int __real_open(const char *, int, ...); int __wrap_open(const char *p, int fl, ...) {
    va_list a; va_start(a, fl); int mode = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a);
    if (!m_under(p)) return __real_open(p, fl, mode);
    if (m_dead) { errno = EIO; return -1; }
    if (!*m_name(p)) { if ((fl & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; } if (m_step("open", "the directory", 0, NULL)) return -1; int fd = m_newfd(0, 0, 0); mf[fd - MFD].isdir = 1; return fd; }
    int i = m_openino(m_name(p), fl & O_TRUNC, fl & O_CREAT, fl & O_EXCL);
    return i < 0 ? -1 : m_newfd(i, (fl & O_ACCMODE) != O_RDONLY, fl & O_APPEND);
}
int __wrap_open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int mode = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); return __wrap_open(p, fl, mode); }
int __real_close(int); int __wrap_close(int fd) { return fd < MFD ? __real_close(fd) : m_close(fd); }
ssize_t __real_write(int, const void *, size_t); ssize_t __wrap_write(int fd, const void *b, size_t n) { return fd < MFD ? __real_write(fd, b, n) : m_write(&mf[fd - MFD], b, n); }
ssize_t __real_read(int, void *, size_t); ssize_t __wrap_read(int fd, void *b, size_t n) { return fd < MFD ? __real_read(fd, b, n) : m_read(&mf[fd - MFD], b, n); }
int __real_fsync(int); int __wrap_fsync(int fd) { return fd < MFD ? __real_fsync(fd) : m_sync(fd); }
int __real_fdatasync(int); int __wrap_fdatasync(int fd) { return fd < MFD ? __real_fdatasync(fd) : m_sync(fd); }
int __real_ftruncate(int, off_t); int __wrap_ftruncate(int fd, off_t n) { if (fd < MFD) return __real_ftruncate(fd, n); if (m_step("truncate", "", 0, NULL)) return -1; mino *i = &mi[mf[fd - MFD].ino]; m_size(&i->d, &i->n, (size_t)n); m_remember(i, 1, (size_t)n, NULL, 0); return 0; }
int __real_rename(const char *, const char *); int __wrap_rename(const char *a, const char *b) {
    if (!m_under(a)) return __real_rename(a, b);
    int x = m_find(&mcur, m_name(a)); if (x < 0) { errno = ENOENT; return -1; }
    if (strlen(m_name(b)) > 255) { errno = ENAMETOOLONG; return -1; }
    if (m_step("rename", m_name(a), 0, NULL)) return -1;
    int i = mcur.e[x].ino, y = m_find(&mcur, m_name(b));
    if (y >= 0) { mcur.e[y].ino = i; mcur.e[x] = mcur.e[--mcur.n]; } else snprintf(mcur.e[x].name, sizeof mcur.e[x].name, "%s", m_name(b));
    m_changed(); return 0;
}
int __real_unlink(const char *); int __wrap_unlink(const char *p) {
    if (!m_under(p)) return __real_unlink(p);
    int x = m_find(&mcur, m_name(p)); if (x < 0) { errno = ENOENT; return -1; }
    if (m_step("unlink", m_name(p), 0, NULL)) return -1;
    mcur.e[x] = mcur.e[--mcur.n]; m_changed(); return 0;
}
int __real_remove(const char *); int __wrap_remove(const char *p) { return m_under(p) ? __wrap_unlink(p) : __real_remove(p); }
int __real_access(const char *, int); int __wrap_access(const char *p, int m) { if (!m_under(p)) return __real_access(p, m); if (!*m_name(p) || m_find(&mcur, m_name(p)) >= 0) return 0; errno = ENOENT; return -1; }
int __real_stat(const char *, struct stat *); int __wrap_stat(const char *p, struct stat *s) {
    if (!m_under(p)) return __real_stat(p, s);
    memset(s, 0, sizeof *s); if (!*m_name(p)) { s->st_mode = S_IFDIR | 0755; return 0; }
    int x = m_find(&mcur, m_name(p)); if (x < 0) { errno = ENOENT; return -1; }
    s->st_mode = S_IFREG | 0644; s->st_size = (off_t)mi[mcur.e[x].ino].n; return 0;
}
int __wrap_lstat(const char *p, struct stat *s) { return __wrap_stat(p, s); }
int __real_mkdir(const char *, mode_t); int __wrap_mkdir(const char *p, mode_t m) { if (!m_under(p)) return __real_mkdir(p, m); errno = EEXIST; return -1; }
static struct { int at; mdir d; struct dirent e; } m_list;
DIR *__real_opendir(const char *); DIR *__wrap_opendir(const char *p) { if (!m_under(p)) return __real_opendir(p); m_list.at = -2; m_list.d = mcur; return (DIR *)&m_list; }
struct dirent *__real_readdir(DIR *); struct dirent *__wrap_readdir(DIR *d) {
    if (d != (DIR *)&m_list) return __real_readdir(d);
    if (m_list.at >= m_list.d.n) return NULL;
    snprintf(m_list.e.d_name, sizeof m_list.e.d_name, "%.255s", m_list.at == -2 ? "." : m_list.at == -1 ? ".." : m_list.d.e[m_list.at].name); m_list.e.d_type = m_list.at < 0 ? DT_DIR : DT_REG; m_list.at++; return &m_list.e;
}
int __real_closedir(DIR *); int __wrap_closedir(DIR *d) { return d == (DIR *)&m_list ? 0 : __real_closedir(d); }
#endif
