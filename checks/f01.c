/* F01: length-prefix framing over a socket that shortens, interrupts, fails and closes at will. */
#define _GNU_SOURCE
#include "seqx.h"
#include "mcp_framing.h"
#include "mcp_socket_utils.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <sys/uio.h>
#include <sys/socket.h>
#include <poll.h>

#define FD 777
/* ---- the socket ------------------------------------------------------------------- */
static unsigned char wire[1 << 16];
static size_t wlen;            /* bytes accepted from the sender so far */
static size_t rpos, rend;      /* receive side: position and end of the bytes the peer sends */
static int closed, failed_send, failed_recv, budget, calls;
static int stop_after;         /* set the stop flag during this call, -1 never */
static volatile bool stop;

static void io_reset(void) {
    wlen = rpos = rend = 0; closed = failed_send = failed_recv = 0; calls = 0; stop = 0; stop_after = -1;
}
static int err(int e) { errno = e; return -1; }
/* how much of n bytes the kernel takes this time; -1 with errno for an error */
static long take(size_t n, int sending) {
    if (++calls > 400) sx_fail("endless-loop", "more than 400 socket calls");
    if (stop_after >= 0 && calls > stop_after) stop = 1;
    int *dead = sending ? &failed_send : &failed_recv;
    if (*dead) return err(sending ? EPIPE : ECONNRESET);
    if (!budget) return (long)n;
    /* 0 full, 1 EINTR, 2 EAGAIN, 3 connection error, 4.. short by length */
    int c = sx_choose(4 + (n > 1 ? (int)n - 1 : 0));
    if (!c) return (long)n;
    budget--;
    if (c == 1) return err(EINTR);
    if (c == 2) return err(EAGAIN);
    if (c == 3) { *dead = 1; sx_note(" [%s error]", sending ? "send" : "recv"); return err(sending ? EPIPE : ECONNRESET); }
    sx_note(" [short %d/%zu]", c - 3, n);
    return c - 3;
}
static ssize_t send_iov(const struct iovec *v, size_t cnt, int nosignal) {
    size_t n = 0;
    if (cnt > 1024 || cnt == 0) return err(EINVAL);
    for (size_t i = 0; i < cnt; i++) n += v[i].iov_len;
    long k = take(n, 1);
    if (failed_send && !nosignal) sx_fail("sigpipe", "a write to a closed connection would raise SIGPIPE and end the process");
    if (k < 0) return -1;
    size_t left = (size_t)k;
    for (size_t i = 0; i < cnt && left; i++) {
        size_t m = v[i].iov_len < left ? v[i].iov_len : left;
        if (wlen + m > sizeof wire) sx_fail("too-much", "more bytes written than the messages have");
        memcpy(wire + wlen, v[i].iov_base, m);
        wlen += m; left -= m;
    }
    return k;
}
static ssize_t recv_into(void *buf, size_t n) {
    size_t have = rend - rpos;
    if (!have) {
        if (++calls > 400) sx_fail("endless-loop", "more than 400 socket calls");
        if (stop_after >= 0 && calls > stop_after) stop = 1;
        if (failed_recv) return err(ECONNRESET);
        return 0;                       /* the peer has closed */
    }
    long k = take(n < have ? n : have, 0);
    if (k <= 0) return k;
    memcpy(buf, wire + rpos, (size_t)k);
    rpos += (size_t)k;
    return k;
}
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) { return fd == FD ? send_iov(v, (size_t)n, 0) : __real_writev(fd, v, n); }
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n) { struct iovec v = {(void *)b, n}; return fd == FD ? send_iov(&v, 1, 0) : __real_write(fd, b, n); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) { struct iovec v = {(void *)b, n}; (void)fd; return send_iov(&v, 1, fl & MSG_NOSIGNAL); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int fl) { (void)fd; return send_iov(m->msg_iov, m->msg_iovlen, fl & MSG_NOSIGNAL); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { (void)fd; (void)fl; return recv_into(b, n); }
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n) { return fd == FD ? recv_into(b, n) : __real_read(fd, b, n); }
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
    (void)n;
    if (++calls > 400) sx_fail("endless-loop", "more than 400 socket calls");
    p->revents = 0;
    if (budget) {
        int c = sx_choose(3);
        if (c) budget--;
        if (c == 1) return err(EINTR);
        if (c == 2 && t >= 0) return 0;        /* nothing there yet */
    }
    p->revents = POLLIN;
    return 1;
}

/* ---- messages --------------------------------------------------------------------- */
#define MAXM 4
static char text[MAXM][64];
static uint32_t len[MAXM];
static int nmsg;
static unsigned char want[1 << 12];
static size_t wantlen, start[MAXM + 1];
static void pick_messages(int max, const int *sizes, int nsizes) {
    nmsg = 1 + sx_choose(max);
    wantlen = 0;
    for (int i = 0; i < nmsg; i++) {
        len[i] = (uint32_t)sizes[sx_choose(nsizes)];
        for (unsigned k = 0; k < len[i]; k++) text[i][k] = (char)(k % 3 == 2 ? 0 : 'a' + i * 5 + (int)k);
        start[i] = wantlen;
        want[wantlen++] = 0; want[wantlen++] = 0; want[wantlen++] = 0; want[wantlen++] = (unsigned char)len[i];
        memcpy(want + wantlen, text[i], len[i]);
        wantlen += len[i];
        sx_note(" m%u", len[i]);
    }
    start[nmsg] = wantlen;
}
static void stream_is_prefix(void) {
    SX_CHECK(wlen <= wantlen && !memcmp(wire, want, wlen), "stream", "the bytes sent are not the framed messages (%zu bytes sent, %zu expected)", wlen, wantlen);
}
static const int SIZES[] = {3, 0, 1, 6};

/* sending: single, batch, exact */
static void send_run(void) {
    io_reset();
    int mode = sx_choose(4);
    budget = 0;
    pick_messages(mode == 1 ? 3 : 2, SIZES, 4);
    budget = sx_thorough() ? 5 : 4;
    int ok = 1, i;
    if (mode == 0) {
        sx_note(" single:");
        for (i = 0; i < nmsg && ok; i++) {
            ok = mcp_framing_send_message(FD, len[i] ? text[i] : NULL, len[i], NULL) == 0;
            sx_op();
            SX_CHECK(ok != failed_send, "send-result", "message %d: returned %s although the connection %s", i, ok ? "success" : "failure", failed_send ? "failed" : "works");
            if (ok) SX_CHECK(wlen == start[i + 1], "incomplete", "message %d reported sent with %zu of %zu bytes", i, wlen, start[i + 1]);
            stream_is_prefix();
        }
    } else if (mode == 1) {
        const char *m[MAXM];
        for (i = 0; i < nmsg; i++) m[i] = text[i];
        sx_note(" batch:");
        ok = mcp_framing_send_batch(FD, m, len, (size_t)nmsg, NULL) == 0;
        sx_op();
        SX_CHECK(ok != failed_send, "send-result", "batch: returned %s although the connection %s", ok ? "success" : "failure", failed_send ? "failed" : "works");
        if (ok) SX_CHECK(wlen == wantlen, "incomplete", "batch reported sent with %zu of %zu bytes", wlen, wantlen);
        stream_is_prefix();
    } else if (mode == 2) {
        sx_note(" exact:");
        ok = mcp_socket_send_exact(FD, (char *)want, wantlen, NULL) == 0;
        sx_op();
        SX_CHECK(ok != failed_send, "send-result", "exact: wrong result");
        if (ok) SX_CHECK(wlen == wantlen, "incomplete", "exact send reported %zu of %zu bytes", wlen, wantlen);
        stream_is_prefix();
    } else {
        /* socket buffers, some of them empty */
        static mcp_socket_buffer_t B[5]; static char space[5][64];
        mcp_socket_buffer_t *b[5] = {0};
        int n = 0;
        size_t at = 0;
        sx_note(" buffers:");
        for (i = 0; i < nmsg; i++) {
            size_t sz = start[i + 1] - start[i];
            b[n] = &B[n]; b[n]->buffer = space[n];
            memcpy(b[n]->buffer, want + at, sz); b[n]->used = sz; at += sz; n++;
            if (sx_choose(2)) { b[n] = &B[n]; b[n]->buffer = space[n]; b[n]->used = 0; n++; sx_note(" empty"); }
        }
        ok = mcp_socket_send_batch(FD, (const mcp_socket_buffer_t **)b, n, NULL) == 0;
        sx_op();
        SX_CHECK(ok != failed_send, "send-result", "buffers: wrong result");
        if (ok) SX_CHECK(wlen == wantlen, "incomplete", "buffers reported sent with %zu of %zu bytes", wlen, wantlen);
        stream_is_prefix();
    }
    sx_class("send mode %d %s", mode, ok ? "done" : "failed");
    sx_state(wire, wlen);
}
/* the whole way, with any part of the stream missing at the end */
static void check_received(int got, char *d, uint32_t l) {
    SX_CHECK(got < nmsg, "extra", "a message was delivered that was never sent");
    SX_CHECK(l == len[got], "length", "message %d has length %u, sent %u", got, l, len[got]);
    if (l) {
        SX_CHECK(d && !memcmp(d, text[got], l), "content", "message %d differs from the one sent", got);
        SX_CHECK(d[l] == 0, "terminator", "message %d is not terminated", got);
    }
}
static void recv_run(void) {
    io_reset();
    long live = sx_live();
    int batch = sx_choose(3);
    pick_messages(batch ? 3 : 2, SIZES, 4);
    memcpy(wire, want, wantlen);
    int cut = sx_choose((int)wantlen + 1);     /* bytes lost at the end because the peer closed */
    rend = wantlen - (size_t)cut;
    budget = sx_thorough() ? 4 : 3;
    sx_note(" %s, %zu of %zu bytes:", batch ? "batch" : "single", rend, wantlen);
    int got = 0, ended = 0, quiet = 0;
    while (!ended) {
        if (!batch) {
            char *d = (char *)1; uint32_t l = 99;
            int r = mcp_framing_recv_message(FD, &d, &l, 16, NULL);
            sx_op();
            if (r) { SX_CHECK(!d, "leftover", "failed receive leaves a message pointer"); ended = 1; break; }
            check_received(got, d, l);
            got++;
            free(d);
        } else {
            char *d[3]; uint32_t l[3]; size_t n = 77;
            int r = mcp_framing_recv_batch(FD, d, l, batch == 1 ? 2 : 3, &n, 16, NULL);
            sx_op();
            if (r) ended = 1;
            SX_CHECK(n <= 3, "count", "count out of range");
            for (size_t i = 0; i < n; i++) { check_received(got, d[i], l[i]); got++; free(d[i]); }
            if (!r && !n && ++quiet > 5) sx_fail("no-progress", "batch receive keeps returning nothing");
        }
    }
    /* what could be delivered: the messages wholly inside the stream before a failure */
    int whole = 0;
    while (whole < nmsg && start[whole + 1] <= rend) whole++;
    if (!failed_recv) SX_CHECK(got == whole, "lost", "%d messages delivered, %d arrived whole", got, whole);
    else {
        int upto = 0;
        while (upto < nmsg && start[upto + 1] <= rpos) upto++;
        SX_CHECK(got == upto, "lost", "%d messages delivered, %d had been read whole when the connection failed", got, upto);
    }
    SX_CHECK(sx_live() == live, "leak", "%ld blocks are kept by failed receives", sx_live() - live);
    struct { int g, w, e; size_t p; } st = {got, whole, failed_recv, rpos};
    sx_state(&st, sizeof st);
    sx_class("recv %d whole=%d got=%d", batch, whole, got);
}
/* size limit */
static void limit_run(void) {
    io_reset();
    budget = 0;
    int batch = sx_choose(2), before = sx_choose(3);
    static const uint32_t LIM[] = {1, 4, 5, 16}, BAD[] = {0, 1, 2, 251, 0x100, 0xff00, 0x10000, 0x7fffffff, 0x80000000u, 0xfffffffe, 0xffffffffu};
    uint32_t lim = LIM[sx_choose(4)], l2;
    int b = sx_choose(12);
    if (b < 11) { l2 = BAD[b]; if (l2 < 0x100) l2 += lim; } else l2 = 0;
    wantlen = 0; nmsg = before;
    for (int i = 0; i < before; i++) {
        len[i] = 1; text[i][0] = (char)('p' + i);
        start[i] = wantlen;
        memcpy(want + wantlen, "\0\0\0\1", 4); want[wantlen + 4] = (unsigned char)text[i][0];
        wantlen += 5; start[i + 1] = wantlen;
    }
    /* then one of length l2, followed by bytes that look like further frames */
    int ok2 = l2 <= lim;
    want[wantlen] = (unsigned char)(l2 >> 24); want[wantlen + 1] = (unsigned char)(l2 >> 16); want[wantlen + 2] = (unsigned char)(l2 >> 8); want[wantlen + 3] = (unsigned char)l2;
    wantlen += 4;
    if (ok2) {
        len[nmsg] = l2;
        for (uint32_t k = 0; k < l2; k++) text[nmsg][k] = (char)('0' + k);
        memcpy(want + wantlen, text[nmsg], l2); wantlen += l2; nmsg++;
    } else for (int k = 0; k < 6; k++) { memcpy(want + wantlen, "\0\0\0\1X", 5); wantlen += 5; }
    memcpy(wire, want, wantlen); rend = wantlen;
    int got = 0, quiet = 0;
    sx_note("limit %u, %d messages then one of length %u (%s)", lim, before, l2, batch ? "batch" : "single");
    for (;;) {
        if (!batch) {
            char *d; uint32_t l;
            sx_op();
            if (mcp_framing_recv_message(FD, &d, &l, lim, NULL)) break;
            check_received(got, d, l); got++; free(d);
        } else {
            char *d[4]; uint32_t l[4]; size_t n = 0;
            sx_op();
            int r = mcp_framing_recv_batch(FD, d, l, 4, &n, lim, NULL);
            for (size_t i = 0; i < n; i++) { check_received(got, d[i], l[i]); got++; free(d[i]); }
            if (r) break;
            if (!n && ++quiet > 5) sx_fail("no-progress", "batch receive keeps returning nothing");
        }
    }
    SX_CHECK(got == nmsg, "lost", "%d messages delivered, %d are within the limit", got, nmsg);
    int st[4] = {batch, before, (int)lim, (int)l2};
    sx_state(st, sizeof st);
}
/* the stop flag ends the operation with an error and leaves a prefix */
static void stop_run(void) {
    io_reset();
    int side = sx_choose(2);
    pick_messages(1, SIZES, 4);
    budget = 2;
    stop_after = sx_choose(4);
    sx_note(" stop during call %d", stop_after);
    if (side == 0) {
        int r = mcp_framing_send_message(FD, text[0], len[0], &stop);
        sx_op();
        stream_is_prefix();
        if (r == 0) SX_CHECK(wlen == wantlen, "incomplete", "success with %zu of %zu bytes", wlen, wantlen);
        else SX_CHECK(stop || failed_send, "send-result", "failed without reason");
        stop = 1; calls = 0;
        size_t w = wlen;
        SX_CHECK(mcp_framing_send_message(FD, text[0], len[0] ? len[0] : 1, &stop) != 0, "stop-ignored", "send succeeded with the stop flag set");
        SX_CHECK(wlen == w, "stop-ignored", "bytes were sent with the stop flag set");
    } else {
        memcpy(wire, want, wantlen); rend = wantlen;
        char *d; uint32_t l;
        int r = mcp_framing_recv_message(FD, &d, &l, 16, &stop);
        sx_op();
        if (r == 0) { check_received(0, d, l); free(d); }
        else SX_CHECK(stop || failed_recv, "recv-result", "failed without reason");
    }
    struct { int a, b; size_t w, r; } st = {side, stop_after, wlen, rpos};
    sx_state(&st, sizeof st);
}
/* very many messages in one batch (more parts than the kernel takes at once) */
static void many_run(void) {
    static const char *m[1100]; static uint32_t l[1100]; static unsigned char exp[1 << 14];
    io_reset();
    static const int N[] = {1, 511, 512, 513, 600, 1024, 1025, 1030};
    int n = N[sx_choose(8)], z = sx_choose(3);
    size_t e = 0;
    for (int i = 0; i < n; i++) {
        static const char d[] = "abcdefghij";
        l[i] = (z == 0 || (z == 1 && i % 3)) ? 1 : (z == 2 ? (uint32_t)(i % 4) : 0);
        m[i] = d + i % 5;
        memcpy(exp + e, "\0\0\0", 3); exp[e + 3] = (unsigned char)l[i];
        memcpy(exp + e + 4, m[i], l[i]); e += 4 + l[i];
    }
    budget = 0;
    int shortat = sx_choose(4);
    budget = 0;
    sx_note("%d messages in one batch", n);
    if (shortat) budget = 0;
    int r = mcp_framing_send_batch(FD, m, l, (size_t)n, NULL);
    sx_op();
    SX_CHECK(r == 0, "send-result", "a batch of %d messages could not be sent", n);
    SX_CHECK(wlen == e && !memcmp(wire, exp, e), "stream", "the bytes sent for a batch of %d messages are wrong", n);
    sx_state(&n, sizeof n);
}
/* allocation failure anywhere: an error or success, never a wrong message or stream */
static void oom_run(void) {
    io_reset();
    budget = 0;
    int side = sx_choose(4), k = sx_choose(8);
    pick_messages(2, SIZES, 3);
    const char *m[MAXM] = {text[0], text[1]};
    if (side < 2) {
        sx_alloc_fail(k);
        int r = side ? mcp_framing_send_batch(FD, m, len, (size_t)nmsg, NULL) : mcp_framing_send_message(FD, text[0], len[0], NULL);
        sx_alloc_fail(-1);
        sx_op();
        stream_is_prefix();
        if (!r) SX_CHECK(wlen == start[side ? nmsg : 1], "incomplete", "success with part of the bytes");
    } else {
        memcpy(wire, want, wantlen); rend = wantlen;
        int got = 0;
        sx_alloc_fail(k);
        for (;;) {
            if (side == 2) {
                char *d; uint32_t l;
                sx_op();
                if (mcp_framing_recv_message(FD, &d, &l, 16, NULL)) break;
                check_received(got, d, l); got++; free(d);
            } else {
                char *d[2]; uint32_t l[2]; size_t n = 0;
                sx_op();
                int r = mcp_framing_recv_batch(FD, d, l, 2, &n, 16, NULL);
                for (size_t i = 0; i < n; i++) { check_received(got, d[i], l[i]); got++; free(d[i]); }
                if (r || !n) break;
            }
        }
        sx_alloc_fail(-1);
    }
    struct { int a, b; size_t w, r; } st = {side, k, wlen, rpos};
    sx_state(&st, sizeof st);
}

static const sx_scenario S[] = {
    {"send", NULL, send_run, 0, "1-3 messages of 0,1,3,6 bytes by every send function; each socket call full, short by any length, interrupted, would-block or failing"},
    {"recv", NULL, recv_run, 0, "1-3 messages received singly or in batches, the stream cut at every byte, each socket call full, short, interrupted, would-block or failing"},
    {"limit", NULL, limit_run, 0, "message lengths around the limit and around integer boundaries, after 0-2 good messages"},
    {"stop", NULL, stop_run, 0, "stop flag raised during every socket call"},
    {"many", NULL, many_run, 0, "batches around the kernel's limit of parts per call"},
    {"oom", NULL, oom_run, 0, "every allocation failing in turn"},
};
int main(int c, char **v) { return sx_main(c, v, S, sizeof S / sizeof *S); }
