/*
 * Drives the detools C library from a script on stdin and prints what the
 * library did as JSON lines on stdout.  Every session runs in a forked child
 * of its own, so a crash or a hang of the code under test is an observation
 * and not the end of the run.
 *
 * Script lines:
 *   S                      begin a session
 *   i K FROM PATCH         image and patch of object K (hex, '-' = empty)
 *   I K s PSIZE            init a sequential object
 *   I K p PSIZE STEPS      init an in-place object (STEPS: 1 with callbacks)
 *   p K N                  process the next N patch bytes
 *   f K                    finalize
 *   d K SLOT               dump       r K SLOT   restore in a fresh object
 *   o K                    offsets
 *   q K KIND N RV          the N:th call of callback KIND from now fails (RV)
 *   x K N MODE             power is lost at the N:th destructive operation
 *   c K s|p STEPS          pull-style interface on the whole patch
 *   y K                    end the session here if the image is complete
 *   Z K N                  cut the patch of object K to N bytes
 *   N K KIND COUNT LINE     LINE (of another object) is done within the COUNT:th
 *                          callback KIND of object K
 *   E                      end of session
 */
#define _GNU_SOURCE
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include "detools.h"

#define NOBJ 4
#define NSLOT 4

struct obj {
    int k;
    int inplace;
    struct detools_apply_patch_t *seq;
    struct detools_apply_patch_in_place_t *inp;
    uint8_t *img; size_t img_size;
    uint8_t *patch; size_t patch_size; size_t cur;   /* cur: stream position */
    long from_pos;
    int step;                    /* persisted step */
    uint8_t *w; size_t w_size;   /* to-writes of this call */
    int ncb;
    char fkind; int fcount; int frv; char fired;
    int xcount, xmode;
    int first_op;
    int complete;
    int pend;
    int slot;
    FILE *out;                   /* the event being made */
    char *text; size_t text_size;
    jmp_buf power;
    const char *nest[8]; char nkind[8]; int ncount[8]; int nnest;
};

static struct obj objs[NOBJ];
static struct { uint8_t *p; size_t size; size_t cap; size_t rd; } slots[NSLOT];

static FILE *out;
static int one(const char *l);
static unsigned rnd = 12345;

static unsigned garbage(void) { rnd = rnd * 1103515245u + 12345u; return (rnd >> 16) & 0xff; }

static void hex(FILE *out, const uint8_t *p, size_t n)
{
    size_t i;
    static const char digits[] = "0123456789abcdef";
    fputc('"', out);
    for (i = 0; i < n; i++) { putc(digits[p[i] >> 4], out); putc(digits[p[i] & 15], out); }
    fputc('"', out);
}

static long ncalls;

static void op_sep(struct obj *o)
{
    if (!o->first_op) fputc(',', o->out);
    o->first_op = 0;
}

/* A session that does not end, with all that it has written. */
#define MANY 4000000
#define MUCH (64u << 20)

static int fault(struct obj *o, char kind)
{
    int i;
    o->ncb++;
    if (++ncalls > MANY) _exit(3);
    /* What other objects do in the middle of this callback. */
    for (i = 0; i < o->nnest; i++)
        if (o->nkind[i] == kind && o->ncount[i] > 0 && --o->ncount[i] == 0) one(o->nest[i]);
    if (o->fkind == kind && o->fcount > 0) {
        o->fcount--;
        if (o->fcount == 0) { o->fired = kind; o->fkind = 0; return 1; }
    }
    return 0;
}

static int powerloss(struct obj *o)
{
    if (o->xcount > 0) { o->xcount--; return o->xcount == 0; }
    return 0;
}

/* Sequential callbacks. */
static int from_read(void *arg, uint8_t *buf, size_t size)
{
    struct obj *o = arg;
    if (fault(o, 'r')) return o->frv;
    if (o->from_pos < 0 || size > o->img_size || (size_t)o->from_pos > o->img_size - size) return -1;
    memcpy(buf, o->img + o->from_pos, size);
    o->from_pos += size;
    return 0;
}

static int from_seek(void *arg, int offset)
{
    struct obj *o = arg;
    if (fault(o, 's')) return o->frv;
    if (o->from_pos + offset < 0) return -1;
    o->from_pos += offset;
    return 0;
}

static int to_write(void *arg, const uint8_t *buf, size_t size)
{
    struct obj *o = arg;
    if (fault(o, 'w')) return o->frv;
    if (size > MUCH || o->w_size + size > MUCH) _exit(3);
    o->w = realloc(o->w, o->w_size + size + 1);
    memcpy(o->w + o->w_size, buf, size);
    o->w_size += size;
    return 0;
}

static int patch_read(void *arg, uint8_t *buf, size_t size)
{
    struct obj *o = arg;
    if (fault(o, 'P')) return o->frv;
    if (o->cur + size > o->patch_size) return -1;
    memcpy(buf, o->patch + o->cur, size);
    o->cur += size;
    return 0;
}

static int state_write(void *arg, const void *buf, size_t size)
{
    struct obj *o = arg;
    if (fault(o, 'D')) return o->frv;
    if (size > MUCH || slots[o->slot].size + size > MUCH) _exit(3);
    slots[o->slot].p = realloc(slots[o->slot].p, slots[o->slot].size + size);
    memcpy(slots[o->slot].p + slots[o->slot].size, buf, size);
    slots[o->slot].size += size;
    return 0;
}

static int state_read(void *arg, void *buf, size_t size)
{
    struct obj *o = arg;
    if (fault(o, 'U')) return o->frv;
    if (slots[o->slot].rd + size > slots[o->slot].size) return -1;
    memcpy(buf, slots[o->slot].p + slots[o->slot].rd, size);
    slots[o->slot].rd += size;
    return 0;
}

/* In-place callbacks.  An access outside the memory is recorded and refused. */
static int in_mem(struct obj *o, uintptr_t a, size_t n)
{
    return n <= o->img_size && a <= o->img_size - n;
}

static long clip(unsigned long x) { return x > 2000000000ul ? 2000000000l : (long)x; }

static int mem_read(void *arg, void *dst, uintptr_t src, size_t size)
{
    struct obj *o = arg;
    op_sep(o);
    if (fault(o, 'R')) { fprintf(o->out, "[\"R\",%ld,%ld]", clip(src), clip(size)); return o->frv; }
    fprintf(o->out, "[\"r\",%ld,%ld]", clip(src), clip(size));
    if (!in_mem(o, src, size)) return -1;
    memcpy(dst, o->img + src, size);
    return 0;
}

static int mem_write(void *arg, uintptr_t dst, void *src, size_t size)
{
    struct obj *o = arg;
    size_t i;
    op_sep(o);
    if (fault(o, 'W')) { fprintf(o->out, "[\"W\",%ld,%ld]", clip(dst), clip(size)); return o->frv; }
    if (!in_mem(o, dst, size)) { fprintf(o->out, "[\"x\",%ld,%ld]", clip(dst), clip(size)); return -1; }
    if (powerloss(o)) {
        if (o->xmode == 0) size = 0;
        else if (o->xmode == 1) size = (size + 1) / 2;
        else if (o->xmode == 2) {
            for (i = 0; i < size; i++) o->img[dst + i] = garbage();
            fprintf(o->out, "[\"c\",%ld,", clip(dst)); hex(o->out, o->img + dst, size); fputc(']', o->out);
            longjmp(o->power, 1);
        }
        memcpy(o->img + dst, src, size);
        fprintf(o->out, "[\"w\",%ld,", clip(dst)); hex(o->out, src, size); fputc(']', o->out);
        longjmp(o->power, 1);
    }
    memcpy(o->img + dst, src, size);
    fprintf(o->out, "[\"w\",%ld,", clip(dst)); hex(o->out, src, size); fputc(']', o->out);
    return 0;
}

static int mem_erase(void *arg, uintptr_t addr, size_t size)
{
    struct obj *o = arg;
    size_t i;
    op_sep(o);
    if (fault(o, 'E')) { fprintf(o->out, "[\"Er\",%ld,%ld]", clip(addr), clip(size)); return o->frv; }
    if (!in_mem(o, addr, size)) { fprintf(o->out, "[\"x\",%ld,%ld]", clip(addr), clip(size)); return -1; }
    if (powerloss(o)) {
        if (o->xmode == 0) size = 0;
        else if (o->xmode == 1) size = (size + 1) / 2;
        else if (o->xmode == 2) {
            for (i = 0; i < size; i++) o->img[addr + i] = garbage();
            fprintf(o->out, "[\"c\",%ld,", clip(addr)); hex(o->out, o->img + addr, size); fputc(']', o->out);
            longjmp(o->power, 1);
        }
        memset(o->img + addr, 0xff, size);
        fprintf(o->out, "[\"e\",%ld,%ld]", clip(addr), clip(size));
        longjmp(o->power, 1);
    }
    memset(o->img + addr, 0xff, size);
    fprintf(o->out, "[\"e\",%ld,%ld]", clip(addr), clip(size));
    return 0;
}

static int step_set(void *arg, int step)
{
    struct obj *o = arg;
    op_sep(o);
    if (fault(o, 'S')) { fprintf(o->out, "[\"S\",%d]", step); return o->frv; }
    if (powerloss(o)) {
        if (o->xmode >= 2) { o->step = step; if (step == 0) o->complete = 1; fprintf(o->out, "[\"s\",%d]", step); }
        else fprintf(o->out, "[\"n\"]");
        longjmp(o->power, 1);
    }
    o->step = step;
    if (step == 0) o->complete = 1;
    fprintf(o->out, "[\"s\",%d]", step);
    return 0;
}

static int step_get(void *arg, int *step)
{
    struct obj *o = arg;
    if (fault(o, 'G')) { op_sep(o); fprintf(o->out, "[\"G\"]"); return o->frv; }
    *step = o->step;
    return 0;
}

/* Script. */
static uint8_t *unhex(const char *s, size_t *n)
{
    size_t i, len;
    uint8_t *p;
    if (strcmp(s, "-") == 0) { *n = 0; return malloc(1); }
    len = strlen(s) / 2;
    p = malloc(len + 1);
    for (i = 0; i < len; i++) {
        int a = s[2 * i], b = s[2 * i + 1];
        p[i] = (a <= '9' ? a - '0' : a - 'a' + 10) * 16 + (b <= '9' ? b - '0' : b - 'a' + 10);
    }
    *n = len;
    return p;
}

static void begin(struct obj *o, const char *e)
{
    o->w_size = 0; o->ncb = 0; o->fired = 0; o->first_op = 1;
    o->out = open_memstream(&o->text, &o->text_size);
    fprintf(o->out, "{\"e\":\"%s\",\"k\":%d,\"ops\":[", e, o->k);
}

static void emit(struct obj *o)
{
    fclose(o->out);
    o->out = NULL;
    fwrite(o->text, 1, o->text_size, out);
    free(o->text);
    fflush(out);
}

static void finish(struct obj *o, int res)
{
    fprintf(o->out, "],\"res\":%d,\"w\":", res);
    hex(o->out, o->w, o->w_size);
    fprintf(o->out, ",\"ncb\":%d,\"fault\":\"%c\",\"frv\":%d}\n", o->ncb, o->fired ? o->fired : '-', o->fired ? o->frv : 0);
    emit(o);
}

static void crashed(struct obj *o)
{
    fprintf(o->out, "],\"n\":%d,\"res\":0,\"w\":\"\",\"ncb\":0,\"fault\":\"X\"}\n", o->pend);
    emit(o);
    o->inp = NULL;
}

static void run(char **lines, int n)
{
    int i, k;

    for (k = 0; k < NOBJ; k++) objs[k].k = k;
    for (i = 0; i < n; i++)
        if (one(lines[i])) break;
    for (k = 0; k < NOBJ; k++) {
        if (objs[k].img != NULL) {
            fprintf(out, "{\"e\":\"m\",\"k\":%d,\"img\":", k);
            hex(out, objs[k].img, objs[k].inplace ? objs[k].img_size : 0);
            fprintf(out, ",\"step\":%d}\n", objs[k].step);
        }
    }
    fflush(out);
}

/* One line of the script.  Also called from within a callback of another
 * object.  Returns whether the session is over. */
static int one(const char *l)
{
    int k, a, b, c;
    char *f1, *f2, s1[16];
    struct obj *o;

    {
        k = atoi(l + 1);
        if (k < 0 || k >= NOBJ) k = 0;
        o = &objs[k];
        /* After a power loss nothing happens until the next start. */
        if (strchr("pf", l[0]) && o->inplace && o->inp == NULL) return 0;
        switch (l[0]) {
        case 'i': {
            uint8_t *img, *patch; size_t is, ps;
            f1 = malloc(strlen(l)); f2 = malloc(strlen(l));
            if (sscanf(l + 1, "%d %s %s", &k, f1, f2) != 3) abort();
            img = unhex(f1, &is); patch = unhex(f2, &ps);
            o->img = img; o->img_size = is; o->patch = patch; o->patch_size = ps;
            break;
        }
        case 'y':
            /* End of session if the image is complete. */
            if (o->complete) return 1;
            break;
        case 'Z':
            sscanf(l + 1, "%d %d", &k, &a);
            if ((size_t)a < o->patch_size) o->patch_size = a;
            break;
        case 'I': {
            int res;
            c = 1;
            if (sscanf(l + 1, "%d %15s %d %d", &k, s1, &a, &c) < 3) abort();
            if (a < 0) a = (int)o->patch_size;
            o->cur = 0; o->from_pos = 0;
            begin(o, "I");
            /* Objects come from dirty memory, as they do on a stack. */
            if (s1[0] == 's') {
                o->inplace = 0;
                o->seq = malloc(sizeof(*o->seq));
                memset(o->seq, 0xa5, sizeof(*o->seq));
                res = detools_apply_patch_init(o->seq, from_read, from_seek, a, to_write, o);
            } else {
                o->inplace = 1;
                o->inp = malloc(sizeof(*o->inp));
                memset(o->inp, 0xa5, sizeof(*o->inp));
                res = detools_apply_patch_in_place_init(
                    o->inp, mem_read, mem_write, mem_erase,
                    c ? step_set : NULL, c ? step_get : NULL, a, o);
            }
            finish(o, res);
            break;
        }
        case 'p': {
            int res; uint8_t *chunk; size_t m;
            sscanf(l + 1, "%d %d", &k, &a);
            m = a;
            if (a < 0 || m > o->patch_size - o->cur) m = o->patch_size - o->cur;
            chunk = malloc(m ? m : 1);
            memcpy(chunk, o->patch + o->cur, m);
            o->pend = m;
            begin(o, "p");
            if (setjmp(o->power)) { crashed(o); break; }
            if (o->inplace) res = detools_apply_patch_in_place_process(o->inp, chunk, m);
            else res = detools_apply_patch_process(o->seq, chunk, m);
            o->cur += m;
            memset(chunk, 0xcc, m);
            free(chunk);
            fprintf(o->out, "],\"n\":%d,\"z\":[", (int)m);
            finish(o, res);
            break;
        }
        case 'f': {
            int res;
            o->pend = 0;
            begin(o, "f");
            if (setjmp(o->power)) { crashed(o); break; }
            if (o->inplace) res = detools_apply_patch_in_place_finalize(o->inp);
            else res = detools_apply_patch_finalize(o->seq);
            if (res >= 0) o->complete = 1;
            finish(o, res);
            break;
        }
        case 'd': {
            int res;
            sscanf(l + 1, "%d %d", &k, &o->slot);
            slots[o->slot].size = 0;
            begin(o, "d");
            res = detools_apply_patch_dump(o->seq, state_write);
            fprintf(o->out, "],\"slot\":%d,\"z\":[", o->slot);
            finish(o, res);
            break;
        }
        case 'r': {
            int res;
            sscanf(l + 1, "%d %d", &k, &o->slot);
            slots[o->slot].rd = 0;
            o->from_pos = 0;
            o->seq = malloc(sizeof(*o->seq));
            memset(o->seq, 0x5a, sizeof(*o->seq));
            res = detools_apply_patch_init(o->seq, from_read, from_seek, o->patch_size, to_write, o);
            begin(o, "r");
            res = detools_apply_patch_restore(o->seq, state_read);
            fprintf(o->out, "],\"slot\":%d,\"po\":%ld,\"to\":%ld,\"z\":[", o->slot,
                    clip(detools_apply_patch_get_patch_offset(o->seq)),
                    clip(detools_apply_patch_get_to_offset(o->seq)));
            o->cur = detools_apply_patch_get_patch_offset(o->seq);
            if (o->cur > o->patch_size) o->cur = o->patch_size;
            finish(o, res);
            break;
        }
        case 'o':
            begin(o, "o");
            fprintf(o->out, "],\"po\":%ld,\"to\":%ld,\"z\":[",
                    clip(detools_apply_patch_get_patch_offset(o->seq)),
                    clip(detools_apply_patch_get_to_offset(o->seq)));
            finish(o, 0);
            break;
        case 'N': {
            /* N K KIND COUNT LINE: LINE is done in the COUNT:th callback KIND of K */
            int used = 0;
            sscanf(l + 1, "%d %15s %d %n", &k, s1, &a, &used);
            if (o->nnest < 8) {
                o->nkind[o->nnest] = s1[0]; o->ncount[o->nnest] = a;
                o->nest[o->nnest++] = l + 1 + used;
            }
            break;
        }
        case 'q':
            sscanf(l + 1, "%d %15s %d %d", &k, s1, &a, &b);
            o->fkind = s1[0]; o->fcount = a; o->frv = b;
            break;
        case 'x':
            sscanf(l + 1, "%d %d %d", &k, &a, &b);
            o->xcount = a; o->xmode = b;
            break;
        case 'c': {
            int res;
            c = 1;
            sscanf(l + 1, "%d %15s %d", &k, s1, &c);
            o->cur = 0; o->from_pos = 0;
            o->inplace = s1[0] != 's';
            begin(o, "c");
            if (setjmp(o->power)) { crashed(o); break; }
            if (s1[0] == 's')
                res = detools_apply_patch_callbacks(from_read, from_seek, patch_read,
                                                    o->patch_size, to_write, o);
            else
                res = detools_apply_patch_in_place_callbacks(
                    mem_read, mem_write, mem_erase, c ? step_set : NULL, c ? step_get : NULL,
                    patch_read, o->patch_size, o);
            finish(o, res);
            break;
        }
        default:
            fprintf(stderr, "bad line %s\n", l);
            abort();
        }
    }
    return 0;
}

static void within(int ms)
{
    struct itimerval t = { { 0, 0 }, { ms / 1000, ms % 1000 * 1000 } };
    setitimer(ITIMER_REAL, &t, NULL);
}

int main(int argc, char **argv)
{
    char *line = NULL; size_t cap = 0; ssize_t len;
    char **lines = NULL; int n = 0, ncap = 0, idx = 0;
    int limit = argc > 1 ? atoi(argv[1]) : 10, hung = 0;

    out = stdout;
    signal(SIGPIPE, SIG_IGN);
    while ((len = getline(&line, &cap, stdin)) > 0) {
        if (line[len - 1] == '\n') line[--len] = 0;
        if (line[0] == 'S') { n = 0; continue; }
        if (line[0] == 'E') {
            int status; pid_t pid;
            printf("{\"e\":\"session\",\"i\":%d}\n", idx++);
            fflush(stdout);
            pid = fork();
            if (pid == 0) { within(hung < 2 ? limit * 1000 : hung < 20 ? 1000 : 30); run(lines, n); _exit(0); }
            waitpid(pid, &status, 0);
            if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM)
                hung++;
            if (WIFSIGNALED(status))
                printf("\n{\"e\":\"killed\",\"sig\":%d}\n", WTERMSIG(status));
            else if (WEXITSTATUS(status) != 0)
                printf("\n{\"e\":\"killed\",\"sig\":%d}\n", 1000 + WEXITSTATUS(status));
            fflush(stdout);
            continue;
        }
        if (n == ncap) { ncap = ncap * 2 + 16; lines = realloc(lines, ncap * sizeof(*lines)); memset(lines + n, 0, (ncap - n) * sizeof(*lines)); }
        lines[n++] = strdup(line);
    }
    return 0;
}
