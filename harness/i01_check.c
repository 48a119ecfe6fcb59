/* I01: checking installed files, through expand_sequence(). Digests are opaque
 * functions of what is fed to them. */
#include "vp.h"
#include "vp_mem.h"
#include "drpm.h"
#include "drpm_private.h"
#include <sys/stat.h>
#include <openssl/sha.h>

#ifndef ALGO
#define ALGO 1
#endif
#ifndef FAIL
#define FAIL 0
#endif
#ifndef PRELINK     /* the file is one that prelink modified */
#define PRELINK 0
#endif
#define DLEN (ALGO == DIGESTALGO_MD5 ? 16 : 32)
#define MAXC 6

static bool failed;
static bool fails(void) { if (FAIL && nd_bool()) { failed = true; return true; } return false; }

/* two digests at a time: the one over the sequence (0) and the one over a file (1) */
static unsigned char flog[4 * MAXC], file_digest[32], seq_digest[16];
static size_t flen;
static int started[2], users;
static void *ctx[2];
static int begin(void *c)
{
    if (fails()) return 0;
    if (users == 2) users = 1;      /* a checksum begun and given up */
    ctx[users] = c;
    started[users++] = 1;
    flen = users == 2 ? 0 : flen;
    return 1;
}
static int which(void *c) { VP_ASSERT((users > 0 && c == ctx[0]) || (users > 1 && c == ctx[1]), "digest started"); return users > 1 && c == ctx[1]; }
static int more(void *c, const unsigned char *p, size_t n)
{
    int w = which(c);
    VP_ASSERT(started[w] == 1, "digest started");
    if (fails()) return 0;
    if (w) for (size_t i = 0; i < n; i++) { VP_ASSERT(flen < sizeof flog, "room"); flog[flen++] = p[i]; }
    return 1;
}
static int end(unsigned char *o, void *c, size_t n)
{
    int w = which(c);
    VP_ASSERT(started[w] == 1, "digest started");
    if (fails()) return 0;
    started[w] = 2;
    memcpy(o, w ? file_digest : seq_digest, n);
    if (w) users = 1;
    return 1;
}
int MD5_Init(MD5_CTX *c) { return begin(c); }
int MD5_Update(MD5_CTX *c, const void *p, size_t n) { return more(c, p, n); }
int MD5_Final(unsigned char *o, MD5_CTX *c) { return end(o, c, 16); }
int SHA256_Init(SHA256_CTX *c) { return begin(c); }
int SHA256_Update(SHA256_CTX *c, const void *p, size_t n) { return more(c, p, n); }
int SHA256_Final(unsigned char *o, SHA256_CTX *c) { return end(o, c, 32); }

/* the installed file: fsize bytes; for PRELINK, an ELF file with an undo section,
 * which prelink restores to content */
static const char fname[] = "/f";
static bool missing, no_prelink, plain;
static unsigned char content[MAXC], elf[0x34 + 40 + 20];
static size_t fsize, csize, pos;
static int fd_open, tmp_open, tmpfiles, children;
int stat(const char *n, struct stat *s)
{
    if (!strcmp(n, "/usr/sbin/prelink")) return no_prelink ? -1 : 0;
    VP_ASSERT(!strcmp(n, fname), "the file listed");
    if (missing || fails()) return -1;
    s->st_size = fsize;
    return 0;
}
int fstat(int fd, struct stat *s)
{
    VP_ASSERT(fd == 8 && fd_open == 1, "open file");
    if (fails()) return -1;
    s->st_size = fsize;
    return 0;
}
static char tmpname[20];
int vp_open(const char *n, int fl, ...)
{
    (void)fl;
    if (fails()) return -1;
    pos = 0;
    if (tmpname[0] && !strcmp(n, tmpname)) { tmp_open++; return 10; }
    VP_ASSERT(!strcmp(n, fname), "the file listed");
    if (missing) return -1;
    fd_open++;
    return 8;
}
int vp_close(int fd)
{
    VP_ASSERT((fd == 8 && fd_open == 1) || (fd == 10 && tmp_open == 1) || (fd == 9 && tmp_open == 2), "open file");
    if (fd == 8) fd_open--;
    else if (fd == 10) tmp_open--;
    else tmp_open = 0;
    return 0;
}
ssize_t vp_read(int fd, void *b, size_t n)
{
    VP_ASSERT((fd == 8 && fd_open == 1) || (fd == 10 && tmp_open == 1), "open file");
    if (fails()) return -1;
    bool raw = PRELINK && fd == 8;
    size_t size = raw ? fsize : csize, k = size - pos;
    if (k > n) k = n;
    if (!raw && k > 1) k = vp_choose(1, k);         /* any portions */
    memcpy(b, raw ? elf + pos : content + pos, k);
    pos += k;
    return k;
}
ssize_t vp_pread(int fd, void *b, size_t n, off_t o)
{
    VP_ASSERT(fd == 8 && fd_open == 1, "open file");
    if (FAIL && nd_bool()) { plain = true; return -1; }     /* then it does not look prelinked */
    if ((uint64_t)o > sizeof elf || n > sizeof elf - o) return 0;
    memcpy(b, elf + o, n);
    return n;
}
int vp_mkstemp(char *t) { if (fails()) return -1; t[strlen(t) - 1] = 'a'; strcpy(tmpname, t); tmpfiles++; tmp_open = 2; return 9; }
pid_t vp_fork(void) { if (fails()) return -1; children++; return 42; }
int vp_execl(const char *a, const char *b, ...) { (void)a; (void)b; VP_ASSERT(0, "only the child runs prelink"); return -1; }
pid_t vp_waitpid(pid_t p, int *st, int o) { (void)o; VP_ASSERT(p == 42 && children == 1, "child"); *st = 0; children--; return p; }
int vp_unlink(const char *n) { VP_ASSERT(!strcmp(n, tmpname) && tmpfiles == 1, "temporary file"); tmpfiles--; return 0; }

void harness(void)
{
    extern bool vp_oom_hit;
    static struct file_info f;
    static char sum[65];
    unsigned char seq[17];
    for (int i = 0; i < 16; i++) seq[i] = seq_digest[i] = i;
    seq[16] = 0x10;
    f.name = (char *)fname;
    f.mode = S_IFREG | 0644;
    f.md5 = sum;
    f.linkto = "";
    for (int i = 0; i < 2 * DLEN; i++) sum[i] = "0123456789abcdef"[i % 16];
    for (int i = 0; i < DLEN; i++) file_digest[i] = (2 * i % 16) << 4 | (2 * i + 1) % 16;
    unsigned char x = nd_u8(), y = nd_u8();
    file_digest[0] ^= x;
    file_digest[DLEN - 1] ^= y;
    nd_bytes(content, MAXC);
    missing = vp_choose(0, 1);
    csize = vp_choose(0, MAXC - 1);
    f.size = vp_choose(0, MAXC - 1);
    if (PRELINK) {
        no_prelink = nd_bool();
        fsize = sizeof elf;
        memcpy(elf, "\177ELF\1\1", 6);
        elf[32] = 0x34; elf[46] = 40; elf[48] = 1;
        elf[0x34 + 4] = 3; elf[0x34 + 16] = 0x34 + 40; elf[0x34 + 20] = 20;
        memcpy(elf + 0x34 + 40, ".gnu.prelink_undo", 18);
    } else fsize = csize;
    /* what has the right digest: the beginning of the content, arbitrary */
    bool full = vp_choose(0, 1);
    vp_oom = FAIL;
    int e = expand_sequence(NULL, NULL, seq, sizeof seq, &f, 1, ALGO, full ? DRPM_CHECK_FULL : DRPM_CHECK_FILESIZES);
    VP_ASSERT(vp_live == 0, "no memory left behind");
    VP_ASSERT(fd_open == 0 && tmp_open == 0, "no file left open");
    VP_ASSERT(tmpfiles == 0 && children == 0, "no temporary file or process left behind");
    if (failed || vp_oom_hit) {
        VP_ASSERT(e != DRPM_ERR_OK, "failures are reported");
#if FAIL
        VP_REACH("failure");
#endif
        return;
    }
    if (f.size == 0) { VP_ASSERT(e == DRPM_ERR_OK, "empty files need no check"); return; }
    if (missing) { VP_ASSERT(e != DRPM_ERR_OK && e != DRPM_ERR_MISMATCH, "missing files are reported"); return; }
    if (!full && (!PRELINK || plain)) {
        VP_ASSERT(e == (fsize == f.size ? DRPM_ERR_OK : DRPM_ERR_MISMATCH), "size check");
        return;
    }
    if (PRELINK && !plain && no_prelink) { VP_ASSERT(e != DRPM_ERR_OK, "cannot be checked without prelink"); return; }
    size_t n = plain || csize >= f.size ? f.size : csize;
    VP_ASSERT(flen == n && memcmp(flog, plain ? elf : content, n) == 0, "digest over the content");
    VP_ASSERT(e == ((x | y) == 0 ? DRPM_ERR_OK : DRPM_ERR_MISMATCH), "digest check");
#if !FAIL
    if (e == DRPM_ERR_OK && n > 3) VP_REACH("confirmed");
    if (e == DRPM_ERR_MISMATCH) VP_REACH("changed");
#endif
}
