/* L01: lists of files of patched packages are read for what they say. */
#include "vp.h"
#include "vp_mem.h"
#include "drpm.h"
#include "drpm_private.h"
#include <stdio.h>
#include <fcntl.h>
#include "vp_sprintf.h"
#include "drpm_make.c"
#ifndef CUT
#define CUT 0
#endif
#ifndef FAIL
#define FAIL 0
#endif
extern bool vp_oom_hit;
static bool may_fail, failed;
static bool fails(void) { if (FAIL && may_fail && nd_bool()) { failed = true; return true; } return false; }

/* two files */
#define PRINT 0
#define PATCH 1
static const char *const fnames[] = { "print", "patch" };
static unsigned char data[2][WHAT == 7 ? 1400 : 220];
static size_t len[2], pos[2];
static int opened[2], closes;
int vp_open(const char *n, int fl, ...)
{
    VP_ASSERT((fl & O_ACCMODE) == O_RDONLY, "opened to be read");
    if (fails()) return -1;
    int i = !strcmp(n, fnames[PATCH]);
    VP_ASSERT(!strcmp(n, fnames[i]) && !opened[i], "one of the lists");
    opened[i] = 1;
    pos[i] = 0;
    return 7 + i;
}
int vp_close(int fd)
{
    if (fd == -1) return -1;
    VP_ASSERT((fd == 7 || fd == 8) && opened[fd - 7], "open file closed");
    opened[fd - 7] = 0;
    closes++;
    return 0;
}
ssize_t vp_read(int fd, void *b, size_t n)
{
    VP_ASSERT((fd == 7 || fd == 8) && opened[fd - 7], "open file");
    int i = fd - 7;
    if (fails()) return -1;
    size_t left = pos[i] < len[i] ? len[i] - pos[i] : 0, k = n < left ? n : left;
    for (size_t j = 0; j < k; j++) ((unsigned char *)b)[j] = data[i][pos[i] + j];
    pos[i] += k;
    return k;
}
off_t vp_lseek(int fd, off_t o, int w)
{
    VP_ASSERT((fd == 7 || fd == 8) && opened[fd - 7], "open file");
    if (fails()) return -1;
    if (w == SEEK_SET) pos[fd - 7] = o;
    else { VP_ASSERT(w == SEEK_CUR, "seek"); pos[fd - 7] += o; }
    return pos[fd - 7];
}

#define MAXF 4
#define MAXNAME (WHAT == 7 ? 300 : 8)
struct want { char name[MAXNAME]; uint16_t mode; bool unpatched; unsigned char md5[16]; };
struct wants { char nevr[WHAT == 7 ? 520 : 16]; struct want f[MAXF]; size_t n; bool bad; };

static struct wants want[2];
static char prev[MAXNAME];

static void put(int i, unsigned v) { VP_ASSERT(len[i] < sizeof data[0], "room"); data[i][len[i]++] = v; }
static void put16(int i, unsigned v) { put(i, v >> 8 & 0xFF); put(i, v & 0xFF); }
static void put32(int i, uint32_t v) { put16(i, v >> 16); put16(i, v & 0xFFFF); }
static char nd_char(void) { if (WHAT == 7) return 'x'; char c = nd_u8(); VP_ASSUME(c != 0); return c; }
static void put_str(int i, char *to, size_t n)
{
    put(i, n);
    for (size_t j = 0; j < n; j++) { char c = nd_char(); put(i, (unsigned char)c); if (to) *to++ = c; }
    if (to) *to = 0;
}
/* a name which continues the first off characters of the one before */
static void put_name(int i, size_t off, size_t n, bool wide)
{
    put(i, off);
    if (wide) { put(i, 0xFF); put16(i, n); } else put(i, n);
    if (off > strlen(prev)) { want[i].bad = true; off = 0; }
    for (size_t j = 0; j < n; j++) { char c = nd_char(); put(i, (unsigned char)c); prev[off + j] = c; }
    prev[off + n] = 0;
}
static void put_dot_name(int i, char c)
{
    put(i, 0); put(i, 3); put(i, '.'); put(i, '/'); put(i, (unsigned char)c);
    prev[0] = '.'; prev[1] = '/'; prev[2] = c; prev[3] = 0;
}
static struct want *add(int i, const char *name, bool unpatched)
{
    struct want *w = &want[i].f[want[i].n++];
    strcpy(w->name, name);
    w->unpatched = unpatched;
    w->mode = unpatched ? S_IFREG : 0;
    memset(w->md5, 0, 16);
    return w;
}
static void put_head(int i, size_t nn, size_t vn, size_t hn, uint16_t patches)
{
    char *p = want[i].nevr;
    prev[0] = 0;
    put32(i, MAGIC_RPML);
    put_str(i, p, nn);
    p[nn] = '-';
    put_str(i, p + nn + 1, vn);
    put_str(i, NULL, hn);
    put32(i, 0x5F3B21C7);
    put16(i, patches);
}
/* mode, numbers to skip and what else comes with the mode */
static void put_rest(int i, struct want *w, uint16_t mode, int form)
{
    w->mode = mode;
    put16(i, mode);
    if (mode == 0) return;
    unsigned low = 0, skip = 0;
    bool sized = S_ISREG(mode) || S_ISLNK(mode);
#define LOW (sized ? vp_choose(0, 3) : 2)
    uint8_t num;
    if (form < 2) {     /* one byte */
        #if CUT
        unsigned a = form, b = form;
#else
        unsigned a = form ? vp_choose(0, 7) : 0, b = form ? a ? 7 * vp_choose(0, 1) : vp_choose(0, 7) : 0;
#endif
        low = LOW;
        num = a << 5 | b << 2 | low;
        VP_ASSUME(num != 0xFF);
        skip = (a ? a + 1 : 0) + (b ? b + 1 : 0);
        put(i, num);
    } else {
        unsigned a = CUT ? 1 : vp_choose(0, 2), b = CUT ? 2 : vp_choose(0, 1) ? 1 : vp_choose(0, 1) ? 63 : 0;
        low = LOW;
        num = b << 2 | low;
        skip = (a ? a + 1 : 0) + (b ? b + 1 : 0);
        put(i, 0xFF); put(i, a); put(i, num);
    }
    for (unsigned j = 0; j < skip; j++) put(i, 0x31 + j);
    if (S_ISCHR(mode) || S_ISBLK(mode)) put32(i, 0x08010305);
    if (sized) {
        int kind = vp_choose(0, 2);       /* empty, only the last byte counts, only the first */
        for (unsigned j = 0; j <= low; j++) {
            uint8_t v = 0;
            if (kind && j == (kind == 1 ? low : 0)) v = kind == 1 ? 1 : 0x80;
            put(i, v);
        }
        if (kind) for (unsigned j = 0; j < 16; j++) { w->md5[j] = 0xA1 + 5 * j; put(i, w->md5[j]); }
    }
}
static void put_end(int i) { put(i, 0); put(i, 0); }

static void check_info(const struct patch_info *p, const struct wants *w)
{
    VP_ASSERT(p->nevr && !strcmp(p->nevr, w->nevr), "name, version and release");
    VP_ASSERT(p->file_count == w->n, "as many files as are listed");
    for (size_t i = 0; i < w->n; i++) {
        const struct patch_file *f = &p->files[i];
        VP_ASSERT(!strcmp(f->name, w->f[i].name), "name of a file");
        VP_ASSERT(f->mode == w->f[i].mode, "mode of a file");
        VP_ASSERT(!(f->flags & RPMFILE_UNPATCHED) == !w->f[i].unpatched, "patched or not");
        VP_ASSERT(!memcmp(f->md5, w->f[i].md5, 16), "digest of a file");
    }
}
static void free_info(struct patch_info *p)
{
    for (size_t i = 0; i < p->file_count; i++) free(p->files[i].name);
    free(p->files);
    free(p->nevr);
}

#if WHAT >= 5
/* the package the patch is for */
static struct rpm { int dummy; } the_rpm;
static int rpms;
static size_t rpm_files;
static struct file_info rpm_info[2];
int rpm_read(struct rpm **r, const char *fn, int how, unsigned short *af, unsigned char *seq, unsigned char *md5)
{
    VP_ASSERT(!strcmp(fn, fnames[PRINT]) && how == RPM_ARCHIVE_DONT_READ && !seq && !md5, "package opened");
    (void)af;
    *r = NULL;
    bool f = fails();
    if (!f || vp_choose(0, 1)) { *r = &the_rpm; rpms++; }   /* what was read is to be released either way */
    return f ? DRPM_ERR_IO : DRPM_ERR_OK;
}
int rpm_destroy(struct rpm **r) { if (!r || !*r) return DRPM_ERR_PROG; VP_ASSERT(*r == &the_rpm && rpms == 1, "package released once"); rpms--; *r = NULL; return DRPM_ERR_OK; }
int rpm_get_nevr(struct rpm *r, char **n)
{
    VP_ASSERT(r == &the_rpm && rpms == 1, "package in use");
    if (fails()) return DRPM_ERR_MEMORY;
    if (!(*n = malloc(strlen(want[PRINT].nevr) + 1))) return DRPM_ERR_MEMORY;
    strcpy(*n, want[PRINT].nevr);
    return DRPM_ERR_OK;
}
static char *dup_text(const char *s) { char *p = malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
int rpm_get_file_info(struct rpm *r, struct file_info **files, size_t *count, bool *colors)
{
    VP_ASSERT(r == &the_rpm && rpms == 1 && !colors, "package in use");
    if (fails()) return DRPM_ERR_FORMAT;
    struct file_info *f = malloc(2 * sizeof *f);
    if (!f) return DRPM_ERR_MEMORY;
    memset(f, 0, 2 * sizeof *f);
    for (size_t i = 0; i < rpm_files; i++) {
        f[i] = rpm_info[i];
        f[i].name = dup_text(rpm_info[i].name);
        f[i].md5 = dup_text(rpm_info[i].md5);
        f[i].linkto = dup_text(rpm_info[i].linkto);
        if (!f[i].name || !f[i].md5 || !f[i].linkto) {
            for (size_t j = 0; j <= i; j++) { free(f[j].name); free(f[j].md5); free(f[j].linkto); }
            free(f);
            return DRPM_ERR_MEMORY;
        }
    }
    *files = f;
    *count = rpm_files;
    return DRPM_ERR_OK;
}
#endif

void harness(void)
{
#if WHAT < 5 || WHAT == 7 || WHAT == 8
    struct patch_info got = { 0 };
    const int i = PATCH;
#if WHAT == 0       /* head */
    unsigned np = vp_choose(0, 2);
    size_t n1 = vp_choose(0, 2), n2 = vp_choose(0, 2), n3 = vp_choose(0, 2);
    put_head(i, n1, n2, n3, np);
    if (np) {
        for (unsigned k = 0; k < np; k++) put_str(i, NULL, vp_choose(0, 2));
        put32(i, 0);
    }
#elif WHAT == 1     /* files that are not patched */
    unsigned nf = vp_choose(0, 2);
    put_head(i, 1, 1, 1, 1);
    put_str(i, NULL, 1);
    put32(i, nf);
    for (unsigned k = 0; k < nf; k++) {
        size_t off = k ? vp_choose(0, 4) : vp_choose(0, 1), nn = vp_choose(0, 2);
        put_name(i, off, nn, vp_choose(0, 1));
        add(i, prev, true);
    }
#elif WHAT == 2     /* any other file */
    static const uint16_t modes[] = { 0, S_IFREG | 0644, S_IFLNK | 0777, S_IFCHR | 0600, S_IFBLK | 0600, S_IFDIR | 0755, S_IFIFO };
    put_head(i, 1, 1, 1, 0);
    bool dot = vp_choose(0, 1);
    if (dot) put_dot_name(i, nd_char()); else { put_name(i, 0, 1 + CUT, CUT); VP_ASSUME(prev[0] != '.'); }
    uint16_t mode = modes[vp_choose(0, 6)];
    put_rest(i, add(i, dot ? prev + 2 : prev, false), mode, vp_choose(0, 2));
#elif WHAT == 3     /* several */
    bool first = vp_choose(0, 1);
    put_head(i, 1, 1, 1, first);
    if (first) { put_str(i, NULL, 1); put32(i, 1); put_name(i, 0, 2, false); add(i, prev, true); }
    for (unsigned k = 0; k < 2; k++) {
        size_t off = k ? vp_choose(0, 3) : first ? 2 * vp_choose(0, 1) : 0, nn = CUT ? 1 : vp_choose(1, 2);
        put_name(i, off, nn, false);
        VP_ASSUME(prev[0] != '.');
        static const uint16_t modes[] = { 0, S_IFREG | 0644, S_IFDIR };
        put_rest(i, add(i, prev, false), modes[vp_choose(0, 2)], 0);
    }
#elif WHAT == 4     /* one of everything, failures */
    put_head(i, 1, 1, 1, 1);
    put_str(i, NULL, 1); put32(i, 1); put_name(i, 0, 1, false); add(i, prev, true);
    put_name(i, 1, 1, true); VP_ASSUME(prev[0] != '.');
    struct want *w = add(i, prev, false);
    w->mode = S_IFLNK; put16(i, S_IFLNK);
    put(i, 0xFF); put(i, 1); put(i, 1 << 2); put32(i, 0x31323334);
    put(i, 5);
    for (unsigned j = 0; j < 16; j++) { w->md5[j] = j == 9 ? nd_u8() : 0xA1 + 5 * j; put(i, w->md5[j]); }
    put_name(i, 2, 1, false);
    add(i, prev, false)->mode = S_IFCHR; put16(i, S_IFCHR); put(i, 0); put32(i, 0x08010305);
#elif WHAT == 7     /* long texts */
    static const uint16_t lens[] = { 127, 128, 254, 255, 256, 257 };
    put_head(i, 255, 128, 129, 1);
    put_str(i, NULL, 200);
    put32(i, 1);
    unsigned n = lens[vp_choose(0, 5)];
    put_name(i, 0, n, n > 254 || vp_choose(0, 1));
    add(i, prev, true);
    unsigned off = lens[vp_choose(0, 3)];
    put_name(i, off, 1, vp_choose(0, 1));
    add(i, prev, false);
    put16(i, 0);
#elif WHAT == 8     /* anything */
    bool lists = vp_choose(0, 1);
    put_head(i, 1, 1, 1, lists);
    size_t any = vp_choose(0, 5);
    for (size_t k = 0; k < any; k++) put(i, vp_choose(0, 1) ? nd_range(0, 3) : vp_choose(0, 1) ? nd_range(0xE0, 0xE1) : 0xFF);
    want[i].bad = true;
    put16(i, 0xFFFF);
#endif
#if WHAT != 8
    put_end(i);
#endif
    size_t whole = len[i];
#if WHAT < 2 || CUT
    if (vp_choose(0, 1)) len[i] = vp_choose(WHAT ? 17 : 0, whole - 1);
#endif
    may_fail = true;
#if FAIL
    vp_oom = true;
#endif
    bool magic = WHAT == 0 && vp_choose(0, 1);
    int fd = 8;
    opened[PATCH] = 1;
    if (magic) { uint32_t m = nd_u32(); for (int k = 0; k < 4; k++) data[i][k] = m >> (24 - 8 * k); if (m == MAGIC_RPML) magic = false; }
    bool skip = !magic && WHAT == 1 && vp_choose(0, 1);
    if (skip) pos[i] = 4;
    int e = read_rpmlist(fd, &got, skip);
    vp_oom = false;
    VP_ASSERT(opened[PATCH], "left open");
    if (WHAT != 8 && (len[i] < whole || magic || want[i].bad)) VP_ASSERT(e != DRPM_ERR_OK, "what is cut off or malformed is refused");
    else if (WHAT != 8 && !failed && !vp_oom_hit) VP_ASSERT(e == DRPM_ERR_OK, "well-formed lists are read");
#if WHAT == 8
    free_info(&got); VP_ASSERT(vp_live == 0, "nothing left"); VP_REACH("anything"); return;
#endif
    if (failed || vp_oom_hit) VP_ASSERT(e != DRPM_ERR_OK, "failures are reported");
    if (e == DRPM_ERR_OK) {
        check_info(&got, &want[i]);
        VP_ASSERT(pos[i] == len[i], "read to its end");
#if WHAT != 8
        VP_REACH("list");
#endif
    }
    free_info(&got);
    VP_ASSERT(vp_live == 0, "nothing left");

#elif WHAT == 5     /* both */
    static const char *const md5t[] = { "", "000102030405060708090a0b0c0d0e0f", "x00102030405060708090a0b0c0d0e0f", "000102030405060708090a0b0c0d0e0f000102030405060708090a0b0c0d0e0f" };
    static char nm[2][4];
    struct rpm_patches *p = (struct rpm_patches *)&want;
    bool no_print = false, no_patch = false;
    int kind = vp_choose(0, FAIL ? 1 : 2);
    put_head(PATCH, 1, 1, 0, 0);
    put_name(PATCH, 0, 1, false); VP_ASSUME(prev[0] != '.');
    put_rest(PATCH, add(PATCH, prev, false), 0, 0);
    put_end(PATCH);
    if (kind == 1) {
        put_head(PRINT, 1, 1, 0, 1);
        put_str(PRINT, NULL, 0); put32(PRINT, 1);
        put_name(PRINT, 0, 1, false); add(PRINT, prev, true);
        put_end(PRINT);
    } else {
        uint32_t m = kind == 0 ? MAGIC_RPM : nd_u32();
        VP_ASSUME(kind == 0 || (m != MAGIC_RPM && m != MAGIC_RPML));
        put32(PRINT, m);
        strcpy(want[PRINT].nevr, "a-1");
        rpm_files = vp_choose(0, 2);
        for (size_t k = 0; k < rpm_files; k++) {
            bool slash = FAIL ? true : vp_choose(0, 1);
            int t = FAIL ? 1 : vp_choose(0, k == 0 ? 3 : 1);
            nm[k][0] = slash ? '/' : nd_char(); nm[k][1] = nd_char();
            VP_ASSUME(slash || nm[k][0] != '/');
            rpm_info[k].name = nm[k];
            rpm_info[k].md5 = (char *)md5t[t];
            rpm_info[k].linkto = "";
            rpm_info[k].mode = nd_u16();
            rpm_info[k].flags = nd_u32();
            struct want *w = add(PRINT, nm[k] + slash, (rpm_info[k].flags & RPMFILE_UNPATCHED) != 0);
            w->mode = rpm_info[k].mode;
            if (t > 1) want[PRINT].bad = true;
            if (t == 1) for (unsigned j = 0; j < 16; j++) w->md5[j] = j;
        }
    }
    if (!FAIL) { no_print = vp_choose(0, 1); no_patch = vp_choose(0, 1); }
    bool cut_ = !FAIL && !no_print && !no_patch && vp_choose(0, 1);
    if (cut_) { int k = kind == 2 ? PATCH : vp_choose(0, 1); len[k] = vp_choose(0, kind == 0 && k == PRINT ? 3 : len[k] - 1); }
    may_fail = true;
#if FAIL
    vp_oom = true;
#endif
    int e = patches_read(no_print ? NULL : fnames[PRINT], no_patch ? NULL : fnames[PATCH], &p);
    vp_oom = false;
    VP_ASSERT(!opened[0] && !opened[1], "files closed");
    VP_ASSERT(rpms == 0, "package released");
    if (no_print || no_patch) { VP_ASSERT(e == DRPM_ERR_OK && p == NULL, "no patches"); VP_ASSERT(vp_live == 0, "nothing left"); return; }
    if (cut_ || kind == 2 || want[PRINT].bad) VP_ASSERT(e != DRPM_ERR_OK, "what is cut off or unknown is refused");
    else if (!failed && !vp_oom_hit) VP_ASSERT(e == DRPM_ERR_OK, "read");
    if (failed || vp_oom_hit) VP_ASSERT(e != DRPM_ERR_OK, "failures are reported");
    if (e == DRPM_ERR_OK) {
        check_info(&p->rpmprint, &want[PRINT]);
        check_info(&p->patchrpm, &want[PATCH]);
        if (vp_choose(0, 1)) {
            char nevr[8];
            size_t n = vp_choose(0, 4);
            for (size_t k = 0; k < n; k++) nevr[k] = nd_char();
            nevr[n] = 0;
            bool same = !strcmp(nevr, want[0].nevr) && !strcmp(nevr, want[1].nevr);
            VP_ASSERT((patches_check_nevr(p, nevr) == DRPM_ERR_OK) == same, "patches of another package are refused");
        }
        VP_ASSERT(patches_destroy(&p) == DRPM_ERR_OK, "released");
        VP_REACH("both");
    }
    VP_ASSERT(p == NULL, "no patches after a failure");
    VP_ASSERT(vp_live == 0, "nothing left");

#elif WHAT == 6     /* which files are not patched */
    struct rpm_patches p = { 0 };
    int kind = vp_choose(0, 3);
    unsigned which = kind == 2 ? vp_choose(0, 15) : 3;
    struct patch_file f[2][2];
    char nm[2][2][3], name[3], text[80];
    size_t n[2];
    for (int k = 0; k < 2; k++) {
        n[k] = vp_choose(0, kind == 1 ? 2 : 1);
        for (size_t j = 0; j < 2; j++) {
            nm[k][j][0] = nd_char(); nm[k][j][1] = nd_u8(); nm[k][j][2] = 0;
            f[k][j].name = nm[k][j];
            f[k][j].mode = nd_u16();
            f[k][j].flags = nd_u32();
            for (int x = 0; x < 16; x++) f[k][j].md5[x] = x * 17;
            if (k == 1) f[k][j].md5[which] = nd_u8();
        }
    }
    p.rpmprint.files = f[0]; p.rpmprint.file_count = n[0];
    p.patchrpm.files = f[1]; p.patchrpm.file_count = n[1];
    name[0] = nd_char(); name[1] = nd_u8(); name[2] = 0;
    unsigned char d[16];
    d[which] = nd_u8();
    static const char hex[] = "0123456789abcdef";
    if (kind == 0) text[0] = 0;
    else {
        for (int j = 0; j < 16; j++) {
            if (j != which || kind != 2) d[j] = f[1][0].md5[j];
            text[2 * j] = d[j] >> 4 > 9 ? (d[j] >> 4) - 10 + 'a' : (d[j] >> 4) + '0';
            text[2 * j + 1] = (d[j] & 15) > 9 ? (d[j] & 15) - 10 + 'a' : (d[j] & 15) + '0';
        }
        text[32] = 0;
        if (kind == 3) { text[32] = '0'; text[33] = 0; }
    }
    bool got = is_unpatched(&p, name, text);
    int a = -1, b = -1;
    for (int j = n[0] - 1; j >= 0; j--) if (!strcmp(nm[0][j], name)) a = j;
    for (int j = n[1] - 1; j >= 0; j--) if (!strcmp(nm[1][j], name)) b = j;
    if (a < 0 || !(f[0][a].flags & RPMFILE_UNPATCHED)) VP_ASSERT(!got, "patched files are used");
    else if (b < 0) VP_ASSERT(got, "a file the patch does not know is left out");
    else {
        bool same = kind == 1 || kind == 2;
        if (same) for (int j = 0; j < 16; j++) if (d[j] != f[1][b].md5[j]) same = false;
        VP_ASSERT(got == !same, "a file is used if it is the same in the patch");
        VP_REACH("compared");
    }
#endif
}
