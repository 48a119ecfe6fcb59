/* P02: the old archive as made for a standard delta (parse_cpio_from_rpm_filedata)
 * against the reference archive that A02 compares the applying side with, and
 * its sequence against the real expand_sequence(). */
#include "vp.h"
#include "vp_mem.h"
void *vp_malloc(size_t);
#include "drpm.h"
#include "drpm_private.h"
#include <rpm/rpmfi.h>
#include <rpm/rpmfc.h>
#include "archref.h"
#include "vp_sprintf.h"
#include "md5log.h"

#ifndef FAIL
#define FAIL 0
#endif
#ifndef PATCHES    /* lists of files that are not patched */
#define PATCHES 0
#endif
#ifndef HOSTILE     /* an entry with arbitrary name and file lengths */
#define HOSTILE 0
#endif
#ifndef ALGO
#define ALGO DIGESTALGO_MD5
#endif
#ifndef ORDER
#define ORDER 0
#endif
extern bool vp_oom_hit;
static bool failed;
static bool fails(void) { if (FAIL && nd_bool()) { failed = true; return true; } return false; }

#ifdef VP_SYM
unsigned gnu_dev_major(unsigned long d) { return d >> 8 & 0xfff; }
unsigned gnu_dev_minor(unsigned long d) { return d & 0xff; }
unsigned long gnu_dev_makedev(unsigned a, unsigned b) { return (unsigned long)a << 8 | b; }
#endif

#define FILES 6
static struct file_info files[FILES];
static size_t nfiles = FILES;
static bool colors;

struct rpm { int x; };
static struct rpm the_rpm;
static unsigned char arch[REF_MAX];
static size_t archn, archpos;
static bool rewound, arch_short;
int rpm_archive_rewind(struct rpm *r) { VP_ASSERT(r == &the_rpm, "old package"); rewound = true; archpos = 0; return DRPM_ERR_OK; }
int rpm_archive_read_chunk(struct rpm *r, void *b, size_t n)
{
    VP_ASSERT(r == &the_rpm && rewound, "old package, read from the start");
    if (fails()) return DRPM_ERR_IO;
    if (n > archn - archpos) { arch_short = true; return DRPM_ERR_FORMAT; }
    if (b) memcpy(b, arch + archpos, n);
    archpos += n;
    return DRPM_ERR_OK;
}
static char *copy_of(const char *s)
{
    size_t n = strlen(s) + 1;
    char *d = vp_malloc(n);
    if (d) memcpy(d, s, n);
    return d;
}
int rpm_get_file_info(struct rpm *r, struct file_info **f, size_t *n, bool *c)
{
    VP_ASSERT(r == &the_rpm, "old package");
    if (fails()) return DRPM_ERR_FORMAT;
    struct file_info *x = vp_malloc(FILES * sizeof *x);
    if (!x) return DRPM_ERR_MEMORY;
    vp_oom = false;
    for (size_t i = 0; i < nfiles; i++) {
        x[i] = files[i];
        x[i].name = copy_of(files[i].name);
        x[i].md5 = copy_of(files[i].md5);
        x[i].linkto = copy_of(files[i].linkto);
    }
    vp_oom = FAIL;
    *f = x;
    *n = nfiles;
    *c = colors;
    return DRPM_ERR_OK;
}
int rpm_get_digest_algo(struct rpm *r, unsigned short *a) { VP_ASSERT(r == &the_rpm, "old package"); if (fails()) return DRPM_ERR_FORMAT; *a = ALGO; return DRPM_ERR_OK; }

#if PATCHES
/* lists of files of the package that are patched */
static unsigned char lists[2][128];
static size_t listn[2], listpos;
static int list_fd;
int vp_open(const char *n, int fl, ...) { (void)fl; list_fd = n[0] == 'p' ? 0 : 1; listpos = 0; return 7 + list_fd; }
int vp_close(int fd) { VP_ASSERT(fd == 7 + list_fd, "open file"); return 0; }
off_t vp_lseek(int fd, off_t o, int w) { VP_ASSERT(fd == 7 + list_fd && w == 1, "open file"); return listpos += o; }
ssize_t vp_read(int fd, void *b, size_t n)
{
    VP_ASSERT(fd == 7 + list_fd, "open file");
    n = MIN(n, listn[list_fd] - listpos);
    memcpy(b, lists[list_fd] + listpos, n);
    listpos += n;
    return n;
}
int read_be32(int fd, uint32_t *v) { unsigned char b[4]; if (vp_read(fd, b, 4) != 4) return DRPM_ERR_FORMAT; *v = parse_be32(b); return DRPM_ERR_OK; }
int rpm_destroy(struct rpm **r) { return r && !*r ? DRPM_ERR_OK : DRPM_ERR_PROG; }
static void put(int k, const void *p, size_t n) { memcpy(lists[k] + listn[k], p, n); listn[k] += n; }
static bool listed[2][FILES];
static void make_lists(void)
{
    static const int at[2] = { 0, 4 };
    for (int k = 0; k < 2; k++) {
        put(k, "RPML" "\1n" "\1v" "\0" "\0\0\0\0" "\0", 14);
        put(k, k ? "\0" : "\1", 1);
        int cnt = 0;
        for (int i = 0; i < 2; i++) { listed[k][at[i]] = vp_choose(0, 1); cnt += listed[k][at[i]]; }
        if (k == 0) { put(k, "\0" "\0\0\0", 4); lists[k][listn[k]++] = cnt; }
        for (int i = 0; i < 2; i++)
            if (listed[k][at[i]]) {
                const char *nm = files[at[i]].name[0] == '/' ? files[at[i]].name + 1 : files[at[i]].name;
                lists[k][listn[k]++] = 0;
                lists[k][listn[k]++] = strlen(nm);
                put(k, nm, strlen(nm));
                if (k == 1) {
                    /* as listed in the package or not */
                    int v = vp_choose(0, 2);        /* the same, another digest, no digest */
                    put(k, "\201\244\0", 3);
                    lists[k][listn[k]++] = v != 2;
                    if (v != 2) for (int j = 0; j < 16; j++) {
                        uint8_t b = 0xA0 + j;
                        if (v == 1 && j == 15) { b = nd_u8(); VP_ASSUME(b != 0xAF); }
                        lists[k][listn[k]++] = b;
                    }
                    if (v == 0) listed[0][at[i]] = false;   /* as good as patched */
                }
            }
        put(k, "\0\0", 2);
    }
}
#endif

static size_t put_entry(const char *pre, const char *name, uint32_t mode, const unsigned char *c, uint32_t size)
{
    /* a real archive has owners, times and so on */
    size_t at = refn;
    ref_header(mode, size, 0, 0, pre, name);
    size_t end = refn;
    refn = at + 6;
    ref_hex8(mode + size);
    refn = at + 22;
    ref_hex8(1000);
    refn = end;
    for (uint32_t i = 0; i < size; i++) ref[refn++] = c[i];
    while (refn % 4) ref[refn++] = 0;
    return at;
}

void harness(void)
{
    static char names[FILES][8] = { "/lib/x", "/dd", "/lnk", "/dev", "b/c", "/gone" };
    static const uint16_t modes[FILES] = { S_IFREG | 0644, S_IFDIR | 0755, S_IFLNK | 0777, S_IFCHR | 0600, S_IFREG | 0755, S_IFREG | 0600 };
    static unsigned char content[FILES][8];
    static char link[8], sum[72];
    for (int k = 0; k < (ALGO == DIGESTALGO_MD5 ? 32 : 64); k++) sum[k] = "0123456789abcdefABCDEF"[k % 22];
#if PATCHES
    for (int k = 0; k < 32; k++) sum[k] = k % 2 ? "0123456789abcdef"[k / 2] : 'a';
#endif
    for (int i = 0; i < FILES; i++) {
        files[i].name = names[i];
        files[i].mode = modes[i];
        files[i].linkto = "";
        files[i].md5 = sum;
        files[i].verify = RPMVERIFY_MD5 | RPMVERIFY_FILESIZE;
        nd_bytes(content[i], 8);
    }
    size_t ll = vp_choose(1, 4);
    for (size_t i = 0; i < ll; i++) { link[i] = nd_u8(); VP_ASSUME(link[i] != 0); }
    files[2].linkto = link;
    files[3].rdev = 0x0104;
    files[0].size = FAIL || HOSTILE || PATCHES ? 3 : vp_choose(0, 4);
    files[4].size = 5;
    /* which attributes a regular file has is arbitrary */
    int any = FAIL || HOSTILE || PATCHES ? -1 : vp_choose(0, 1) * 4;
    if (any >= 0) {
        files[any].flags = nd_u32();
        files[any].verify = nd_u32();
        files[any].color = nd_u32();
        colors = nd_bool();
    }
    struct rpm_patches *patches = NULL;
#if PATCHES
    make_lists();
    VP_ASSERT(patches_read("print", "Patch", &patches) == DRPM_ERR_OK && patches, "lists of patched files are read");
#endif
    long live0 = vp_live;
    static const signed char orders[3][FILES + 1] = { { 0, 1, 2, 3, 4, -1 }, { 4, 2, 0, -1 }, { 3, 0, 4, 1, -1 } };
    const signed char *o = orders[ORDER];

    /* the package's own archive: with or without "./", with files that are not listed,
     * sizes other than listed, names followed by more bytes */
    unsigned variant = FAIL || HOSTILE || PATCHES ? 0 + 2 * PATCHES : vp_choose(0, 7);
    size_t extra = variant == 1 ? 0 : variant == 2 ? 2 : 9, cn = 0, ooff[FILES + 1];
    const char *pre = variant == 1 ? "" : "./";
    int idx[FILES + 1];
    bool hostile_tail = false;
    for (size_t k = 0; o[k] >= 0; k++) {
        struct file_info *f = &files[(int)o[k]];
        const char *nm = f->name[0] == '/' ? f->name + 1 : f->name;
        if (k == extra) put_entry("./", "zz", S_IFREG, content[1], 3);
        bool reg = S_ISREG(f->mode);
        uint32_t s = reg ? f->size : S_ISLNK(f->mode) ? strlen(f->linkto) : 0;
        if (variant == 3 && o[k] == 4) s += 4;          /* a file that is not what is listed */
        if (variant >= 6 && o[k] == 4) s -= variant == 6 ? 5 : 1;   /* a hard link without data; a shorter file */
        if (variant == 4 && !reg) s = 4;                /* data where there should be none */
        bool in = true;
        if (reg)
            in = s == f->size && !(f->flags & (RPMFILE_CONFIG | RPMFILE_MISSINGOK | RPMFILE_GHOST))
                 && (f->verify & RPMVERIFY_MD5) && (f->verify & RPMVERIFY_FILESIZE)
                 && !(colors && (f->color & (RPMFC_ELF32 | RPMFC_ELF64)) && !strstr(nm, "lib/"));
#if PATCHES
        in = in && !listed[0][(int)o[k]];
#endif
        size_t at = put_entry(variant == 5 && k == 0 ? "./" : pre, nm, f->mode,
                              reg || variant == 4 ? content[(int)o[k]] : (unsigned char *)f->linkto, s);
        if (variant == 5 && k == 1) { memcpy(ref + at + 94, "00000010", 8); /* name field of 16 bytes */
            size_t was = at + 110 + strlen(nm) + 3, end = at + 110 + 16 + 2;
            was = (was + 3) / 4 * 4;
            size_t move = refn - was;
            for (size_t j = move; j-- > 0; ) ref[end + j] = ref[was + j];
            for (size_t j = was; j < end; j++) ref[j] = 0;
            refn = end + move;
        }
        if (in) { ooff[cn] = at; idx[cn++] = o[k]; }
    }
#if HOSTILE
    /* an entry with a name or contents of any length */
    size_t h = put_entry("./", "b/c", S_IFREG, content[4], 5);
    size_t fld = vp_choose(0, 1) ? 94 : 54;
    static const char vals[8][9] = { "00000000", "00000001", "00000003", "00000008", "00001000", "7fffffff", "fffffffd", "FFFFFFFF" };
    memcpy(ref + h + fld, vals[vp_choose(0, 7)], 8);
    hostile_tail = true;
#endif
    ref_trailer();
    memcpy(arch, ref, archn = refn);
    refn = 0;
    static struct cpio_file want[FILES + 1];
    size_t at = 0;
    for (size_t k = 0; k < cn; k++) { ref_index(&want[k], &at, &files[idx[k]], idx[k]); ref_entry(&files[idx[k]], content[idx[k]]); }
    ref_index(&want[cn], &at, NULL, -1);
    ref_trailer();
    nd_bytes(md5_out, 16);

    unsigned char *cpio = NULL, *seq = NULL;
    size_t clen = 0;
    uint32_t slen = 0, *adj = NULL, adjn = 0;
    bool offadj = FAIL || HOSTILE || PATCHES ? true : vp_choose(0, 1);
    vp_oom = md5_fail = FAIL;
    int e = parse_cpio_from_rpm_filedata(&the_rpm, &cpio, &clen, &seq, &slen, offadj ? &adj : NULL, offadj ? &adjn : NULL, patches);
    vp_oom = md5_fail = false;
    if (e != DRPM_ERR_OK) {
        VP_ASSERT(failed || vp_oom_hit || md5_failed || hostile_tail, "a well-formed package can be used");
        VP_ASSERT(vp_live == live0 && !cpio && !seq && !adj, "nothing left behind after an error");
#if FAIL || HOSTILE
        VP_REACH("refused");
#endif
        return;
    }
    VP_ASSERT(!failed && !vp_oom_hit && !md5_failed, "failures are reported");
    VP_ASSERT(vp_live == live0 + 2 + (adj != NULL) && cpio && seq && (adjn == 0 || adj), "archive and sequence, nothing else");
    if (hostile_tail) { return; }
    bool same = clen == refn;
    for (size_t i = 0; i < refn && same; i++) same &= cpio[i] == ref[i];
    VP_ASSERT(same, "the archive that applying will see");

    /* where each entry was in the package's archive */
    if (offadj) {
        size_t j = 0;
        int64_t pos = 0, d = 0;
        for (size_t k = 0; k < cn; k++) {
            while (j < adjn && pos + adj[2 * j] <= want[k].offset) { pos += adj[2 * j]; d += (int32_t)adj[2 * j + 1]; j++; }
            VP_ASSERT((int64_t)ooff[k] == (int64_t)want[k].offset + d, "offset adjustments lead to the package's archive");
        }
        VP_ASSERT(j == adjn, "no other adjustments");
    }

    /* and what applying makes of the sequence */
    static unsigned char log[MD5_LOGMAX];
    size_t logn = md5_n;
    VP_ASSERT(md5_state == 2 && slen >= 16 && !memcmp(seq, md5_out, 16), "digest at the start of the sequence");
    memcpy(log, md5_log, logn);
    md5_state = 0;
    struct cpio_file *cf = NULL;
    size_t cfn = 0;
    e = expand_sequence(&cf, &cfn, seq, slen, files, nfiles, ALGO, DRPM_CHECK_NONE);
    VP_ASSERT(e == DRPM_ERR_OK, "applying accepts the sequence");
    VP_ASSERT(md5_n == logn && !memcmp(log, md5_log, logn), "both digests cover the same");
    VP_ASSERT(cfn == cn + 1, "as many entries");
    for (size_t k = 0; k <= cn; k++)
        VP_ASSERT(cf[k].index == want[k].index && cf[k].offset == want[k].offset && cf[k].header_len == want[k].header_len
                  && cf[k].content_len == want[k].content_len, "entries where they are");
#if !FAIL && !HOSTILE
    if (cn > 2 && variant == 2) VP_REACH("same archive");
#endif
    free(cpio); free(seq); free(adj); free(cf);
    VP_ASSERT(vp_live == live0, "nothing else left");
    if (patches) { patches_destroy(&patches); VP_ASSERT(vp_live == 0, "patches released"); }
}
