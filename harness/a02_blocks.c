/* A02: old data through the block cache (drpm_block.c), for the requests that
 * applying makes. MODE 0: rpm-only, 1: standard from the package,
 * 2: from the filesystem, 3: from the filesystem with prelinked files. */
#include "vp.h"
#include "vp_mem.h"
void *vp_malloc(size_t);
#include "drpm.h"
#include "drpm_private.h"
#include "archref.h"
#include "vp_sprintf.h"

#ifndef FAIL
#define FAIL 0
#endif
#ifndef COPIES
#define COPIES 2
#endif
#ifndef SPAN            /* copies of this many blocks and one */
#define SPAN 8
#endif
#define BS DRPM_VERIFY_BLOCK_SIZE
extern bool vp_oom_hit;
static bool failed;
static bool fails(void) { if (FAIL && nd_bool()) { failed = true; return true; } return false; }
int MD5_Update(MD5_CTX *c, const void *p, size_t n) { (void)c; (void)p; (void)n; return 1; }

#ifdef VP_SYM
unsigned gnu_dev_major(unsigned long d) { return d >> 8 & 0xfff; }
unsigned gnu_dev_minor(unsigned long d) { return d & 0xff; }
#endif

/* the old package */
struct rpm { int x; };
static struct rpm the_rpm;
static unsigned char arch[REF_MAX], hdr[4];
static size_t archn, archpos, hdrn;
static bool arch_short;
int rpm_archive_read_chunk(struct rpm *r, void *b, size_t n)
{
    VP_ASSERT(r == &the_rpm, "old package");
    if (fails()) return DRPM_ERR_IO;
    if (n > archn - archpos) { arch_short = true; return DRPM_ERR_FORMAT; }
    if (b) memcpy(b, arch + archpos, n);
    archpos += n;
    return DRPM_ERR_OK;
}
int rpm_fetch_header(struct rpm *r, unsigned char **h, uint32_t *n)
{
    VP_ASSERT(r == &the_rpm, "old package");
    *h = NULL;
    *n = 0;
    if (fails()) return DRPM_ERR_IO;
    if ((*h = vp_malloc(hdrn ? hdrn : 1)) == NULL) return DRPM_ERR_MEMORY;
    memcpy(*h, hdr, hdrn);
    *n = hdrn;
    return DRPM_ERR_OK;
}

/* files: regular, directory, symbolic link, device, regular */
#define FILES 5
static struct file_info files[FILES];
static struct cpio_file cpio[FILES + 1];
static size_t cn, order[FILES], norder;
static unsigned char content[FILES][8];
static bool prelinked[FILES];
static int opened[FILES], pre_opened[FILES], n_open;
static size_t fpos[FILES], ppos[FILES];

/* the temporary file */
static unsigned char page[64 * BS < REF_MAX ? 64 * BS : REF_MAX];
static bool tmp_open, tmp_named;
int vp_mkstemp(char *t) { VP_ASSERT(!tmp_open, "one temporary file"); if (fails()) return -1; t[strlen(t) - 1] = 'a'; tmp_open = tmp_named = true; return 50; }
int vp_unlink(const char *n) { (void)n; VP_ASSERT(tmp_named, "temporary file"); tmp_named = false; return 0; }
ssize_t vp_pwrite(int fd, const void *b, size_t n, off_t o)
{
    VP_ASSERT(fd == 50 && tmp_open && o >= 0 && o + n <= sizeof page, "temporary file");
    if (fails()) return nd_bool() ? -1 : (ssize_t)n - 1;
    memcpy(page + o, b, n);
    return n;
}
ssize_t vp_pread(int fd, void *b, size_t n, off_t o)
{
    if (fd == 50) {
        VP_ASSERT(tmp_open && o >= 0 && o + n <= sizeof page, "temporary file");
        if (fails()) return nd_bool() ? -1 : (ssize_t)n - 1;
        memcpy(b, page + o, n);
        return n;
    }
    VP_ASSERT(fd >= 100 && fd < 100 + FILES && opened[fd - 100], "open file");
    if (fails()) return -1;
    memset(b, 0, n);
    return n;
}
int vp_open(const char *n, int fl, ...)
{
    (void)fl;
    if (fails()) return -1;
    for (int i = 0; i < FILES; i++)
        if (!strcmp(n, files[i].name)) {
            VP_ASSERT(S_ISREG(files[i].mode) && !opened[i], "regular files are opened, once");
            opened[i] = 1;
            n_open++;
            VP_ASSERT(MODE == 3 || n_open <= DRPM_VERIFY_MAX_OPEN_FILES + 1, "not too many open files");
            fpos[i] = 0;
            return 100 + i;
        }
    VP_ASSERT(0, "only listed files are opened");
    return -1;
}
int fstat(int fd, struct stat *s)
{
    VP_ASSERT(fd >= 100 && fd < 100 + FILES && opened[fd - 100], "open file");
    s->st_size = files[fd - 100].size + (prelinked[fd - 100] ? 3 : 0);
    return 0;
}
int is_prelinked(bool *r, int fd, const unsigned char *b, ssize_t n)
{
    VP_ASSERT(fd >= 100 && fd < 100 + FILES && opened[fd - 100] && b, "open file");
    if (n < 0) return DRPM_ERR_IO;
    if (fails()) return DRPM_ERR_MEMORY;
    *r = prelinked[fd - 100];
    return DRPM_ERR_OK;
}
int prelink_open(const char *n, int *fd)
{
    if (fails()) return DRPM_ERR_OTHER;
    for (int i = 0; i < FILES; i++)
        if (!strcmp(n, files[i].name)) {
            VP_ASSERT(prelinked[i] && !pre_opened[i], "prelinked file");
            pre_opened[i] = 1;
            ppos[i] = 0;
            *fd = 200 + i;
            return DRPM_ERR_OK;
        }
    return DRPM_ERR_OTHER;
}
int vp_close(int fd)
{
    if (fd == 50) { VP_ASSERT(tmp_open, "open file"); tmp_open = false; }
    else if (fd >= 200) { VP_ASSERT(fd < 200 + FILES && pre_opened[fd - 200], "open file"); pre_opened[fd - 200] = 0; }
    else { VP_ASSERT(fd >= 100 && fd < 100 + FILES && opened[fd - 100], "open file"); opened[fd - 100] = 0; n_open--; }
    return 0;
}
off_t vp_lseek(int fd, off_t o, int w)
{
    (void)w;
    if (fails()) return -1;
    if (fd >= 200) { VP_ASSERT(fd < 200 + FILES && pre_opened[fd - 200], "open file"); ppos[fd - 200] = o; }
    else { VP_ASSERT(fd >= 100 && fd < 100 + FILES && opened[fd - 100], "open file"); fpos[fd - 100] = o; }
    return o;
}
ssize_t vp_read(int fd, void *b, size_t n)
{
    bool pre = fd >= 200;
    int i = fd - (pre ? 200 : 100);
    VP_ASSERT(i >= 0 && i < FILES && (pre ? pre_opened : opened)[i], "open file");
    if (fails()) return -1;
    size_t *p = pre ? &ppos[i] : &fpos[i], k = *p >= files[i].size ? 0 : files[i].size - *p;
    if (k > n) k = n;
    /* what prelink changed does not belong into the archive */
    for (size_t j = 0; j < k; j++) ((unsigned char *)b)[j] = content[i][*p + j] ^ (prelinked[i] && !pre ? 0x55 : 0);
    *p += k;
    return k;
}

#if MODE
static void put_entry(const char *pre, const struct file_info *f, const unsigned char *c, uint32_t size, uint32_t odd)
{
    /* a real archive has owners, times and so on */
    size_t at = refn;
    memcpy(ref + REF_MAX - 1, "", 1);
    ref_header(f->mode, size, 0, 0, pre, f->name[0] == '/' ? f->name + 1 : f->name);
    size_t end = refn;
    refn = at + 6;
    ref_hex8(odd);
    refn = at + 22;
    ref_hex8(1000);
    refn = end;
    for (uint32_t i = 0; i < size; i++) ref[refn++] = c[i];
    while (refn % 4) ref[refn++] = 0;
}
#endif

void harness(void)
{
    uint64_t ext;
    static uint32_t copies[2 * COPIES + 1];
#if MODE == 0
    hdrn = COPIES > 2 ? 3 : vp_choose(0, 3);
    ext = EXT;
    nd_bytes(hdr, hdrn);
    nd_bytes(arch, EXT);
    archn = EXT - hdrn;
    memcpy(ref, hdr, hdrn);
    memcpy(ref + hdrn, arch, archn);
    refn = EXT;
#else
    static char names[FILES][6] = { "/a", "/dd", "/lnk", "/dev", "b/c" };
    static const uint16_t modes[FILES] = { S_IFREG | 0644, S_IFDIR | 0755, S_IFLNK | 0777, S_IFCHR | 0600, S_IFREG | 0755 };
    for (int i = 0; i < FILES; i++) {
        files[i].name = names[i];
        files[i].mode = modes[i];
        files[i].linkto = "";
        nd_bytes(content[i], 8);
    }
    static char link[8];
    for (int i = 0; i < 7; i++) { link[i] = nd_u8(); VP_ASSUME(link[i] != 0); }
    files[2].linkto = link;
    files[3].rdev = 0x0104;
    files[0].size = MODE == 1 ? 5 : vp_choose(0, 1) * 5;
    files[4].size = MODE == 1 ? 3 : vp_choose(3, 4);
    static const signed char orders[5][FILES + 1] = { { 0, 1, 2, 3, 4, -1 }, { 4, 3, 0, -1 }, { 2, 4, 0, -1 }, { 4, 0, 2, -1 }, { 1, 2, 4, 0, -1 } };
    const signed char *o = orders[ORDER];
    size_t at = 0;
    bool wrong_size = false;
#if MODE == 1
    /* the package's own archive: possibly with a file more than listed, with a file of another size,
     * one without name, or data where there should be none */
    unsigned variant = vp_choose(0, 5);
    size_t extra = variant == 1 ? 0 : variant == 2 ? 2 : 9;
    bool dot = variant != 1;
    struct file_info other = { .name = "zz", .mode = S_IFREG };
    int odd = variant == 3 ? 4 : -1;
    for (size_t k = 0; o[k] >= 0; k++) {
        struct file_info *f = &files[(int)o[k]];
        if (k == extra) put_entry("./", &other, content[1], 3, 7);
        bool reg = S_ISREG(f->mode);
        uint32_t s = reg ? f->size : S_ISLNK(f->mode) ? strlen(f->linkto) : 0;
        if (variant == 5 && !reg) s = 4;        /* data where there should be none */
        if (o[k] == odd) { s += 4; wrong_size = true; }
        put_entry(dot ? "./" : "", f, reg || variant == 5 ? content[(int)o[k]] : (unsigned char *)f->linkto, s, 3);
    }
    ref_trailer();
    memcpy(arch, ref, archn = refn);
    if (variant == 4) memcpy(arch + 94, "00000000", 8);
    refn = 0;
#endif
    for (; o[cn] >= 0; cn++) {
        ref_index(&cpio[cn], &at, &files[(int)o[cn]], o[cn]);
        ref_entry(&files[(int)o[cn]], content[(int)o[cn]]);
#if MODE == 3
        if (S_ISREG(files[(int)o[cn]].mode) && files[(int)o[cn]].size) prelinked[(int)o[cn]] = vp_choose(0, 1);
#endif
    }
    ref_index(&cpio[cn], &at, NULL, -1);
    ref_trailer();
    cn++;
    VP_ASSERT(at == refn, "reference");
    ext = refn;
#endif
    /* copies anywhere in the old data */
    size_t count = vp_choose(0, COPIES), from[COPIES + 1], len[COPIES + 1];
    int64_t pos = 0;
    for (size_t i = 0; i < count; i++) {
#if MODE == 0
        from[i] = vp_choose(0, ext);
#ifdef LENS
        static const size_t lens[] = LENS;
        len[i] = lens[vp_choose(0, sizeof lens / sizeof *lens - 1)];
        if (len[i] > ext - from[i]) len[i] = ext - from[i];
#else
        len[i] = vp_choose(0, ext - from[i]);
#endif
#else
        size_t b = vp_choose(0, ext / BS), e = vp_choose(b, ext / BS - b > SPAN ? b + SPAN : ext / BS);
        from[i] = b * BS;
        len[i] = (e + 1) * BS - 1 - from[i];
        if (from[i] > ext) from[i] = ext;
        if (len[i] > ext - from[i]) len[i] = ext - from[i];
#endif
        copies[2 * i] = (int32_t)((int64_t)from[i] - pos);
        copies[2 * i + 1] = len[i];
        pos = from[i] + len[i];
    }
    vp_oom = FAIL;
    struct blocks *b = NULL;
    int e = blocks_create(&b, ext, MODE ? files : NULL, MODE ? cpio : NULL, cn, copies, count, MODE < 2 ? &the_rpm : NULL, MODE == 0);
    if (e != DRPM_ERR_OK) VP_ASSERT((failed || vp_oom_hit) && b == NULL, "created");
    unsigned char *buf = vp_alloc(BS);
    bool back = false;
    for (size_t i = 0; i < count && e == DRPM_ERR_OK; i++) {
        size_t off = from[i], left = len[i], id = block_id(off), got;
        if (i > 0 && left && len[i - 1] && off < from[i - 1]) back = true;
        while (left > 0) {
            e = blocks_next(b, buf, &got, off, left, i, id);
            if (e != DRPM_ERR_OK) break;
            VP_ASSERT(got > 0 && got <= left && got <= BS, "something is returned");
            bool same = true;
            for (size_t k = 0; k < got; k++) same &= buf[k] == ref[off + k];
            VP_ASSERT(same, "exactly the old data");
            off += got;
            left -= got;
            id++;
        }
    }
#if MODE == 1
    if (wrong_size && e == DRPM_ERR_MISMATCH) failed = true;
    if (variant == 4 && e == DRPM_ERR_FORMAT) failed = true;
#endif
    if (!FAIL && !failed) VP_ASSERT(e == DRPM_ERR_OK, "old data is available");
#if FAIL
    if (failed || vp_oom_hit) { VP_ASSERT(e != DRPM_ERR_OK, "failures are reported"); VP_REACH("failure"); }
#else
    if (e == DRPM_ERR_OK && (back || COPIES == 1)) VP_REACH("read");
#endif
    if (b) VP_ASSERT(blocks_destroy(&b) == DRPM_ERR_OK && b == NULL, "released");
    VP_ASSERT(vp_live == 0, "no memory left behind");
    VP_ASSERT(!tmp_open && !tmp_named && n_open == 0, "no file left open");
    for (int i = 0; i < FILES; i++) VP_ASSERT(!pre_opened[i], "no file left open");
}
