/* Reference: the normalised archive of a list of files (in archive order). */
#include <sys/stat.h>
#define REF_MAX 1024
static unsigned char ref[REF_MAX];
static size_t refn;
static void ref_hex8(uint32_t v) { for (int i = 28; i >= 0; i -= 4) ref[refn++] = "0123456789abcdef"[v >> i & 15]; }
static void ref_header(uint32_t mode, uint32_t size, uint32_t maj, uint32_t min, const char *pre, const char *name)
{
    size_t l = strlen(pre) + strlen(name) + 1;
    memcpy(ref + refn, "070701", 6);
    refn += 6;
    uint32_t f[13] = { 0, mode, 0, 0, 1, 0, size, 0, 0, maj, min, l, 0 };
    for (int i = 0; i < 13; i++) ref_hex8(f[i]);
    for (; *pre; pre++) ref[refn++] = *pre;
    for (; *name; name++) ref[refn++] = *name;
    ref[refn++] = 0;
    while (refn % 4) ref[refn++] = 0;
}
static void ref_entry(const struct file_info *f, const unsigned char *content)
{
    bool reg = (f->mode & S_IFMT) == S_IFREG, lnk = (f->mode & S_IFMT) == S_IFLNK;
    bool dev = (f->mode & S_IFMT) == S_IFBLK || (f->mode & S_IFMT) == S_IFCHR;
    uint32_t size = reg ? f->size : lnk ? strlen(f->linkto) : 0;
    ref_header(f->mode, size, dev ? f->rdev >> 8 : 0, dev ? f->rdev & 255 : 0, "./", f->name[0] == '/' ? f->name + 1 : f->name);
    for (uint32_t i = 0; i < size; i++) ref[refn++] = lnk ? (unsigned char)f->linkto[i] : content[i];
    while (refn % 4) ref[refn++] = 0;
}
static void ref_trailer(void) { ref_header(0, 0, 0, 0, "", "TRAILER!!!"); }
/* what expand_sequence() says about it (decided by S02) */
static void ref_index(struct cpio_file *c, size_t *offset, const struct file_info *f, ssize_t index)
{
    size_t h = 110 + (f ? 2 + strlen(f->name[0] == '/' ? f->name + 1 : f->name) : 10) + 1, n = 0;
    if (f && (f->mode & S_IFMT) == S_IFREG) n = f->size;
    if (f && (f->mode & S_IFMT) == S_IFLNK) n = strlen(f->linkto);
    c->index = index;
    c->header_len = (h + 3) / 4 * 4;
    c->content_len = (n + 3) / 4 * 4;
    c->offset = *offset;
    *offset += c->header_len + c->content_len;
}
