#include "vfs.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
struct vfile vfs[VFS_FILES];
int vfs_open_count, vfs_fail_open, vfs_fail_write, vfs_fail_read;
struct vh { struct vfile *f; long pos; int used, rd, wr, eof, app; };
static struct vh H[16];
struct vfile *vfs_find(const char *name) { int i; for (i = 0; i < VFS_FILES; i++) if (vfs[i].exists && !strcmp(vfs[i].name, name)) return &vfs[i]; return NULL; }
struct vfile *vfs_create(const char *name, const void *data, long size, long cap) {
    int i; struct vfile *f = vfs_find(name);
    if (!f) { for (i = 0; i < VFS_FILES && vfs[i].exists; i++); if (i == VFS_FILES) return NULL; f = &vfs[i]; strncpy(f->name, name, 31); f->exists = 1; f->data = malloc(cap ? cap : 1); f->cap = cap; }
    f->size = size; if (data && size) memcpy(f->data, data, size);
    return f;
}
static int vgrow(struct vfile *f, long need) {
    if (need > f->cap) { long c = f->cap * 2; uint8_t *n; if (c < need) c = need; n = malloc(c); if (f->size) memcpy(n, f->data, f->size); free(f->data); f->data = n; f->cap = c; }
    if (need > f->size) { memset(f->data + f->size, 0, need - f->size); f->size = need; }
    return 0;
}
static struct vh *vget(struct vfile *f, int rd, int wr) { int i; for (i = 0; i < 16; i++) if (!H[i].used) { struct vh *h = &H[i]; h->used = 1; h->f = f; h->pos = 0; h->rd = rd; h->wr = wr; h->eof = 0; h->app = 0; vfs_open_count++; return h; } return NULL; }
static size_t vread(struct vh *h, void *p, size_t n) { long l = h->f->size - h->pos; if (l < 0) l = 0; if ((long)n > l) { n = l; h->eof = 1; } if (n) memcpy(p, h->f->data + h->pos, n); h->pos += n; return n; }
static size_t vwrite(struct vh *h, const void *p, size_t n) { if (vfs_fail_write) return 0; if (h->app) h->pos = h->f->size; vgrow(h->f, h->pos + n); if (n) memcpy(h->f->data + h->pos, p, n); h->pos += n; return n; }
/* stdio */
FILE *h_fopen(const char *name, const char *mode) {
    struct vfile *f = vfs_find(name); int plus = strchr(mode, '+') != 0; struct vh *h;
    if (vfs_fail_open) return NULL;
    if (mode[0] == 'r') { if (!f) return NULL; return (FILE *)vget(f, 1, plus); }
    if (!f) f = vfs_create(name, NULL, 0, 256); if (!f) return NULL;
    if (mode[0] == 'w') f->size = 0;
    h = vget(f, plus, 1); if (h && mode[0] == 'a') h->app = 1;
    return (FILE *)h;
}
static struct vh *vchk(void *p) { struct vh *h = p; if (!h->used) abort(); return h; }
int h_fclose(FILE *fp) { struct vh *h = vchk(fp); h->used = 0; vfs_open_count--; return 0; }
size_t h_fread(void *p, size_t s, size_t n, FILE *fp) { struct vh *h = vchk(fp); if (!s || vfs_fail_read) return 0; return vread(h, p, s * n) / s; }
size_t h_fwrite(const void *p, size_t s, size_t n, FILE *fp) { struct vh *h = vchk(fp); if (!h->wr || !s) return 0; return vwrite(h, p, s * n) / s; }
int h_feof(FILE *fp) { return vchk(fp)->eof; }
int h_ferror(FILE *fp) { vchk(fp); return 0; }
int h_fflush(FILE *fp) { if (fp) vchk(fp); return 0; }
int h_fseek(FILE *fp, long o, int w) { struct vh *h = vchk(fp); h->pos = w == SEEK_SET ? o : w == SEEK_CUR ? h->pos + o : h->f->size + o; h->eof = 0; return 0; }
long h_ftell(FILE *fp) { return vchk(fp)->pos; }
void h_rewind(FILE *fp) { vchk(fp)->pos = 0; vchk(fp)->eof = 0; }
int h_fgetc(FILE *fp) { struct vh *h = vchk(fp); unsigned char c; if (vread(h, &c, 1) != 1) return -1; return c; }
int h_fputc(int c, FILE *fp) { unsigned char b = c; return h_fwrite(&b, 1, 1, fp) == 1 ? b : -1; }
char *h_fgets(char *s, int n, FILE *fp) {
    struct vh *h = vchk(fp); int i = 0; unsigned char c;
    while (i < n - 1) { if (vread(h, &c, 1) != 1) break; s[i++] = c; if (c == '\n') break; }
    if (!i) return NULL; s[i] = 0; return s;
}
/* POSIX */
int h_open(const char *name, int flags, int mode) {
    struct vfile *f = vfs_find(name); struct vh *h;
    if (vfs_fail_open) return -1;
    if (!f) { if (!(flags & O_CREAT)) return -1; f = vfs_create(name, NULL, 0, 256); if (!f) return -1; }
    else if ((flags & O_CREAT) && (flags & O_EXCL)) return -1;
    if (flags & O_TRUNC) f->size = 0;
    h = vget(f, (flags & O_ACCMODE) != O_WRONLY, (flags & O_ACCMODE) != O_RDONLY);
    return h ? (int)(h - H) + 3 : -1;
}
static struct vh *vfd(int fd) { if (fd < 3 || fd >= 19 || !H[fd - 3].used) return NULL; return &H[fd - 3]; }
int h_close(int fd) { struct vh *h = vfd(fd); if (!h) return -1; h->used = 0; vfs_open_count--; return 0; }
long h_read(int fd, void *p, size_t n) { struct vh *h = vfd(fd); if (!h || !h->rd || vfs_fail_read) return -1; return vread(h, p, n); }
long h_write(int fd, const void *p, size_t n) { struct vh *h = vfd(fd); if (!h || !h->wr || vfs_fail_write) return -1; return vwrite(h, p, n); }
long h_lseek(int fd, long o, int w) { struct vh *h = vfd(fd); if (!h) return -1; o = w == SEEK_SET ? o : w == SEEK_CUR ? h->pos + o : h->f->size + o; if (o < 0) return -1; h->pos = o; return o; }
int h_ftruncate(int fd, long n) { struct vh *h = vfd(fd); if (!h) return -1; if (n < h->f->size) h->f->size = n; else vgrow(h->f, n); return 0; }
int h_fsync(int fd) { return 0; }
char *h_strdup(const char *s) { char *p = malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
