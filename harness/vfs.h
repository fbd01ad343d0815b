/* In-memory files standing in for stdio / POSIX file calls in both the
   symbolic and the native build (sources are compiled with -Dfopen=h_fopen ...),
   so nothing under test touches the real filesystem. */
#ifndef VFS_H
#define VFS_H
#include <stdint.h>
#include <stddef.h>
#define VFS_FILES 6
struct vfile { char name[32]; uint8_t *data; long size, cap; int exists; };
extern struct vfile vfs[VFS_FILES];
extern int vfs_open_count, vfs_fail_open, vfs_fail_write, vfs_fail_read;
struct vfile *vfs_create(const char *name, const void *data, long size, long cap);
struct vfile *vfs_find(const char *name);
#endif
