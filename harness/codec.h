/* table of the message structures, generated by lib/codec_gen.py */
#ifndef VERIF_CODEC_H
#define VERIF_CODEC_H
enum ckind { K_INT, K_BOOL, K_DBL, K_FLT, K_STR, K_BULK, K_PTR, K_SUB, K_BLOB, K_CHARS, K_RAW, K_OTHER };
struct vhg_proc;
struct cfield { const char *name; unsigned long off, size; int kind; const char *sub; unsigned long (*len)(const void *); int maxcount; };
struct ctype { const char *name; unsigned long size; const struct cfield *f; int nf; hg_return_t (*proc)(struct vhg_proc *, void *); };
#endif
