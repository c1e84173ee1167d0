/* pre-included: the vendored hash table (include/uthash.h) is replaced by its contract: a table of entries kept in the order of insertion.
 * vp_hread()/vp_hwrite() are called for each access so that a harness can check the locking. */
#ifndef UTHASH_H
#define UTHASH_H
#define UTHASH_VERSION 2.1.0
#include <string.h>
#include <stddef.h>
typedef struct UT_hash_handle { void *tbl, *prev, *next; unsigned hashv; } UT_hash_handle;
#ifndef VP_HN
#define VP_HN 6
#endif
void vp_hadd_int(int key, void *el); void vp_hadd_str(const char *key, size_t n, void *el);
void *vp_hfind_int(int key); void *vp_hfind_str(const char *key, size_t n);
void *vp_hdel(void *el); void *vp_hfirst(void); void *vp_hnext(void *el); unsigned vp_hcount(void);
#define HASH_ADD_INT(head, f, el) do { vp_hadd_int((el)->f, (el)); (head) = vp_hfirst(); } while (0)
#define HASH_ADD(hh, head, f, n, el) HASH_ADD_INT(head, f, el)
#define HASH_REPLACE_INT(head, f, el, old) do { (old) = vp_hfind_int((el)->f); if (old) vp_hdel(old); HASH_ADD_INT(head, f, el); } while (0)
#define HASH_ADD_KEYPTR(hh, head, k, n, el) do { vp_hadd_str((k), (n), (el)); (head) = vp_hfirst(); } while (0)
#define HASH_ADD_STR(head, f, el) HASH_ADD_KEYPTR(hh, head, (el)->f, strlen((el)->f), el)
#define HASH_FIND_INT(head, kp, out) ((out) = vp_hfind_int(*(kp)))
#define HASH_FIND(hh, head, kp, n, out) ((out) = _Generic((kp), char *: vp_hfind_str((const char *)(kp), (n)), const char *: vp_hfind_str((const char *)(kp), (n)), default: vp_hfind_int(*(const int *)(kp))))
#define HASH_FIND_STR(head, k, out) ((out) = vp_hfind_str((k), strlen(k)))
#define HASH_DELETE(hh, head, el) ((el)->hh.hashv = 0, (head) = vp_hdel(el))   /* the entry itself is touched: it must still exist */
#define HASH_DEL(head, el) HASH_DELETE(hh, head, el)
#define HASH_ITER(hh, head, el, tmp) for ((el) = vp_hfirst(), (tmp) = (el) ? vp_hnext(el) : NULL; (el); (el) = (tmp), (tmp) = (el) ? vp_hnext(el) : NULL)
#define HASH_COUNT(head) vp_hcount()
#define HASH_CNT(hh, head) vp_hcount()
#endif
