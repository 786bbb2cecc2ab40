#ifndef VHG_PROC_H
#define VHG_PROC_H
#include "mercury.h"
typedef char *hg_string_t;
typedef const char *hg_const_string_t;
#define hg_proc_raw hg_proc_memcpy
#define VHG_P(name, type) static inline hg_return_t hg_proc_##name(hg_proc_t p, void *d) { return hg_proc_memcpy(p, d, sizeof(type)); }
VHG_P(int8_t, int8_t) VHG_P(uint8_t, uint8_t) VHG_P(int16_t, int16_t) VHG_P(uint16_t, uint16_t)
VHG_P(int32_t, int32_t) VHG_P(uint32_t, uint32_t) VHG_P(int64_t, int64_t) VHG_P(uint64_t, uint64_t)
VHG_P(hg_int8_t, int8_t) VHG_P(hg_uint8_t, uint8_t) VHG_P(hg_int32_t, int32_t) VHG_P(hg_uint32_t, uint32_t)
VHG_P(hg_int64_t, int64_t) VHG_P(hg_uint64_t, uint64_t) VHG_P(hg_size_t, uint64_t) VHG_P(hg_bool_t, uint8_t) VHG_P(hg_id_t, uint64_t)
#define hg_proc_void NULL
static inline hg_return_t hg_proc_hg_bulk_t(hg_proc_t p, void *d) { return vhg_proc_bulk(p, (hg_bulk_t *)d); }
static inline hg_return_t hg_proc_hg_string_t(hg_proc_t p, void *d)
{
    hg_string_t *s = (hg_string_t *)d; uint64_t len = 0; hg_return_t r;
    switch (hg_proc_get_op(p)) {
        case HG_ENCODE:
            len = *s ? strlen(*s) + 1 : 0;
            r = hg_proc_memcpy(p, &len, sizeof len);
            if (r == HG_SUCCESS && len) r = hg_proc_memcpy(p, *s, len);
            return r;
        case HG_DECODE:
            *s = NULL;
            r = hg_proc_memcpy(p, &len, sizeof len);
            if (r != HG_SUCCESS || !len) return r;
            *s = (char *)malloc(len);
            if (!*s) return HG_NOMEM;
            return hg_proc_memcpy(p, *s, len);
        case HG_FREE: free(*s); *s = NULL; return HG_SUCCESS;
    }
    return HG_SUCCESS;
}
static inline hg_return_t hg_proc_hg_const_string_t(hg_proc_t p, void *d) { return hg_proc_hg_string_t(p, d); }
#endif
