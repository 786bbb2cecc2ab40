// thin C wrappers (the project's headers are C only)
#include "pdc_generic.h"
#include "pdc_client_server_common.h"
#include <stdio.h>
int w_type_count(void) { return PDC_TYPE_COUNT; }
size_t w_type_size(int t) { return get_size_by_dtype((pdc_c_var_type_t)t); }
const char *w_type_name(int t) { return get_name_by_dtype((pdc_c_var_type_t)t); }
const char *w_type_enum_name(int t) { return get_enum_name_by_dtype((pdc_c_var_type_t)t); }
const char *w_type_format(int t) { return DataTypeFormat[t]; }
int w_type_by_enum_name(const char *s) { return (int)get_dtype_by_enum_name(s); }
size_t w_size_of(void *d, size_t n, int array, int t) { return get_size_by_class_n_type(d, n, array ? PDC_CLS_ARRAY : PDC_CLS_SCALAR, (pdc_c_var_type_t)t); }
int w_element_size(int t) { return PDC_get_var_type_size((pdc_var_type_t)t); }
// the value a type's print format and a type's storage give for the same bytes
int w_print(int t, const void *v, char *out, size_t n) {
    const char *f = DataTypeFormat[t];
    switch (t) {
        case PDC_INT: return snprintf(out, n, f, *(const int *)v);
        case PDC_FLOAT: return snprintf(out, n, f, *(const float *)v);
        case PDC_DOUBLE: return snprintf(out, n, f, *(const double *)v);
        case PDC_CHAR: return snprintf(out, n, f, *(const char *)v);
        case PDC_SHORT: return snprintf(out, n, f, *(const short *)v);
        case PDC_UINT: return snprintf(out, n, f, *(const unsigned *)v);
        case PDC_INT64: return snprintf(out, n, f, (long long)*(const int64_t *)v);
        case PDC_UINT64: return snprintf(out, n, f, (unsigned long long)*(const uint64_t *)v);
        case PDC_INT16: return snprintf(out, n, f, *(const int16_t *)v);
        case PDC_INT8: return snprintf(out, n, f, *(const int8_t *)v);
        case PDC_UINT8: return snprintf(out, n, f, *(const uint8_t *)v);
        case PDC_UINT16: return snprintf(out, n, f, *(const uint16_t *)v);
        case PDC_INT32: return snprintf(out, n, f, *(const int32_t *)v);
        case PDC_UINT32: return snprintf(out, n, f, *(const uint32_t *)v);
        case PDC_LONG: return snprintf(out, n, f, *(const long *)v);
        case PDC_SIZE_T: return snprintf(out, n, f, *(const size_t *)v);
    }
    return -1;
}
