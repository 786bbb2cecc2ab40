#ifndef VHG_MACROS_H
#define VHG_MACROS_H
#include "mercury.h"
#define MERCURY_REGISTER(hg_class, func_name, in_t, out_t, cb) HG_Register_name(hg_class, func_name, hg_proc_##in_t, hg_proc_##out_t, cb)
#endif
