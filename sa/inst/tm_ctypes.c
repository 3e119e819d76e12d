/* Instantiates the header-only functions of the tm module of the tree under analysis. */
#include "picotm/picotm-tm.h"
#include "picotm/picotm-tm-ctypes.h"
