/* Instantiates every function of the cast headers of the tree under analysis. */
#include "picotm/picotm-cast.h"
#include "picotm/picotm-cast-ctypes.h"

/* application-specific destination ranges, as the documentation of PICOTM_CAST_TX() describes them */
PICOTM_CAST_TX(int, int, vsmall, int, -100, 100)
PICOTM_CAST_TX(uint, unsigned int, vsmall, int, -100, 100)
PICOTM_CAST_TX(long, long, vpos, int, 10, 200)
PICOTM_CAST_TX(ulong, unsigned long, vpos, int, 10, 200)
PICOTM_CAST_TX(int, int, vupos, unsigned long, 10, 200)
PICOTM_CAST_TX(ulong, unsigned long, vupos, unsigned long, 10, 200)
PICOTM_CAST_TX(short, short, vneg, long, -200, -10)
