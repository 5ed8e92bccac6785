/* Preloaded: every reading of the processor time is two seconds after the one before, so that progress is reported whenever it is looked at */
#include <time.h>
clock_t clock(void) { static clock_t t; return t += 2 * CLOCKS_PER_SEC; }
