#include "Config.h"
#ifdef USE_OPEN_MP
static int thread_id = 0;
#endif
int f() { return thread_id; }
