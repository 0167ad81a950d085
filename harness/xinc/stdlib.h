#include <sys/types.h>
void abort(void);
