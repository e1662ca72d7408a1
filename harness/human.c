/* C24: the short form of a number is a string, in the 8 bytes the callers have, whatever the number */
#include <stdarg.h>
#include "sx.h"
static char *to;
#ifndef SX_REPLAY
int STUB(snprintf)(char *s, size_t n, const char *f, ...)
{
	sx_assert(s == to && n <= 8, "at most 8 bytes are used");
	int k = 0;
	for (; k + 1 < (int) n && f[k] && k < 6; k++) s[k] = 'x';
	s[k] = 0;
	return k;
}
#endif
void harness(void)
{
	i64 n = sx_i64(-9223372036854775807LL - 1, 9223372036854775807LL, "n");
	char *target = malloc(8);
	to = target;
	spasm_human_format(n, target);
	int end = 0;
	for (int k = 0; k < 8 && !end; k++) end = target[k] == 0;
	sx_assert(end, "a terminated string is returned");
	free(target);
	sx_reach("formatted");
}
