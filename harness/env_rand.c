/* model of rand(): the first RANDK results are arbitrary modulo RANDM, the following ones cycle */
#include "sx.h"
#ifndef RANDK
#define RANDK 4
#endif
#ifndef RANDM
#define RANDM 12
#endif
static int calls_;
int STUB(rand)(void)
{
	calls_++;
	if (calls_ <= RANDK) return sx_choose(RANDM, "rand");
	return (calls_ * 7 + (calls_ >> 3)) % RANDM;
}
