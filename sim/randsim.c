/* The C library's rand() as the compiled modules see it: a stream that the simulation controls.
   mode 0: uniform pseudo-random numbers from a seed; 1: always 0; 2: always RAND_MAX; 3: the real generator */
#include <stdint.h>
#include <stdlib.h>

static uint64_t state = 88172645463325252ull, draws;
static int mode;

int __real_rand(void);
void __real_srand(unsigned);
long __real_random(void);

static int next(void)
{
    draws++;
    if (mode == 1) return 0;
    if (mode == 2) return RAND_MAX;
    if (mode == 3) return __real_rand();
    uint64_t z = (state += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return (int)((z ^ (z >> 31)) >> 33);
}

int __wrap_rand(void) { return next(); }
long __wrap_random(void) { return next(); }
int __wrap_rand_r(unsigned *s) { (void)s; return next(); }
void __wrap_srand(unsigned s) { state = s; }
void __wrap_srandom(unsigned s) { state = s; }
void randsim_config(uint64_t seed, int m) { state = seed; mode = m; draws = 0; }
uint64_t randsim_draws(void) { return draws; }
