/* stand-ins for the replay on compiled code: terms are hashes, the interval of one variable is configurable */
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>
int64_t cfg_var = -1, cfg_itv[4], cfg_bot = -1;
static uint64_t mix(uint64_t h, int64_t x) {
  h ^= (uint64_t)x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 29);
}
int64_t v_mk(int64_t op, int64_t a, int64_t b, int64_t c, int64_t d) {
  uint64_t h = mix(mix(mix(mix(mix(1, op), a), b), c), d);
  if (op == 26 && cfg_bot >= 0) return cfg_bot;
  if (op == 4 || op == 18 || op == 26 || op == 27) return h & 1;
  return (int64_t)(h & 0xffffffffffffull) + 1000;
}
int64_t v_itv(int64_t t, int64_t v, int64_t w) {
  uint64_t h = mix(mix(mix(7, t), v), 0), g = mix(h, 5);
  if (v == cfg_var) return cfg_itv[w];
  switch (w) {
  case 0: return (h >> 60) == 0 ? -1 : 0;
  case 2: return (g >> 60) == 0 ? 1 : 0;
  case 1: return -(int64_t)(h & 0xffffff);
  default: return (int64_t)(g & 0xffffff);
  }
}
void v_error(void) { _exit(77); }
