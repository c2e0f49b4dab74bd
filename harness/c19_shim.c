#include "sc.h"
// sc_min/sc_max as C users write them: expressions of several types
int64_t c19_max_i(int64_t a, int64_t b) { return sc_max(a, b); }
int64_t c19_min_i(int64_t a, int64_t b) { return sc_min(a, b); }
uint64_t c19_max_u(uint64_t a, uint64_t b) { return sc_max(a, b); }
uint64_t c19_min_u(uint64_t a, uint64_t b) { return sc_min(a, b); }
double c19_max_d(double a, double b) { return sc_max(a, b); }
double c19_min_d(double a, double b) { return sc_min(a, b); }
uint64_t c19_max_e(uint64_t a, uint64_t b, uint64_t m) { return sc_max(a & m, b | m) + 1; }
uint64_t c19_min_e(uint64_t a, uint64_t b, uint64_t m) { return sc_min(a & m, b | m) + 1; }
uint64_t c19_max_t(uint64_t a, uint64_t b, uint64_t m) { return 2 * sc_max(m ? a : b, m ? b : a); }
uint64_t c19_min_t(uint64_t a, uint64_t b, uint64_t m) { return 2 * sc_min(m ? a : b, m ? b : a); }
