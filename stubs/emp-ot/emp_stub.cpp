#include <cstddef>
#include "dsim.h"
void dsim_emp_random(void* p, size_t n) { dsim::entropy(p, n); }
