// assumptions hold for one solve call only, interrupted or not
extern "C" {
#include "candy/ipasir/ipasir.h"
}
#include <cstdio>
#include <iostream>
static int stop = 1;
static int cb(void*) { return stop; }
int main() {
    std::cout.setstate(std::ios::failbit);
    void* s = ipasir_init(); ipasir_set_terminate(s, nullptr, cb);
    ipasir_add(s, 1); ipasir_add(s, 2); ipasir_add(s, 0); ipasir_add(s, -1); ipasir_add(s, 2); ipasir_add(s, 0);
    ipasir_assume(s, -2);
    int a = ipasir_solve(s); stop = 0;
    int b = ipasir_solve(s);
    ipasir_assume(s, -2); int c = ipasir_solve(s); int d = ipasir_solve(s);
    fprintf(stderr, "%d %d %d %d\n", a, b, c, d);
    bool ok = (a == 0 || a == 20) && b == 10 && c == 20 && d == 10;
    ipasir_release(s); return ok ? 0 : 1;
}
