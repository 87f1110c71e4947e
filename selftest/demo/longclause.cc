// a clause with many literals: propagation must look at all of them
#include <cstdio>
#include <initializer_list>
extern "C" {
#include "candy/ipasir/ipasir.h"
}
int main() {
    int bad = 0;
    for (int n : {10, 70, 130, 300, 900}) for (int open = 1; open <= 3; open++) {
        void* S = ipasir_init();
        for (int i = 1; i <= n; i++) ipasir_add(S, i);
        ipasir_add(S, 0);
        for (int i = 1; i <= n - open; i++) ipasir_assume(S, -i);
        for (int i = n - open + 1; i <= n; i++) ipasir_assume(S, i);
        int r = ipasir_solve(S);
        if (r != 10) { bad++; fprintf(stderr, "n=%d open=%d: answer %d\n", n, open, r); }
        else { bool any = false; for (int i = 1; i <= n; i++) any |= ipasir_val(S, i) == i; if (!any) { bad++; fprintf(stderr, "n=%d: clause not satisfied\n", n); } }
        for (int i = 1; i <= n; i++) ipasir_assume(S, -i);
        r = ipasir_solve(S);
        if (r != 20) { bad++; fprintf(stderr, "n=%d all false: answer %d\n", n, r); }
        ipasir_release(S);
    }
    return bad ? 1 : 0;
}
