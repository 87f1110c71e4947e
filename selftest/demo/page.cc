// a page of clause memory never hands out more than it has
#include "candy/core/clauses/ClauseDatabase.h"
#include "candy/core/clauses/Clause.h"
#include "candy/core/clauses/ClauseAllocatorMemory.h"
#include "candy/core/clauses/ClauseAllocator.h"
#include <cstdio>
using namespace Candy;
int main() {
    int bad = 0;
    for (size_t size = 40; size < 400; size++) for (size_t n = 1; n < 12; n++) {
        ClauseAllocatorPage p(size + 64);
        size_t used = 0;
        while (used < size && p.hasMemory(n)) { p.allocate(n); used = p.used(); if (used > p.capacity()) { bad++; break; } }
    }
    fprintf(stderr, "wrong: %d\n", bad); return bad ? 1 : 0;
}
