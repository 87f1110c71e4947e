// problems, the model checker and results
#include "candy/core/CNFProblem.h"
#include "candy/core/CandySolverResult.h"
#include <cstdio>
#include <random>
#include <iostream>
using namespace Candy;
int main() {
    int bad = 0; std::mt19937 g(1); std::cout.setstate(std::ios::failbit);
    for (int t = 0; t < 3000; t++) {
        CNFProblem p; unsigned max = 0; std::vector<Cl> F; int V = 1 + g() % 6, m = 1 + g() % 5;
        for (int i = 0; i < m; i++) { Cl c; int n = 1 + g() % 4; for (int j = 0; j < n; j++) { Var v(g() % V); c.push_back(Lit(v, g() % 2)); if ((unsigned)v + 1 > max) max = v + 1; } F.push_back(c); p.readClause(c); }
        if (p.nVars() != max) bad++;
        std::vector<int> val(V); CandySolverResult r; for (int v = 0; v < V; v++) { val[v] = g() % 3; if (val[v] < 2) r.setModelValue(Lit(v, val[v])); }
        bool all = true;
        for (auto& c : F) { bool s = false, taut = false; for (Lit l : c) { s |= val[l.var()] == (int)l.sign(); for (Lit k : c) taut |= k == ~l; } all &= s || taut; }
       
        if (p.checkResult(r) != all) bad++;
        for (int v = 0; v < V; v++) for (int s = 0; s < 2; s++) if (r.satisfies(Lit(v, s)) != (val[v] == s)) bad++;
    }
    fprintf(stderr, "wrong: %d\n", bad); return bad ? 1 : 0;
}
