// reductions spare input clauses and clauses with a small LBD, and delete at most half of the others
#include "candy/core/SolverTypes.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/Trail.h"
#include "candy/core/clauses/ClauseDatabase.h"
#include "candy/systems/ReduceDB.h"
#include <cstdio>
#include <iostream>
#include <random>
#include <set>
using namespace Candy;
int main() {
    std::cout.setstate(std::ios::failbit);
    int bad = 0; std::mt19937 g(1);
    for (int t = 0; t < 400; t++) {
        CNFProblem p; p.readClause({Lit(0, 0), Lit(40, 1)}); ClauseDatabase db; db.init(p); Trail tr(60);
        std::vector<Clause*> in(db.begin(), db.end()), good; unsigned weak = 0, lim = ClauseDatabaseOptions::opt_persistent_lbd;
        int n = 2 + g() % 20;
        for (int i = 0; i < n; i++) { std::vector<Lit> c; for (int j = 0; j < 4; j++) c.push_back(Lit(g() % 15 + 15 * j, g() % 2)); unsigned lbd = 1 + g() % 4; if (g() % 3) lbd = lim + g() % 2; if (lbd > 4) lbd = 4; Clause* k = db.createClause(c.begin(), c.end(), lbd); if (lbd <= lim) good.push_back(k); else weak++; }
        ReduceDB r(db, tr); r.reduce(); unsigned del = 0;
        for (Clause* c : in) if (c->isDeleted()) bad++;
        for (Clause* c : good) if (c->isDeleted()) bad++;
        for (Clause* c : db) if (c->isDeleted()) del++;
        if (del > (weak + 1) / 2) bad++;
    }
    fprintf(stderr, "wrong: %d\n", bad); return bad ? 1 : 0;
}
