// the proof checker must not accept steps that do not preserve satisfiability
#include "candy/core/CNFProblem.h"
#include "candy/core/DRATChecker.h"
#include <cstdio>
#include <iostream>
#include <fstream>
#include <random>
#include <string>
using namespace Candy;
int main(int argc, char** argv) {
    std::cout.setstate(std::ios::failbit);
    int bad = 0; std::mt19937 g(1); std::string file = std::string(argv[1]) + "/proof";
    for (int t = 0; t < 4000; t++) {
        int V = 3 + g() % 2; CNFProblem p; std::vector<std::vector<int>> F; int m = 3 + g() % 6;
        for (int i = 0; i < m; i++) { std::vector<int> c; std::vector<Lit> l; for (int j = 0; j < 2 + (int)(g() % 2); j++) { int v = 1 + g() % V, s = g() % 2; c.push_back(s ? -v : v); l.push_back(Lit(v - 1, s)); } F.push_back(c); p.readClause(l); }
        for (int v = 0; v < V; v++) if ((int)p.nVars() < V) p.newVar();
        bool sat = false;
        for (int x = 0; x < (1 << V) && !sat; x++) { bool all = true; for (auto& c : F) { bool o = false; for (int l : c) o |= ((x >> (abs(l) - 1)) & 1) == (l > 0); all &= o; } sat = all; }
        if (!sat) continue;
        std::ofstream f(file); int k = 1 + g() % 4;
        for (int i = 0; i < k; i++) { int n = 1 + g() % 2; for (int j = 0; j < n; j++) { int v = 1 + g() % V; f << (g() % 2 ? -v : v) << ' '; } f << "0\n"; }
        f << "0\n"; f.close();
        DRATChecker c(p);
        if (c.check_proof(file.c_str())) bad++;
    }
    fprintf(stderr, "accepted wrong proofs: %d\n", bad); return bad ? 1 : 0;
}
