// the factory builds the kind of solver that was asked for
#include "candy/core/CandySolverInterface.h"
#include "candy/frontend/CandyBuilder.h"
#include "candy/frontend/CLIOptions.h"
#include <cstdio>
#include <iostream>
#include <memory>
#include <string>
#include <typeinfo>
#include <cxxabi.h>
using namespace Candy;
int bad = 0;
void expect(const char* b, bool lrb, bool c, bool rsil, int size) {
    for (int st = 0; st < 2; st++) {
        CandySolverInterface* s = createSolver(st, lrb, c, rsil, size);
        char* n = abi::__cxa_demangle(typeid(*s).name(), nullptr, nullptr, nullptr);
        std::string want = std::string("Candy::Solver<Candy::") + (st ? "StaticPropagate" : "Propagate") + ", Candy::ConflictAnalysis, Candy::" + b + ">", got = n;
        std::string t; for (char ch : got) if (ch != ' ' && ch != 'u') t += ch;
        std::string w; for (char ch : want) if (ch != ' ' && ch != 'u') w += ch;
        if (t != w) { bad++; fprintf(stderr, "%s instead of %s\n", t.c_str(), w.c_str()); }
        free(n); delete s;
    }
}
int main() {
    std::cout.setstate(std::ios::failbit);
    expect("VSIDS", 0, 0, 0, 3); expect("VSIDSC", 0, 1, 0, 3); expect("LRB", 1, 0, 0, 3);
    RSILOptions::opt_rsil_mode = "unrestricted"; expect("RSILBranchingHeuristic<Candy::AdviceEntry<3>>", 0, 0, 1, 3); expect("RSILBranchingHeuristic<Candy::AdviceEntry<2>>", 0, 0, 1, 2);
    RSILOptions::opt_rsil_mode = "vanishing"; expect("RSILVanishingBranchingHeuristic<Candy::AdviceEntry<3>>", 0, 0, 1, 3); expect("RSILVanishingBranchingHeuristic<Candy::AdviceEntry<2>>", 0, 0, 1, 2);
    RSILOptions::opt_rsil_mode = "implicationbudgeted"; expect("RSILBudgetBranchingHeuristic<3>", 0, 0, 1, 3); expect("RSILBudgetBranchingHeuristic<2>", 0, 0, 1, 2);
    fprintf(stderr, "wrong: %d\n", bad); return bad ? 1 : 0;
}
