// heap and stamp against simple reference implementations
#include <cstdint>
#include "candy/mtl/Heap.h"
#include <limits>
#include <algorithm>
#include <cassert>
#include <cstdint>
#include "candy/mtl/Stamp.h"
#include <vector>
#include <set>
#include <random>
#include <cstdio>
struct Less { std::vector<int>& k; Less(std::vector<int>& k_) : k(k_) {} bool operator()(int a, int b) const { return k[a] < k[b]; } };
using namespace Glucose; int main() {
    int bad = 0; std::mt19937 g(1);
    for (int t = 0; t < 300; t++) {
        std::vector<int> key(12); for (int& x : key) x = g() % 1000;
        Less lt(key); Glucose::Heap<Less> h(lt); h.grow(12); std::set<int> ref;
        for (int s = 0; s < 60; s++) {
            int v = g() % 12, op = g() % 4;
            if (op == 0 && !h.inHeap(v)) { h.insert(v); ref.insert(v); }
            else if (op == 1 && h.inHeap(v)) { key[v] -= g() % 50; h.decrease(v); }
            else if (op == 2 && h.inHeap(v)) { key[v] += g() % 50; h.increase(v); }
            else if (op == 3 && !h.empty()) {
                int m = h.removeMin();
                for (int r : ref) if (key[r] < key[m]) bad++;
                if (!ref.erase(m)) bad++;
            }
            if (h.size() != (int)ref.size()) bad++;
            for (int v = 0; v < 12; v++) if (h.inHeap(v) != (ref.count(v) > 0)) bad++;
        }
    }
    Stamp<uint8_t> st(8); std::set<int> ref;
    for (int i = 0; i < 3000; i++) {
        st.clear(); ref.clear();
        for (int j = 0; j < 4; j++) { int v = g() % 8; if (g() % 3) { st.set(v); ref.insert(v); } else { st.unset(v); ref.erase(v); } }
        for (int v = 0; v < 8; v++) if (st[v] != (ref.count(v) > 0)) bad++;
    }
    fprintf(stderr, "wrong: %d\n", bad); return bad ? 1 : 0;
}
