// satfront: a structural-hashing front end for a DIMACS SAT solver.
//
// CBMC encodes one C expression occurring twice (once in the code under proof, once in its
// specification) as two separate circuits.  For multipliers and dividers no SAT solver proves the two
// equal in reasonable time.  satfront walks the variables in their order of introduction, and when the
// clauses that define a variable (those in which it is the youngest variable) are, up to that
// variable, the same clauses that define an older one, merges the two.  A merge is made only when the
// defining clauses determine the variable from the older ones (checked by enumerating them), so it is
// an equivalence-preserving step; the final answer comes from kissat, and a satisfying model is
// extended to the merged variables.
//
// usage: satfront FILE.cnf     (prints s/v lines, exits 10 or 20, as SAT solvers do)
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <unistd.h>
#include <sys/wait.h>
using namespace std;
typedef vector<int> Cl;
static vector<int> rep;              // rep[v]: literal v is equal to (v itself if representative)
static vector<signed char> val;      // 0 unknown, 1 true, -1 false (of representative)
static int look(int l) {             // representative literal
    int v = abs(l), s = l < 0 ? -1 : 1;
    while (abs(rep[v]) != v) { if (rep[v] < 0) s = -s; v = abs(rep[v]); }
    return s * v;
}
int main(int argc, char **argv) {
    if (argc < 2) return 1;
    FILE *f = fopen(argv[argc - 1], "r");
    if (!f) return 1;
    int nv = 0, nc = 0;
    vector<vector<Cl>> def;
    char *line = NULL; size_t cap = 0; ssize_t n;
    Cl cur;
    bool empty = false;
    while ((n = getline(&line, &cap, f)) >= 0) {
        if (line[0] == 'c') continue;
        if (line[0] == 'p') { sscanf(line, "p cnf %d %d", &nv, &nc); def.resize(nv + 1); continue; }
        char *p = line, *e;
        for (;;) {
            long l = strtol(p, &e, 10);
            if (e == p) break;
            p = e;
            if (l == 0) {
                int m = 0;
                for (int x : cur) m = max(m, abs(x));
                if (m > nv) { nv = m; def.resize(nv + 1); }
                if (cur.empty()) empty = true; else def[m].push_back(cur);
                cur.clear();
            } else cur.push_back((int)l);
        }
    }
    fclose(f);
    if (empty) { puts("s UNSATISFIABLE"); return 20; }
    rep.resize(nv + 1); val.assign(nv + 1, 0);
    for (int v = 0; v <= nv; v++) rep[v] = v;
    map<vector<Cl>, int> table;
    vector<Cl> out;
    long merged = 0;
    bool contradiction = false;
    auto simp = [&](const Cl &c, Cl &r) -> bool { // false: clause satisfied
        r.clear();
        for (int x : c) {
            int l = look(x);
            int s = val[abs(l)] * (l < 0 ? -1 : 1);
            if (s > 0) return false;
            if (s < 0) continue;
            r.push_back(l);
        }
        sort(r.begin(), r.end());
        r.erase(unique(r.begin(), r.end()), r.end());
        for (size_t i = 0; i < r.size(); i++)
            for (size_t j = i + 1; j < r.size(); j++)
                if (r[i] == -r[j]) return false;
        return true;
    };
    for (int v = 1; v <= nv; v++) {
        vector<Cl> cs; Cl r;
        for (auto &c : def[v]) {
            if (!simp(c, r)) continue;
            if (r.empty()) { contradiction = true; break; }
            cs.push_back(r);
        }
        if (contradiction) break;
        if (cs.empty()) continue;
        sort(cs.begin(), cs.end());
        cs.erase(unique(cs.begin(), cs.end()), cs.end());
        // clauses about v itself, and clauses left over elders only (after substitution)
        vector<Cl> mine, rest;
        for (auto &c : cs) {
            bool has = false;
            for (int x : c) if (abs(x) == v) has = true;
            (has ? mine : rest).push_back(c);
        }
        for (auto &c : rest) {
            if (c.size() == 1) {
                int l = c[0]; int s = val[abs(l)] * (l < 0 ? -1 : 1);
                if (s < 0) contradiction = true;
                val[abs(l)] = l < 0 ? -1 : 1;
            }
            out.push_back(c);
        }
        if (mine.empty()) continue;
        // inputs
        vector<int> in;
        for (auto &c : mine) for (int x : c) if (abs(x) != v) in.push_back(abs(x));
        sort(in.begin(), in.end()); in.erase(unique(in.begin(), in.end()), in.end());
        bool functional = in.size() <= 8;
        unsigned k = in.size();
        if (!functional) {
            // a wide AND/OR gate: one clause (s*v, -s*l1, ..., -s*lk) and k clauses (-s*v, s*li)
            int s = 0; bool gate = mine.size() == k + 1; Cl lits;
            for (auto &c : mine) if (c.size() == k + 1) for (int x : c) if (abs(x) == v) s = x < 0 ? -1 : 1;
            if (!s) gate = false;
            Cl big, small;
            for (auto &c : mine) {
                if (c.size() == k + 1) { for (int x : c) if (abs(x) != v) big.push_back(-x); else if (x != s * v) gate = false; }
                else if (c.size() == 2) { bool ok = false; for (int x : c) if (x == -s * v) ok = true; else small.push_back(x); if (!ok) gate = false; }
                else gate = false;
            }
            sort(big.begin(), big.end()); sort(small.begin(), small.end());
            if (gate && big.size() == k && big == small) { // s*v <-> AND(big)
                vector<Cl> key{ big };
                auto it = table.find(key);
                if (it == table.end()) table[key] = s * v;
                else { rep[v] = s * it->second; merged++; continue; }
            }
        }
        vector<int> tt;
        if (functional) {
            for (unsigned a = 0; a < (1u << k) && functional; a++) {
                bool can[2] = { true, true };
                for (auto &c : mine) {
                    bool sat = false; int vs = 0;
                    for (int x : c) {
                        if (abs(x) == v) { vs = x < 0 ? -1 : 1; continue; }
                        unsigned i = lower_bound(in.begin(), in.end(), abs(x)) - in.begin();
                        bool b = (a >> i) & 1;
                        if ((x > 0) == b) sat = true;
                    }
                    if (sat) continue;
                    if (vs > 0) can[0] = false; else can[1] = false;
                }
                if (can[0] == can[1]) functional = false;
                else tt.push_back(can[1] ? 1 : 0);
            }
        }
        if (functional) {
            // drop inputs the function does not depend on
            for (unsigned i = 0; i < k;) {
                bool dep = false;
                for (unsigned a = 0; a < (1u << k) && !dep; a++)
                    if (!((a >> i) & 1) && tt[a] != tt[a | (1u << i)]) dep = true;
                if (dep) { i++; continue; }
                vector<int> t2;
                for (unsigned a = 0; a < (1u << k); a++) if (!((a >> i) & 1)) t2.push_back(tt[a]);
                tt = t2; in.erase(in.begin() + i); k--;
            }
            int target = 0;
            if (k == 0) {
                val[v] = tt[0] ? 1 : -1;
                out.push_back(Cl{ tt[0] ? v : -v });
                continue;
            }
            if (k == 1) target = tt[1] ? in[0] : -in[0];
            else {
                bool neg = tt[0];
                if (neg) for (auto &t : tt) t = !t;
                vector<Cl> key{ in, tt };
                auto it = table.find(key);
                if (it == table.end()) table[key] = neg ? -v : v;
                else target = neg ? -it->second : it->second;
            }
            if (target) { rep[v] = target; merged++; continue; }
        }
        for (auto &c : mine) {
            if (c.size() == 1) { int l = c[0]; val[abs(l)] = l < 0 ? -1 : 1; }
            out.push_back(c);
        }
    }
    if (contradiction) { puts("s UNSATISFIABLE"); return 20; }
    char tmp[] = "/tmp/satfrontXXXXXX";
    int fd = mkstemp(tmp);
    FILE *o = fdopen(fd, "w");
    vector<Cl> fin; Cl r; bool ctr = false;
    for (auto &c : out) {
        // re-substitute: values found later are still valid as units emitted in `out`
        r.clear(); bool taut = false;
        for (int x : c) r.push_back(look(x));
        sort(r.begin(), r.end()); r.erase(unique(r.begin(), r.end()), r.end());
        for (size_t i = 0; i < r.size(); i++) if (binary_search(r.begin(), r.end(), -r[i])) taut = true;
        if (!taut) { fin.push_back(r); if (r.empty()) ctr = true; }
    }
    fprintf(o, "p cnf %d %zu\n", nv, fin.size());
    for (auto &c : fin) { for (int x : c) fprintf(o, "%d ", x); fputs("0\n", o); }
    fclose(o);
    if (ctr) { unlink(tmp); puts("s UNSATISFIABLE"); return 20; }
    string cmd = string("kissat -q ") + tmp;
    FILE *p = popen(cmd.c_str(), "r");
    vector<signed char> model(nv + 1, -1);
    int status = 0;
    while ((n = getline(&line, &cap, p)) >= 0) {
        if (line[0] == 's') {
            if (strstr(line, "UNSAT")) status = 20; else if (strstr(line, "SATIS")) status = 10;
        } else if (line[0] == 'v') {
            char *q = line + 1, *e;
            for (;;) { long l = strtol(q, &e, 10); if (e == q) break; q = e; if (l && labs(l) <= nv) model[labs(l)] = l > 0 ? 1 : -1; }
        }
    }
    pclose(p);
    unlink(tmp);
    if (status == 20) puts("s UNSATISFIABLE");
    else if (status == 10) {
        puts("s SATISFIABLE");
        for (int v = 1; v <= nv; v++) {
            int l = look(v);
            int s = model[abs(l)] * (l < 0 ? -1 : 1);
            printf("v %d\n", s > 0 ? v : -v);
        }
        puts("v 0");
    } else puts("s UNKNOWN");
    fprintf(stderr, "satfront: %d vars, %ld merged, status %d\n", nv, merged, status);
    return status;
}
