#pragma once
#include "term.h"
#include <set>
struct Shared; // statistics shared between processes
enum SatR { S_UNSAT, S_SAT, S_UNK };
struct SolverStats {
    long queries = 0, unsat = 0, sat = 0, unk = 0, hard = 0, modelHits = 0, factHits = 0;
    double seconds = 0;
};
struct Solver {
    std::vector<B> pc;
    Model model;          // satisfies pc when haveModel
    bool haveModel = true;
    std::vector<Model> alts; // other models of pc found on the way
    void init();
    void assertB(B b);                 // add to the path condition
    B reduce(B b);                     // simplify under known facts
    SatR check(B extra, Model *out, double budget = -1, bool hunt = false); // satisfiability of pc and extra; S_SAT only with a confirmed model
    bool prove(B b);                   // pc implies b (definitely)
    bool evalModel(B b) { Evaluator e(&model); return e.boolean(b); }
};
extern SolverStats g_ss;
extern double g_softTimeout, g_hardTimeout, g_deadline;
extern bool g_noModelYet;
