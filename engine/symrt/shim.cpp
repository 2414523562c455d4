// C interface of the MiniSat solver, and setjmp/longjmp used to abandon a run.
#include <minisat/core/Solver.h>
#include <setjmp.h>
#include <signal.h>
#include <string.h>
using namespace Minisat;
struct S { Solver s; vec<Lit> cl, as; };
extern "C" {
S* ms_new() { S* x = new S; x->s.verbosity = 0; return x; }
void ms_free(S* x) { delete x; }
int ms_newvar(S* x, int dec) { return x->s.newVar(l_Undef, dec != 0); }
void ms_decision(S* x, int v, int d) { x->s.setDecisionVar(v, d != 0); }
// literals: 2*var + sign
int ms_add(S* x, const int* l, int n) {
    x->cl.clear();
    for (int i = 0; i < n; i++) x->cl.push(mkLit(l[i] >> 1, l[i] & 1));
    return x->s.addClause_(x->cl);
}
// 1 sat, 0 unsat, -1 unknown
int ms_solve(S* x, const int* l, int n, long long confl, double seed) {
    x->as.clear();
    for (int i = 0; i < n; i++) x->as.push(mkLit(l[i] >> 1, l[i] & 1));
    if (confl >= 0) x->s.setConfBudget(confl); else x->s.budgetOff();
    lbool r = x->s.solveLimited(x->as);
    if (r == l_True) return 1;
    if (r == l_False) return 0;
    return -1;
}
int ms_value(S* x, int v) { return x->s.model[v] == l_True; }
void ms_polarity(S* x, int v, int b) { x->s.setPolarity(v, b ? l_True : l_False); }
long long ms_conflicts(S* x) { return x->s.conflicts; }
long long ms_nclauses(S* x) { return x->s.nClauses(); }

static sigjmp_buf env;
static volatile int guarded;
static void segv(int) {
    if (guarded) siglongjmp(env, 2); // BAIL_UB
    signal(SIGSEGV, SIG_DFL);
}
int sym_guard(void (*f)(void*), void* ctx) {
    static char* stack;
    if (!stack) {
        stack = new char[1 << 16];
        stack_t s;
        memset(&s, 0, sizeof s);
        s.ss_sp = stack;
        s.ss_size = 1 << 16;
        sigaltstack(&s, 0);
        struct sigaction a;
        memset(&a, 0, sizeof a);
        a.sa_handler = segv;
        a.sa_flags = SA_ONSTACK;
        sigaction(SIGSEGV, &a, 0);
        sigaction(SIGBUS, &a, 0);
    }
    int r = sigsetjmp(env, 1);
    if (r) { guarded = 0; return r; }
    guarded = 1;
    f(ctx);
    guarded = 0;
    return 0;
}
void sym_bail(int code) { siglongjmp(env, code); }
}
