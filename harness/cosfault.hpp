// Fault injection through the program's environment: the n-th evaluation of cos in a step yields a non-number
// (boundary forcing of one stage).  Linked with --wrap=cos.  REC_COS="step,call[,rank]"; step -1 only counts.
#ifndef VERIF_COSFAULT_HPP
#define VERIF_COSFAULT_HPP
#ifdef WRAP_COS
extern "C" double __real_cos(double);
namespace cosfault {
static int at_step = -2, at_call = 0, at_rank = 0, rank = 0, step = 0, calls = 0;
static void init(int r) {
    rank = r;
    if (getenv("REC_COS"))
        sscanf(getenv("REC_COS"), "%d,%d,%d", &at_step, &at_call, &at_rank);
}
static void begin(int s) { step = s; calls = 0; }
static void end() {
    if (at_step == -1)
        fprintf(stderr, "COSCOUNT %d %d %d\n", rank, step, calls);
    step = 0;
}
}
extern "C" double __wrap_cos(double x) {
    using namespace cosfault;
    if (step && at_step != -2) {
        int n = calls++;
        if (step == at_step && n == at_call && rank == at_rank) {
            fprintf(stderr, "COSFIRED\n");
            return __builtin_nan("");
        }
    }
    return __real_cos(x);
}
#else
namespace cosfault {
inline void init(int) {}
inline void begin(int) {}
inline void end() {}
}
#endif
#endif
