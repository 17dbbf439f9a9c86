// Simulated programs: what each simulated thread does, which faults hit it,
// and (on replay) which schedule is followed.  Text form is the replay file.
#pragma once
#include "rt.h"
#include <string>
#include <vector>

#define OPS(X) \
  /* value operations */ \
  X(ADD,V) X(SUB,V) X(MUL,V) X(DIV,V) X(ATAN2,V) X(HYPOT2,V) X(HYPOT3,V) \
  X(ADDS,V) X(SADD,V) X(SUBS,V) X(SSUB,V) X(MULS,V) X(SMUL,V) X(DIVS,V) X(SDIV,V) X(POW,V) X(POWI,V) X(POWF,V) X(LOGB,V) \
  X(NEG,V) X(RECIP,V) X(SQRT,V) X(CBRT,V) X(COS,V) X(SIN,V) X(TAN,V) X(ACOS,V) X(ASIN,V) X(ATAN,V) \
  X(COSH,V) X(SINH,V) X(TANH,V) X(ACOSH,V) X(ASINH,V) X(ATANH,V) X(EXP,V) X(LOG,V) X(LOG2,V) X(LOG10,V) X(ABS,V) \
  X(COPY,V) X(CONST,V) X(VAR,V) X(ZERO,V) X(VARS,V) X(VARSA,V) X(CREATE,V) X(FROMARR,V) X(PADL,V) X(PADR,V) X(INITL,V) X(CTORF,V) X(NAMED,V) \
  X(FORMULA,V) X(VECPUSH,V) X(EDOT,V) X(ENORM,V) X(ECROSS,V) X(EMAT,V) X(EDYN,V) X(EMORE,V) X(CONTAIN,V) X(BADMAKE,V) X(DYNVARS,V) \
  /* in-place updates */ \
  X(IADD,I) X(ISUB,I) X(IMUL,I) X(IDIV,I) X(IADDS,I) X(ISUBS,I) X(IMULS,I) X(IDIVS,I) X(IMULF,I) X(IMULG,I) X(IDIVF,I) X(IADDF,I) \
  X(ASSIGN,I) X(MOVE,I) X(SWAP,I) X(SETZERO,I) X(SETF,I) X(SETG,I) X(SETH,I) X(SETHM,I) X(SETDATA,I) X(RESIZE,I) X(VASSIGN,I) X(CTORASSIGN,I) X(SETREF,I) \
  /* observers */ \
  X(EVAL,O) X(HM,O) X(CMP,O) X(GETS,O) X(STR,O) X(STREAM,O) X(SIZES,O) X(HMOUT,O)

enum OpCode : uint16_t {
#define X(n, k) OP_##n,
    OPS(X)
#undef X
    OP_COUNT
};
struct OpInfo { const char *name; char kind; };
extern const OpInfo op_info[OP_COUNT];

struct Op {
    int t = 1;               // task (1..4); in C06 task 4 is the unrelated earlier history
    int code = 0;
    int d = 0, a = 0, b = 0, c = 0;
    double s = 1;            // scalar argument
    int n = 0;               // integer argument / format / size
    int fk = 0, fa = 0;      // allocation fault kind and argument
    int ik = 0, ia = 0;      // stream fault kind and byte position
    int lk = 0;              // 1: target is shared accumulator d, under its lock
};

struct Prog {
    std::string prop = "C01", type = "D2d";
    uint64_t seed = 1, init = 1;
    int ntask = 2, n = 3;
    int gmode = 2, gmode2 = 3, jitter = 0;
    uint64_t garbage = 1, garbage2 = 2;
    int policy = 1, p_inv = 20, pct_d = 3;
    bool replay = false;
    std::vector<Op> ops;
    std::vector<rt::Switch> sched;
    std::string violation; // class, informational
};

std::string to_text(const Prog &);
bool from_text(const std::string &, Prog &, std::string &err);
std::string op_text(const Op &);

// how an engine executes a program
enum Mode {
    M_PLAIN,     // execute, record digests (C01, C02, C06, C05)
    M_FAULTS,    // C03/C04: every faulted operation is compared with its fault-free run
    M_STREAM,    // C07
    M_ACC        // C08
};

struct Engine {
    virtual ~Engine() {}
    virtual void setup(const Prog &p) = 0;                 // builds registers
    virtual void exec(const Op &op, int index, Mode m) = 0; // on the calling task
    virtual void check_shared(const char *when) = 0;       // shared registers unchanged
    virtual void thread_about_to_end(int t) = 0;           // makes some operations ...
    virtual void thread_ends(int t) = 0;                   // ... makes them again, and destroys the jets the thread keeps to itself
    virtual void teardown() = 0;                           // destroys every register
};
Engine *make_engine(const std::string &type);
const std::vector<std::string> &engine_types();
bool op_supported(const std::string &type, int code);

// per-run phase, read by the parent to attribute violations
enum Phase { PH_PLAIN = 0, PH_FAULT = 1, PH_RETRY = 2 };
extern __thread int phase_of_task;
