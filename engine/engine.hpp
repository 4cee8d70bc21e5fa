#pragma once
#include "program.hpp"
#include "solver.hpp"
#include <deque>

enum { OK_HEAP = 1, OK_STACK, OK_GLOBAL };
struct Obj { int rc; u32 size; u8 kind; bool ro; u8 *d; X *s; u32 tag; };
static inline Obj *objNew(u32 size, u8 kind) { Obj *o = (Obj *)malloc(sizeof(Obj)); o->rc = 1; o->size = size; o->kind = kind; o->ro = false; o->d = (u8 *)malloc(size ? size : 1); o->s = nullptr; o->tag = 0; return o; }
static inline void objDrop(Obj *o) { if (o && --o->rc == 0) { free(o->d); free(o->s); free(o); } }
static inline Obj *objClone(Obj *o) { Obj *n = objNew(o->size, o->kind); n->ro = o->ro; n->tag = o->tag; memcpy(n->d, o->d, o->size); if (o->s) { n->s = (X *)malloc(sizeof(X) * o->size); memcpy(n->s, o->s, sizeof(X) * o->size); } return n; }

// Address layout: [46:40] region (0 = heap/global, 1+t = stack of thread t), [39:24] index, [23:0] offset. Large objects take several indices.
static const unsigned OFFB = 24;
struct ObjVec {
  std::vector<Obj *> v;
  ObjVec() {} ObjVec(const ObjVec &o) : v(o.v) { for (auto x : v) if (x) x->rc++; }
  ObjVec &operator=(const ObjVec &) = delete;
  ~ObjVec() { for (auto x : v) objDrop(x); }
};

struct Frame { Fn *fn; u32 pc; u32 base; u32 stkMark; const Inst *call; std::vector<Val> *va; };
struct Exc { u64 obj, ti; };
enum { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE };
struct Thread {
  std::vector<Frame> fr; std::vector<Val> regs; ObjVec stk; int status = T_RUN; u64 waitOn = 0, waitM = 0; int phase = 0; u64 ret = 0; bool joined = false;
  std::vector<Exc> caught; Exc inflight{0, 0};
  ~Thread() { for (auto &f : fr) delete f.va; }
  Thread() {}
  Thread(const Thread &o) : fr(o.fr), regs(o.regs), stk(o.stk), status(o.status), waitOn(o.waitOn), waitM(o.waitM), phase(o.phase), ret(o.ret), joined(o.joined), caught(o.caught), inflight(o.inflight) { for (auto &f : fr) if (f.va) f.va = new std::vector<Val>(*f.va); }
};
struct Input { std::string name; bool bytes; std::vector<Val> v; u8 w; };
struct Mutex { int owner = -1; int cnt = 0; };
struct State {
  std::vector<Thread *> th; int cur = 0; ObjVec heap; std::vector<X> path; Model model; std::vector<Input> inputs;
  std::vector<std::pair<std::string, std::vector<Val>>> obs; u64 steps = 0; std::map<u64, Mutex> mtx; std::unordered_map<u32, u64> known;
  std::unordered_map<std::string, int> symCount; bool allowExit = false; int preempt = 0; u64 errnoAddr = 0; bool dead = false; u64 heapLive = 0; u32 depth = 0;
  std::vector<std::string> *labels = nullptr;
  bool schedDone = false;
  ~State() { for (auto t : th) delete t; }
  State() {}
  State(const State &o) : cur(o.cur), heap(o.heap), path(o.path), model(o.model), inputs(o.inputs), obs(o.obs), steps(o.steps), mtx(o.mtx), known(o.known), symCount(o.symCount), allowExit(o.allowExit), preempt(o.preempt), errnoAddr(o.errnoAddr), dead(o.dead), heapLive(o.heapLive), depth(o.depth), schedDone(o.schedDone) { for (auto t : o.th) th.push_back(new Thread(*t)); }
};

struct Shared { volatile int active; volatile int stop; volatile int nviol; volatile long paths; volatile int lock; };

struct Engine {
  Program P; Shared *sh; std::deque<State *> queue; std::map<std::string, std::string> params; std::string outDir; int maxProc = 1; double deadline = 0; u64 maxSteps = 60000000; int maxViol = 4; int preemptBound = 2; int fanout = 4096; int nsamples = 3; u8 fill = 0xAA;
  // statistics
  u64 paths = 0, endOk = 0, endExit = 0, endAssume = 0, errors = 0, instrs = 0, forks = 0, asserts = 0, assertsSolver = 0, abandoned = 0, samples = 0, vioCount = 0, unkn = 0; std::map<std::string, u64> reach; std::map<std::string, u64> errMsgs; std::unordered_set<Fn *> used; std::map<std::string, u64> exitMsgs;
  bool isChild = false;

  Obj *&slotOf(State &s, u64 a) {
    static Obj *nul = nullptr; u64 r = (a >> 40); u32 ix = (a >> OFFB) & 0xffff; 
    if (r == 0) { if (ix < s.heap.v.size()) return s.heap.v[ix]; nul = nullptr; return nul; }
    if (r >= 0x100 && r - 0x100 < s.th.size()) { auto &v = s.th[r - 0x100]->stk.v; if (ix < v.size()) return v[ix]; nul = nullptr; return nul; }
    if (r < 0x100) { // heap indices beyond 16 bits
      u64 big = a >> OFFB; if (big < s.heap.v.size()) return s.heap.v[big]; }
    nul = nullptr; return nul;
  }
  Obj *wr(State &s, u64 a) { Obj *&o = slotOf(s, a); if (o->rc > 1) { Obj *n = objClone(o); o->rc--; o = n; } return o; }
  // big objects
  std::unordered_map<u64, u64> dummy;
  bool resolve(State &s, u64 a, u64 n, Obj *&o, u32 &off, std::string &err);
  u64 allocHeap(State &s, u64 size, int fillv, u8 kind = OK_HEAP);
  // paths
  void violation(State &s, const std::string &kind, const std::string &msg, const Model *m = nullptr);
  void engErr(State &s, const std::string &msg);
  std::string where(State &s);
  bool conc(State &s, Val &v, unsigned w);           // fork over all feasible values; false: state died
  int mustBe(State &s, X cond);                      // 1 always true, 0 always false, 2 both, -1 unknown
  State *forkState(State &s); 
  void addC(State &s, X c); void pinModel(State &s, X c);
  bool branch(State &s, X c, bool &taken, State *&other); // taken for s; other = state for the opposite or null
  void run(State &s);
  void push(State *s) { queue.push_back(s); }
  void loop();
  void endPath(State &s, const char *how);
  bool unwind(State &s);
  bool load(State &s, Val addr, const Slot *sl, u32 n, u64 total, Val *out);
  bool store(State &s, Val addr, const Slot *sl, u32 n, u64 total, const Val *in);
  Val loadAt(Obj *o, u32 off, unsigned w);
  void storeAt(Obj *o, u32 off, unsigned w, Val v);
  bool memCheck(State &s, u64 a, u64 n, const char *what);
  std::string cstr(State &s, u64 a, size_t mx = 256);
  bool sched(State &s, bool blocked);
  int param(const std::string &n, int d) { auto it = params.find(n); return it == params.end() ? d : atoi(it->second.c_str()); }
  X newSym(State &s, const std::string &name, unsigned w);
  void writeInputs(State &s, const Model &m, FILE *f);
  void bindNatives();
  void loadModule(const char *path, State &s);
  void writeStats();
  bool callFn(State &s, Fn *f, const Inst *in, std::vector<Val> &flatArgs);
  bool excMatch(u64 thrown, u64 want); 
  std::unordered_map<std::string, X> symTab;
};
extern Engine EN;
