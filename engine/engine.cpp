#include "engine.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <sstream>
using namespace llvm;

ExprPool EP; std::unordered_map<u32, Aff> affMemo; std::unordered_map<u32, X> leafOf; Solver SV; Engine EN; static State *gCur;

static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static inline X asX(const Val &v, unsigned w) { return v.e ? v.e : C(v.c, w); }
static inline Val fromX(X e) { if (isC(e)) return V(e->c); return Val{0, e}; }

std::string Engine::where(State &s) {
  std::string o; Thread &t = *s.th[s.cur]; int n = 0;
  for (int i = (int)t.fr.size() - 1; i >= 0 && n < 8; i--, n++) { Frame &f = t.fr[i]; o += f.fn->name; u32 pc = f.pc; if (pc < f.fn->code.size()) { const Instruction *I = f.fn->code[pc].I; if (I) if (auto &dl = I->getDebugLoc()) o += ":" + std::to_string(dl.getLine()); } o += " < "; }
  return o;
}
std::string Engine::cstr(State &s, u64 a, size_t mx) { std::string o; for (size_t i = 0; i < mx; i++) { Obj *ob = slotOf(s, a + i); u32 off = (a + i) & ((1u << OFFB) - 1); if (!ob || off >= ob->size) break; if (ob->s && ob->s[off]) { o += '?'; continue; } if (!ob->d[off]) break; o += ob->d[off]; } return o; }

u64 Engine::allocHeap(State &s, u64 size, int fv, u8 kind) {
  u64 slots = (size + (1u << OFFB)) >> OFFB; // always room for a gap
  if (slots > 1) { // large object: only supported below 2^32
    if (size > 0x40000000ULL) return 0;
    // round up to keep a single slot by refusing offsets >= 2^24: unsupported here
    return 0;
  }
  u64 ix = s.heap.v.size(); Obj *o = objNew(size, kind); if (fv >= 0) memset(o->d, fv, size); s.heap.v.push_back(o); if (kind == OK_HEAP) s.heapLive++;
  return ix << OFFB;
}
bool Engine::resolve(State &s, u64 a, u64 n, Obj *&o, u32 &off, std::string &err) {
  o = slotOf(s, a); off = a & ((1u << OFFB) - 1);
  if (!o) { char b[128]; if (a < 0x1000000) snprintf(b, sizeof b, "null or invalid pointer access (address 0x%lx, %lu bytes)", (long)a, (long)n); else snprintf(b, sizeof b, "access to freed or unmapped memory (address 0x%lx, %lu bytes)", (long)a, (long)n); err = b; return false; }
  if ((u64)off + n > o->size) { char b[160]; snprintf(b, sizeof b, "out-of-bounds access: offset %u + %lu bytes in a %s object of %u bytes", off, (long)n, o->kind == OK_HEAP ? "heap" : o->kind == OK_STACK ? "stack" : "global", o->size); err = b; return false; }
  return true;
}
Val Engine::loadAt(Obj *o, u32 off, unsigned w) {
  unsigned nb = (w + 7) / 8;
  if (o->s) { bool any = false; for (unsigned i = 0; i < nb; i++) if (o->s[off + i]) { any = true; break; }
    if (any) { X acc = nullptr; for (int i = nb - 1; i >= 0; i--) { X b = o->s[off + i] ? o->s[off + i] : C(o->d[off + i], 8); acc = acc ? xConcat(acc, b) : b; } if (w < nb * 8) acc = xExtract(acc, 0, w); return fromX(acc); } }
  u64 v = 0; memcpy(&v, o->d + off, nb); return V(v & maskw(w));
}
void Engine::storeAt(Obj *o, u32 off, unsigned w, Val v) {
  unsigned nb = (w + 7) / 8;
  if (!v.e) { memcpy(o->d + off, &v.c, nb); if (o->s) for (unsigned i = 0; i < nb; i++) o->s[off + i] = nullptr; return; }
  if (!o->s) o->s = (X *)calloc(o->size ? o->size : 1, sizeof(X));
  X e = v.e; if (e->w < nb * 8) e = xZext(e, nb * 8);
  for (unsigned i = 0; i < nb; i++) { X b = xExtract(e, i * 8, 8); if (isC(b)) { o->d[off + i] = b->c; o->s[off + i] = nullptr; } else o->s[off + i] = b; }
}
void Engine::addC(State &s, X c) {
  if (isC(c)) return;
  if (c->op == E_AND) { addC(s, c->k[0]); addC(s, c->k[1]); return; }
  s.path.push_back(c);
  if (c->op == E_EQ && isC(c->k[0])) s.known[c->k[1]->id] = c->k[0]->c;
  if (c->op == E_NOT) s.known[c->k[0]->id] = 0;
  s.known[c->id] = 1;
}
X Engine::newSym(State &s, const std::string &name, unsigned w) {
  int k = s.symCount[name]++; std::string key = name + "#" + std::to_string(k) + "/" + std::to_string(w);
  auto it = symTab.find(key); if (it != symTab.end()) return it->second;
  u32 id = EP.syms.size(); EP.syms.push_back({key, w}); X e = EP.mk(E_SYM, w, id); symTab[key] = e; return e;
}
State *Engine::forkState(State &s) { forks++; State *n = new State(s); n->depth++; s.depth++; return n; }

void Engine::writeInputs(State &s, const Model &m, FILE *f) {
  EP.epoch++;
  for (auto &in : s.inputs) {
    if (in.bytes) { fprintf(f, "B %s %zu ", in.name.c_str(), in.v.size()); for (auto &v : in.v) fprintf(f, "%02x", (unsigned)((v.e ? evalX(v.e, m) : v.c) & 0xff)); fprintf(f, "%s\n", in.v.empty() ? "-" : ""); }
    else fprintf(f, "V %s %llu\n", in.name.c_str(), (unsigned long long)((in.v[0].e ? evalX(in.v[0].e, m) : in.v[0].c)));
  }
}
void Engine::violation(State &s, const std::string &kind, const std::string &msg, const Model *m) {
  s.dead = true; vioCount++; int n = __sync_add_and_fetch(&sh->nviol, 1); if (n > maxViol) { sh->stop = 1; return; }
  char nm[64]; snprintf(nm, sizeof nm, "/viol.%d", n); std::string base = outDir + nm;
  FILE *f = fopen((base + ".in").c_str(), "w"); writeInputs(s, m ? *m : s.model, f); fclose(f);
  f = fopen((base + ".json.tmp").c_str(), "w"); fprintf(f, "{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\"}\n", jesc(kind).c_str(), jesc(msg).c_str(), jesc(where(s)).c_str()); fclose(f); rename((base + ".json.tmp").c_str(), (base + ".json").c_str());
  if (n >= maxViol) sh->stop = 1;
}
void Engine::engErr(State &s, const std::string &msg) { s.dead = true; errors++; errMsgs[msg + " @ " + where(s)]++; }
void Engine::endPath(State &s, const char *how) {
  s.dead = true; paths++;
  if (!strcmp(how, "ok")) { endOk++;
    if ((int)samples < nsamples) { samples++; char nm[64]; snprintf(nm, sizeof nm, "/sample.%d.%llu", getpid(), (unsigned long long)samples); std::string base = outDir + nm;
      FILE *f = fopen((base + ".in").c_str(), "w"); writeInputs(s, s.model, f); fclose(f);
      f = fopen((base + ".obs").c_str(), "w"); EP.epoch++; for (auto &o : s.obs) { fprintf(f, "%s ", o.first.c_str()); if (o.second.size() == 1) fprintf(f, "%llu", (unsigned long long)(o.second[0].e ? evalX(o.second[0].e, s.model) : o.second[0].c)); else { for (auto &v : o.second) fprintf(f, "%02x", (unsigned)((v.e ? evalX(v.e, s.model) : v.c) & 0xff)); } fprintf(f, "\n"); } fclose(f); } }
  else if (!strcmp(how, "exit")) endExit++; else endAssume++;
}
int Engine::mustBe(State &s, X c) {
  if (isC(c)) return c->c ? 1 : 0;
  bool v = evalTop(c, s.model); Model m = s.model; int r = (gCur = &s, SV).check(s.path, v ? xNot(c) : c, m);
  if (r == 0) return v ? 1 : 0; if (r == 1) return 2; return -1;
}
// The solver gave no answer about c: continue with the path's own model only (the inputs c depends on take their model values); the run is then reported as incomplete.
void Engine::pinModel(State &s, X c) {
  unkn++; if (unkn >= 2) SV.setTimeout(3000);
  std::vector<u32> vs = SV.supp(c)->v; for (u32 v : vs) { unsigned w = EP.syms[v].w; u64 val = v < s.model.size() ? s.model[v] : 0; addC(s, xEq(EP.mk(E_SYM, w, v), C(val, w))); }
}
// Decide a branch for state s. other receives a new state (path + negation) when both sides are feasible.
bool Engine::branch(State &s, X c, bool &taken, State *&other) {
  other = nullptr; if (isC(c)) { taken = c->c; return true; }
  auto it = s.known.find(c->id); if (it != s.known.end()) { taken = it->second; return true; }
  taken = evalTop(c, s.model); X neg = taken ? xNot(c) : c; Model m = s.model; int r = (gCur = &s, SV).check(s.path, neg, m);
  if (r < 0) { pinModel(s, c); s.known[c->id] = taken; return true; }
  if (r == 0) { s.known[c->id] = taken; return true; }
  other = forkState(s); other->model = m; addC(*other, neg); addC(s, taken ? c : xNot(c)); return true;
}
bool Engine::conc(State &s, Val &v, unsigned w) {
  if (!v.e) return true;
  auto it = s.known.find(v.e->id); if (it != s.known.end()) { v = V(it->second); return true; }
  u64 val = evalTop(v.e, s.model); X eq = xEq(v.e, C(val, w)); Model m = s.model; int r = (gCur = &s, SV).check(s.path, xNot(eq), m);
  if (r < 0) { pinModel(s, v.e); s.known[v.e->id] = val; v = V(val); return true; }
  if (r == 1) { State *o = forkState(s); o->model = m; addC(*o, xNot(eq)); push(o); addC(s, eq); }
  s.known[v.e->id] = val; v = V(val); return true;
}
bool Engine::load(State &s, Val a, const Slot *sl, u32 n, u64 total, Val *out) {
  if (a.e) {
    auto it = s.known.find(a.e->id); if (it != s.known.end()) a = V(it->second);
  }
  if (a.e) { // table lookup in a small read-only (or concrete) object?
    X e = a.e; X base = nullptr, offx = e;
    if (e->op == E_ADD && isC(e->k[0])) { base = e->k[0]; offx = e->k[1]; }
    if (base && n == 1) {
      Obj *o; u32 off; std::string err; unsigned w = sl[0].w; unsigned nb = (w + 7) / 8; unsigned sh2 = nb == 1 ? 0 : nb == 2 ? 1 : nb == 4 ? 2 : 3;
      if (resolve(s, base->c, 0, o, off, err) && o->size <= 16384 && !o->s && (o->ro || o->kind == OK_GLOBAL)) {
        // index must be a multiple of the element size with provable alignment
        X ix = offx; bool okk = true; if (sh2) { X lowb = xExtract(offx, 0, sh2); okk = isC(lowb) && lowb->c == 0 && off % nb == 0; ix = xExtract(offx, sh2, 64 - sh2); }
        if (okk) {
          u32 cnt = (o->size - off) / nb; int r = mustBe(s, xUlt(ix, C(cnt, ix->w)));
          if (r == 1) { struct TC { std::string b; unsigned nb; u32 tid; }; static std::vector<TC> tcs; u32 tid = ~0u; for (auto &x : tcs) if (x.nb == nb && x.b.size() == cnt * nb && !memcmp(x.b.data(), o->d + off, cnt * nb)) { tid = x.tid; break; }
            unsigned ib = 1; while ((1ull << ib) < cnt) ib++; if (ib < ix->w) ix = xExtract(ix, 0, ib);
            if (tid == ~0u) { std::vector<u64> t(cnt); for (u32 i = 0; i < cnt; i++) { u64 v = 0; memcpy(&v, o->d + off + i * nb, nb); t[i] = v; } tid = internTable(nb * 8, t); tcs.push_back({std::string((char *)o->d + off, cnt * nb), nb, tid}); } X r2 = xSelect(tid, ix); if (w < nb * 8) r2 = xExtract(r2, 0, w); out[0] = fromX(r2); return true; }
        }
      }
    }
    if (!conc(s, a, 64)) return false;
  }
  Obj *o; u32 off; std::string err; if (!resolve(s, a.c, total, o, off, err)) { violation(s, "memory", "read: " + err); return false; }
  for (u32 i = 0; i < n; i++) out[i] = loadAt(o, off + sl[i].off, sl[i].w);
  return true;
}
bool Engine::store(State &s, Val a, const Slot *sl, u32 n, u64 total, const Val *in) {
  if (a.e && !conc(s, a, 64)) return false;
  Obj *o; u32 off; std::string err; if (!resolve(s, a.c, total, o, off, err)) { violation(s, "memory", "write: " + err); return false; }
  if (o->ro) { violation(s, "memory", "write to constant object"); return false; }
  o = wr(s, a.c); for (u32 i = 0; i < n; i++) storeAt(o, off + sl[i].off, sl[i].w, in[i]);
  return true;
}
bool Engine::memCheck(State &s, u64 a, u64 n, const char *what) { if (!n) return true; Obj *o; u32 off; std::string err; if (resolve(s, a, n, o, off, err)) return true; violation(s, "memory", std::string(what) + ": " + err); return false; }

// ---------------------------------------------------------------- exceptions
static const std::map<std::string, std::string> stdParents = {{"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
static std::unordered_map<u64, std::string> gnameByAddr;
bool Engine::excMatch(u64 thrown, u64 want) {
  if (want == 0) return true; if (thrown == want) return true;
  std::string tn = gnameByAddr.count(thrown) ? gnameByAddr[thrown] : "", wn = gnameByAddr.count(want) ? gnameByAddr[want] : "";
  if (tn.empty()) return false;
  GlobalVariable *G = P.M->getNamedGlobal(tn);
  if (G && G->hasInitializer()) if (auto *S = dyn_cast<ConstantStruct>(G->getInitializer())) for (unsigned i = 2; i < S->getNumOperands(); i++) { u64 v; if (S->getOperand(i)->getType()->isPointerTy() && P.cval(S->getOperand(i), v) && v && excMatch(v, want)) return true; }
  auto it = stdParents.find(tn); if (it != stdParents.end()) { if (it->second == wn) return true; GlobalVariable *B = P.M->getNamedGlobal(it->second); if (B) return excMatch(P.gaddr[B], want); }
  return false;
}
static void popFrame(Thread &t) { Frame &f = t.fr.back(); while (t.stk.v.size() > f.stkMark) { objDrop(t.stk.v.back()); t.stk.v.pop_back(); } t.regs.resize(f.base); delete f.va; t.fr.pop_back(); }
static void takeEdge(Thread &t, Frame &f, int e) {
  Edge &ed = f.fn->edges[e]; 
  if (ed.phis.size() == 1 && ed.phis[0].n == 1) { auto &p = ed.phis[0]; t.regs[f.base + p.dst] = p.src >= 0 ? t.regs[f.base + p.src] : EN.P.consts[-p.src - 1]; }
  else if (!ed.phis.empty()) { static std::vector<Val> tmp; tmp.clear(); for (auto &p : ed.phis) for (int i = 0; i < p.n; i++) tmp.push_back(p.src >= 0 ? t.regs[f.base + p.src + i] : EN.P.consts[-p.src - 1 + i]); size_t k = 0; for (auto &p : ed.phis) for (int i = 0; i < p.n; i++) t.regs[f.base + p.dst + i] = tmp[k++]; }
  f.pc = ed.target;
}
bool Engine::unwind(State &s) { // t.inflight set; frames from the top: the top frame is the one that threw/resumed (its current inst is the call)
  Thread &t = *s.th[s.cur];
  while (!t.fr.empty()) {
    Frame &f = t.fr.back(); const Inst &in = f.fn->code[f.pc];
    if (in.op == I_CALL && in.e2 >= 0) {
      u32 tgt = f.fn->edges[in.e2].target; const Inst &lp = f.fn->code[tgt];
      bool enter = lp.op == I_LPAD && lp.sub; int sel = 0;
      if (lp.op == I_LPAD) for (auto &c : *lp.clauses) { if (c.first == 0 && excMatch(t.inflight.ti, c.second)) { enter = true; sel = 1; break; } if (c.first == 1) { enter = true; break; } }
      (void)sel;
      if (enter) { takeEdge(t, f, in.e2); return true; }
    }
    popFrame(t);
  }
  std::string n = gnameByAddr.count(t.inflight.ti) ? gnameByAddr[t.inflight.ti] : "?";
  violation(s, "exception", "uncaught exception of type " + n); return false;
}

// ---------------------------------------------------------------- scheduling
static void wakeMutex(State &s, u64 m) { for (auto t : s.th) if (t->status == T_MUTEX && t->waitOn == m) t->status = T_RUN; }
// choose which thread runs next. blocked: current thread cannot continue.
bool Engine::sched(State &s, bool blocked) {
  std::vector<int> run; for (size_t i = 0; i < s.th.size(); i++) if (s.th[i]->status == T_RUN) run.push_back(i);
  if (run.empty()) { std::string w; for (size_t i = 0; i < s.th.size(); i++) w += "t" + std::to_string(i) + ":" + (s.th[i]->status == T_MUTEX ? "mutex" : s.th[i]->status == T_COND ? "cond" : s.th[i]->status == T_JOIN ? "join" : "done") + " "; violation(s, "deadlock", "deadlock: no thread can run (" + w + ")"); return false; }
  if (!blocked && s.preempt >= preemptBound) return true;
  if (!blocked) for (size_t i = 0; i < s.th.size(); i++) if (s.th[i]->status == T_COND) run.push_back(i); // spurious wake-up
  if (run.size() == 1) { s.cur = run[0]; return true; }
  // fork one state per choice; the choice is an input ("sched")
  int first = -1; if (!blocked) first = s.cur; else first = run[0];
  for (int r : run) if (r != first) { State *o = forkState(s); if (!blocked) o->preempt++; o->cur = r; if (o->th[r]->status == T_COND) o->th[r]->status = T_RUN; o->inputs.push_back({"sched", false, {V(r)}, 32}); push(o); }
  s.cur = first; s.inputs.push_back({"sched", false, {V(first)}, 32}); return true;
}

// ---------------------------------------------------------------- calls
bool Engine::callFn(State &s, Fn *f, const Inst *in, std::vector<Val> &fa) {
  if (f->code.empty()) P.compile(f);
  if (!f->seen) { f->seen = true; }
  used.insert(f);
  Thread &t = *s.th[s.cur]; if (t.fr.size() > 4000) { violation(s, "stack", "runaway recursion"); return false; }
  Frame nf; nf.fn = f; nf.pc = 0; nf.base = t.regs.size(); nf.stkMark = t.stk.v.size(); nf.call = in; nf.va = nullptr;
  u32 np = 0; for (u8 n : f->paramn) np += n;
  t.regs.resize(nf.base + f->nregs, V(0));
  for (u32 i = 0; i < np && i < fa.size(); i++) t.regs[nf.base + i] = fa[i];
  if (f->vararg && fa.size() > np) nf.va = new std::vector<Val>(fa.begin() + np, fa.end());
  t.fr.push_back(nf); return true;
}

void Engine::run(State &s) {
  std::vector<Val> args; u64 tick = 0;
reload:
  if (s.dead) return;
  {
    Thread *t = s.th[s.cur]; Frame *f = &t->fr.back(); const Inst *code = f->fn->code.data(); Val *R = t->regs.data() + f->base; const Val *K = P.consts.data();
#define OPV(r) ((r) >= 0 ? R[r] : K[-(r) - 1])
#define OPI(r, i) ((r) >= 0 ? R[(r) + (i)] : K[-(r) - 1 + (i)])
    for (;;) {
      const Inst &in = code[f->pc]; s.steps++; 
      if ((++tick & 0xffff) == 0) { if (s.steps > maxSteps) { violation(s, "hang", "no termination within " + std::to_string(maxSteps) + " instructions"); instrs += tick; return; } if (sh->stop || nowS() > deadline) { abandoned++; s.dead = true; instrs += tick; return; } }
      switch (in.op) {
        case I_BIN: {
          if (in.n == 1) {
            const Val &a = OPV(in.a), &b = OPV(in.b);
            if (!a.e && !b.e) { 
              if (in.sub >= E_UDIV && in.sub <= E_SREM && b.c == 0) { violation(s, "arith", "division by zero"); goto reload; }
              R[in.dst] = V(foldBin(in.sub, in.w, a.c, b.c));
            } else {
              if (in.sub >= E_UDIV && in.sub <= E_SREM) { X z = xEq(C(0, in.w), asX(b, in.w)); if (!isC(z) || z->c) { bool tk; State *o; if (!branch(s, z, tk, o)) goto reload; if (tk) { if (o) { push(o); } violation(s, "arith", "division by zero"); goto reload; } if (o) { violation(*o, "arith", "division by zero"); delete o; } t = s.th[s.cur]; f = &t->fr.back(); R = t->regs.data() + f->base; } }
              R[in.dst] = fromX(xBin(in.sub, asX(OPV(in.a), in.w), asX(OPV(in.b), in.w))); }
          } else for (u32 i = 0; i < in.n; i++) R[in.dst + i] = fromX(xBin(in.sub, asX(OPI(in.a, i), in.w), asX(OPI(in.b, i), in.w)));
          f->pc++; break; }
        case I_ICMP: for (u32 i = 0; i < in.n; i++) {
          Val a = OPI(in.a, i), b = OPI(in.b, i);
          if (!a.e && !b.e) { bool r = false; switch (in.sub) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break; case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
              case CmpInst::ICMP_SGT: r = sextw(a.c, in.w) > sextw(b.c, in.w); break; case CmpInst::ICMP_SGE: r = sextw(a.c, in.w) >= sextw(b.c, in.w); break; case CmpInst::ICMP_SLT: r = sextw(a.c, in.w) < sextw(b.c, in.w); break; case CmpInst::ICMP_SLE: r = sextw(a.c, in.w) <= sextw(b.c, in.w); break; }
            R[in.dst + i] = V(r);
          } else { X x = asX(a, in.w), y = asX(b, in.w), r = nullptr; switch (in.sub) { case CmpInst::ICMP_EQ: r = xEq(x, y); break; case CmpInst::ICMP_NE: r = xNot(xEq(x, y)); break; case CmpInst::ICMP_UGT: r = xUlt(y, x); break; case CmpInst::ICMP_UGE: r = xNot(xUlt(x, y)); break; case CmpInst::ICMP_ULT: r = xUlt(x, y); break; case CmpInst::ICMP_ULE: r = xNot(xUlt(y, x)); break;
              case CmpInst::ICMP_SGT: r = xSlt(y, x); break; case CmpInst::ICMP_SGE: r = xNot(xSlt(x, y)); break; case CmpInst::ICMP_SLT: r = xSlt(x, y); break; case CmpInst::ICMP_SLE: r = xNot(xSlt(y, x)); break; }
            R[in.dst + i] = fromX(r); } }
          f->pc++; break;
        case I_FBIN: { Val a = OPV(in.a), b = OPV(in.b); R[in.dst] = fromX(xFp(in.sub, in.w, 0, asX(a, in.w), asX(b, in.w))); f->pc++; break; }
        case I_FCMP: { Val a = OPV(in.a), b = OPV(in.b); if (in.sub == 0 || in.sub == 15) R[in.dst] = V(in.sub == 15); else R[in.dst] = fromX(xFp(F_CMP, 1, in.sub, asX(a, in.w), asX(b, in.w))); f->pc++; break; }
        case I_FCONV: { Val a = OPV(in.a); R[in.dst] = fromX(xFp(in.sub, in.w, 0, asX(a, in.w2))); f->pc++; break; }
        case I_FNEG: { Val a = OPV(in.a); R[in.dst] = fromX(xXor(C(1ULL << (in.w - 1), in.w), asX(a, in.w))); f->pc++; break; }
        case I_TRUNC: for (u32 i = 0; i < in.n; i++) { Val a = OPI(in.a, i); R[in.dst + i] = a.e ? fromX(xExtract(a.e, 0, in.w)) : V(a.c & maskw(in.w)); } f->pc++; break;
        case I_ZEXT: for (u32 i = 0; i < in.n; i++) { Val a = OPI(in.a, i); R[in.dst + i] = a.e ? fromX(xZext(a.e, in.w)) : a; } f->pc++; break;
        case I_SEXT: for (u32 i = 0; i < in.n; i++) { Val a = OPI(in.a, i); R[in.dst + i] = a.e ? fromX(xSext(a.e, in.w)) : V((u64)sextw(a.c, in.w2) & maskw(in.w)); } f->pc++; break;
        case I_COPY: for (u32 i = 0; i < in.n; i++) { Val a = OPI(in.a, i); R[in.dst + i] = a; } f->pc++; break;
        case I_LOAD: {
          const Val &a = OPV(in.a);
          if (!a.e && in.n == 1) { // fast path
            Obj *o = slotOf(s, a.c); u32 off = a.c & ((1u << OFFB) - 1);
            if (o && (u64)off + in.imm <= o->size) { R[in.dst] = loadAt(o, off, in.w); f->pc++; break; } }
          Val out[64]; if (!load(s, a, in.slots->data(), in.slots->size(), in.imm, out)) { instrs += tick; tick = 0; goto reload; }
          t = s.th[s.cur]; f = &t->fr.back(); R = t->regs.data() + f->base; for (u32 i = 0; i < in.n; i++) R[in.dst + i] = out[i]; f->pc++; break; }
        case I_STORE: {
          const Val &a = OPV(in.a);
          if (!a.e && in.slots->size() == 1) { Obj *&o = slotOf(s, a.c); u32 off = a.c & ((1u << OFFB) - 1);
            if (o && (u64)off + in.imm <= o->size && !o->ro) { if (o->rc > 1) { Obj *n = objClone(o); o->rc--; o = n; } storeAt(o, off, (*in.slots)[0].w, OPV(in.b)); f->pc++; break; } }
          Val v[64]; for (u32 i = 0; i < in.slots->size(); i++) v[i] = OPI(in.b, i);
          if (!store(s, a, in.slots->data(), in.slots->size(), in.imm, v)) { instrs += tick; tick = 0; goto reload; }
          f->pc++; break; }
        case I_GEP: {
          Val a = OPV(in.a); bool sym = a.e; for (auto &ix : *in.idx) if (OPV(ix.r).e) sym = true;
          if (!sym) { u64 r = a.c + in.imm; for (auto &ix : *in.idx) r += (u64)(sextw(OPV(ix.r).c, ix.w) * ix.scale); R[in.dst] = V(r); }
          else { X r = xAdd(C(in.imm, 64), asX(a, 64)); for (auto &ix : *in.idx) { X i = asX(OPV(ix.r), ix.w); r = xAdd(r, xMul(C(ix.scale, 64), xSext(i, 64))); } R[in.dst] = fromX(r); }
          f->pc++; break; }
        case I_ALLOCA: {
          Val n = OPV(in.a); if (n.e && !conc(s, n, in.w)) goto reload; u64 sz = n.c * in.imm; if (sz > (1u << 23)) { engErr(s, "alloca too large"); goto reload; }
          Obj *o = objNew(sz, OK_STACK); memset(o->d, fill, sz); t->stk.v.push_back(o); if (t->stk.v.size() > 65000) { engErr(s, "too many stack objects"); goto reload; }
          R[in.dst] = V(((0x100ULL + s.cur) << 40) | ((u64)(t->stk.v.size() - 1) << OFFB)); f->pc++; break; }
        case I_SELECT: {
          Val c = OPV(in.a); if (c.e) { auto it = s.known.find(c.e->id); if (it != s.known.end()) c = V(it->second); }
          for (u32 i = 0; i < in.n; i++) { Val x = OPI(in.b, i), y = OPI(in.c, i); if (!c.e) R[in.dst + i] = c.c ? x : y; else R[in.dst + i] = fromX(xIte(c.e, asX(x, (*in.slots)[i].w), asX(y, (*in.slots)[i].w))); }
          f->pc++; break; }
        case I_BR: takeEdge(*t, *f, in.e1); break;
        case I_CBR: {
          Val c = OPV(in.a); if (!c.e) { takeEdge(*t, *f, c.c ? in.e1 : in.e2); break; }
          bool tk; State *o; if (!branch(s, c.e, tk, o)) { goto reload; }
          if (o) { Thread &ot = *o->th[o->cur]; takeEdge(ot, ot.fr.back(), tk ? in.e2 : in.e1); push(o); }
          takeEdge(*t, *f, tk ? in.e1 : in.e2); break; }
        case I_SWITCH: {
          Val c = OPV(in.a); if (!c.e) { int e = in.e1; for (auto &cs : *in.cases) if (cs.first == c.c) { e = cs.second; break; } takeEdge(*t, *f, e); break; }
          // symbolic: peel cases one at a time
          bool done = false;
          for (auto &cs : *in.cases) { X eq = xEq(c.e, C(cs.first, in.w)); bool tk; State *o; if (!branch(s, eq, tk, o)) { goto reload; }
            if (tk) { if (o) push(o); takeEdge(*t, *f, cs.second); done = true; break; }   // o re-executes the switch with the negation
            if (o) { Thread &ot = *o->th[o->cur]; takeEdge(ot, ot.fr.back(), cs.second); push(o); } }
          if (!done) takeEdge(*t, *f, in.e1); break; }
        case I_RET: {
          static Val rv[64]; for (u32 i = 0; i < in.n; i++) rv[i] = OPI(in.a, i); u32 n = in.n; const Inst *call = f->call;
          popFrame(*t);
          if (t->fr.empty()) { t->status = T_DONE; t->ret = n ? rv[0].c : 0;
            if (s.cur == 0) { instrs += tick; tick = 0; endPath(s, "ok"); return; }
            for (auto x : s.th) if (x->status == T_JOIN && x->waitOn == (u64)s.cur) x->status = T_RUN;
            if (!sched(s, true)) { instrs += tick; return; } goto reload; }
          f = &t->fr.back(); code = f->fn->code.data(); R = t->regs.data() + f->base;
          if (call) { if (call->dst >= 0 && call->n) for (u32 i = 0; i < call->n; i++) R[call->dst + i] = i < n ? rv[i] : V(0); if (call->e1 >= 0) takeEdge(*t, *f, call->e1); else f->pc++; }
          break; }
        case I_CALL: {
          Fn *cf = in.callee; args.clear();
          if (!cf) { Val a = OPV(in.a); if (a.e && !conc(s, a, 64)) goto reload; auto it = P.byAddr.find(a.c); if (it == P.byAddr.end()) { violation(s, "memory", "call through invalid function pointer"); goto reload; } cf = it->second; }
          for (size_t i = 0; i < in.args->size(); i++) for (u32 j = 0; j < (*in.argn)[i]; j++) args.push_back(OPI((*in.args)[i], j));
          if (cf->nat) { Val ret = V(0); int cur0 = s.cur; size_t d0 = t->fr.size();
            if (!cf->nat(*this, s, in, args, ret)) { instrs += tick; tick = 0; goto reload; }
            if (s.dead) { instrs += tick; return; }
            t = s.th[s.cur]; if (s.cur != cur0 || t->fr.size() != d0) { goto reload; }
            f = &t->fr.back(); R = t->regs.data() + f->base; if (in.dst >= 0) R[in.dst] = ret; if (in.e1 >= 0) takeEdge(*t, *f, in.e1); else f->pc++; break; }
          if (!cf->def) { engErr(s, "call to unmodelled external function " + cf->name); goto reload; }
          if (!callFn(s, cf, &in, args)) goto reload;
          f = &t->fr.back(); code = f->fn->code.data(); R = t->regs.data() + f->base; K = P.consts.data(); break; }
        case I_EXTRACTV: { Val tmp[64]; for (u32 i = 0; i < in.n; i++) tmp[i] = OPI(in.a, (int)in.imm + (int)i); for (u32 i = 0; i < in.n; i++) R[in.dst + i] = tmp[i]; f->pc++; break; }
        case I_INSERTV: { Val tmp[64]; for (u32 i = 0; i < in.n; i++) tmp[i] = OPI(in.a, (int)i); for (u32 i = 0; i < in.w2; i++) tmp[in.imm + i] = OPI(in.b, (int)i); for (u32 i = 0; i < in.n; i++) R[in.dst + i] = tmp[i]; f->pc++; break; }
        case I_UNREACH: engErr(s, "reached unreachable"); goto reload;
        case I_LPAD: { u64 sel = 0; for (auto &c : *in.clauses) if (c.first == 0 && excMatch(t->inflight.ti, c.second)) { sel = (c.second >> OFFB) + 1000; if (!c.second) sel = 999; break; }
          R[in.dst] = V(t->inflight.obj); R[in.dst + 1] = V(sel); f->pc++; break; }
        case I_RESUME: { popFrame(*t); if (t->fr.empty()) { violation(s, "exception", "uncaught exception"); goto reload; } unwind(s); goto reload; }
        case I_RMW: { Val a = OPV(in.a), b = OPV(in.b), old; Slot sl{0, in.w}; if (!load(s, a, &sl, 1, (in.w + 7) / 8, &old)) goto reload; t = s.th[s.cur]; f = &t->fr.back(); R = t->regs.data() + f->base; Val nv = in.sub == 255 ? b : fromX(xBin(in.sub, asX(old, in.w), asX(b, in.w))); if (!store(s, a, &sl, 1, (in.w + 7) / 8, &nv)) goto reload; R[in.dst] = old; f->pc++; break; }
        case I_CMPXCHG: { Val a = OPV(in.a), b = OPV(in.b), n = OPV(in.c), old; u8 w = (u8)in.imm; Slot sl{0, w}; if (!load(s, a, &sl, 1, w / 8, &old)) goto reload; t = s.th[s.cur]; f = &t->fr.back(); R = t->regs.data() + f->base; X eq = xEq(asX(old, w), asX(b, w)); Val nv = fromX(xIte(eq, asX(n, w), asX(old, w))); if (!store(s, a, &sl, 1, w / 8, &nv)) goto reload; R[in.dst] = old; R[in.dst + 1] = fromX(eq); f->pc++; break; }
        default: { std::string str; raw_string_ostream os(str); in.I->print(os); engErr(s, "unsupported instruction: " + os.str()); goto reload; }
      }
    }
  }
}

// ---------------------------------------------------------------- natives
#define NAT(n) static bool n(Engine &E, State &s, const Inst &in, std::vector<Val> &a, Val &ret)
#define CONC(i) do { if (a[i].e && !E.conc(s, a[i], 64)) return false; } while (0)
#define CONCW(i, w) do { if (a[i].e && !E.conc(s, a[i], w)) return false; } while (0)

NAT(n_nop) { return true; }
NAT(n_nop0) { ret = V(0); return true; }
NAT(n_ret1) { ret = V(1); return true; }
NAT(n_retarg0) { ret = a[0]; return true; }
NAT(n_malloc) { CONC(0); u64 p = E.allocHeap(s, a[0].c, E.fill); if (!p && a[0].c > 0x100000000ULL) { ret = V(0); return true; } if (!p) { E.engErr(s, "malloc too large: " + std::to_string(a[0].c)); return false; } ret = V(p); return true; }
NAT(n_calloc) { CONC(0); CONC(1); u64 p = E.allocHeap(s, a[0].c * a[1].c, 0); if (!p) { E.engErr(s, "calloc too large"); return false; } ret = V(p); return true; }
static bool doFree(Engine &E, State &s, u64 p) {
  if (!p) return true; Obj *&o = E.slotOf(s, p);
  if (!o) { E.violation(s, "memory", "double free or free of invalid pointer"); return false; }
  if (o->kind != OK_HEAP || (p & ((1u << OFFB) - 1))) { E.violation(s, "memory", "free of a pointer that was not allocated"); return false; }
  objDrop(o); o = nullptr; s.heapLive--; return true; }
NAT(n_free) { CONC(0); return doFree(E, s, a[0].c); }
NAT(n_realloc) { CONC(0); CONC(1); u64 p = E.allocHeap(s, a[1].c, E.fill); if (!p) { E.engErr(s, "realloc too large"); return false; } if (a[0].c) { Obj *o = E.slotOf(s, a[0].c); if (!o || o->kind != OK_HEAP) { E.violation(s, "memory", "realloc of invalid pointer"); return false; } Obj *n = E.slotOf(s, p); u32 k = std::min(o->size, n->size); memcpy(n->d, o->d, k); if (o->s) { n->s = (X *)calloc(n->size ? n->size : 1, sizeof(X)); memcpy(n->s, o->s, k * sizeof(X)); } if (!doFree(E, s, a[0].c)) return false; } ret = V(p); return true; }
static bool copyMem(Engine &E, State &s, u64 d, u64 sr, u64 n) {
  if (!n) return true; if (!E.memCheck(s, sr, n, "read (copy)")) return false; if (!E.memCheck(s, d, n, "write (copy)")) return false;
  Obj *od = E.slotOf(s, d); if (od->ro) { E.violation(s, "memory", "write to constant object"); return false; }
  od = E.wr(s, d); Obj *os = E.slotOf(s, sr); u32 x = d & ((1u << OFFB) - 1), y = sr & ((1u << OFFB) - 1);
  memmove(od->d + x, os->d + y, n);
  if (os->s) { bool any = od->s; if (!any) for (u64 i = 0; i < n; i++) if (os->s[y + i]) { any = true; break; } if (any) { if (!od->s) od->s = (X *)calloc(od->size, sizeof(X)); memmove(od->s + x, os->s + y, n * sizeof(X)); } }
  else if (od->s) memset(od->s + x, 0, n * sizeof(X));
  return true; }
NAT(n_memcpy) { CONC(0); CONC(1); CONC(2); if (!copyMem(E, s, a[0].c, a[1].c, a[2].c)) return false; ret = a[0]; return true; }
NAT(n_memset) { CONC(0); CONC(2); u64 n = a[2].c; ret = a[0]; if (!n) return true; if (!E.memCheck(s, a[0].c, n, "write (memset)")) return false; Obj *o = E.slotOf(s, a[0].c); if (o->ro) { E.violation(s, "memory", "write to constant object"); return false; } o = E.wr(s, a[0].c); u32 x = a[0].c & ((1u << OFFB) - 1);
  if (a[1].e) { X b = a[1].e; if (b->w > 8) b = xExtract(b, 0, 8); for (u64 i = 0; i < n; i++) E.storeAt(o, x + i, 8, fromX(b)); } else { memset(o->d + x, a[1].c & 0xff, n); if (o->s) memset(o->s + x, 0, n * sizeof(X)); } return true; }
static Val rdByte(Engine &E, State &s, u64 p) { Obj *o = E.slotOf(s, p); return E.loadAt(o, p & ((1u << OFFB) - 1), 8); }
NAT(n_memcmp) { CONC(0); CONC(1); CONC(2); u64 n = a[2].c; if (!E.memCheck(s, a[0].c, n, "read (memcmp)") || !E.memCheck(s, a[1].c, n, "read (memcmp)")) return false;
  X r = C(0, 32); for (u64 i = n; i-- > 0;) { Val x = rdByte(E, s, a[0].c + i), y = rdByte(E, s, a[1].c + i); X xx = asX(x, 8), yy = asX(y, 8); X eq = xEq(xx, yy); if (isC(eq) && eq->c) continue; r = xIte(eq, r, xSub(xZext(xx, 32), xZext(yy, 32))); } ret = fromX(r); return true; }
static X memEqX(Engine &E, State &s, u64 p, u64 q, u64 n) { X r = C(1, 1); for (u64 i = 0; i < n; i++) { Val x = rdByte(E, s, p + i), y = rdByte(E, s, q + i); if (!x.e && !y.e) { if (x.c != y.c) return C(0, 1); continue; } if (x.e == y.e && x.e) continue; r = xAnd(r, xEq(asX(x, 8), asX(y, 8))); } return r; }
NAT(n_bcmp) { CONC(0); CONC(1); CONC(2); u64 n = a[2].c; if (!E.memCheck(s, a[0].c, n, "read (bcmp)") || !E.memCheck(s, a[1].c, n, "read (bcmp)")) return false; ret = fromX(xZext(xNot(memEqX(E, s, a[0].c, a[1].c, n)), 32)); return true; }
NAT(n_vf_memeq) { CONC(0); CONC(1); CONC(2); u64 n = a[2].c; if (!E.memCheck(s, a[0].c, n, "read (harness compare)") || !E.memCheck(s, a[1].c, n, "read (harness compare)")) return false; ret = fromX(xZext(memEqX(E, s, a[0].c, a[1].c, n), 32)); return true; }
NAT(n_exit) { CONC(0); std::string m = "exit(" + std::to_string((int)a[0].c) + ")"; if (s.allowExit) { E.exitMsgs[m]++; E.endPath(s, "exit"); return false; } E.violation(s, "exit", "the library terminated the process: " + m); return false; }
NAT(n_abort) { if (s.allowExit) { E.exitMsgs["abort"]++; E.endPath(s, "exit"); return false; } E.violation(s, "abort", "abort() called"); return false; }
NAT(n_assertfail) { std::string m = "assertion failed: " + (a[0].e ? std::string("?") : E.cstr(s, a[0].c)); if (s.allowExit) { E.exitMsgs[m]++; E.endPath(s, "exit"); return false; } E.violation(s, "abort", m); return false; }
NAT(n_errno) { if (!s.errnoAddr) s.errnoAddr = E.allocHeap(s, 4, 0, OK_GLOBAL); ret = V(s.errnoAddr); return true; }
// harness API
NAT(n_vf_bytes) { CONC(0); CONC(1); u64 n = a[1].c; if (!E.memCheck(s, a[0].c, n, "write (vf_bytes)")) return false; std::string nm = E.cstr(s, a[2].c); Input ip; ip.name = nm; ip.bytes = true; ip.w = 8; if (n) { Obj *o = E.wr(s, a[0].c); u32 x = a[0].c & ((1u << OFFB) - 1); for (u64 i = 0; i < n; i++) { X e = E.newSym(s, nm, 8); E.storeAt(o, x + i, 8, Val{0, e}); ip.v.push_back(Val{0, e}); } } s.inputs.push_back(ip); return true; }
NAT(n_vf_u32) { std::string nm = E.cstr(s, a[0].c); X e = E.newSym(s, nm, 32); s.inputs.push_back({nm, false, {Val{0, e}}, 32}); ret = Val{0, e}; return true; }

static bool addAssume(Engine &E, State &s, X c) { // assume c; false when infeasible
  if (isC(c)) { if (!c->c) { E.endPath(s, "assume"); return false; } return true; }
  if (!evalTop(c, s.model)) { Model m = s.model; int r = (gCur = &s, SV).check(s.path, c, m); if (r < 0) { E.engErr(s, "solver: unknown in assume"); return false; } if (!r) { E.endPath(s, "assume"); return false; } s.model = m; }
  E.addC(s, c); return true; }
NAT(n_vf_range) { CONC(1); CONC(2); std::string nm = E.cstr(s, a[0].c); i64 lo = sextw(a[1].c, 32), hi = sextw(a[2].c, 32); if (lo > hi) { E.endPath(s, "assume"); return false; }
  X e = E.newSym(s, nm, 32); if (s.model.size() <= e->c) s.model.resize(e->c + 1, 0); s.model[e->c] = (u64)lo & 0xffffffffu;
  s.inputs.push_back({nm, false, {Val{0, e}}, 32});
  E.addC(s, lo >= 0 ? xNot(xUlt(e, C(lo, 32))) : xNot(xSlt(e, C(lo, 32)))); E.addC(s, lo >= 0 ? xNot(xUlt(C(hi, 32), e)) : xNot(xSlt(C(hi, 32), e)));
  ret = Val{0, e}; return true; }
NAT(n_vf_conc) { CONCW(0, 32); ret = a[0]; return true; }
NAT(n_vf_assume) { X c = a[0].e ? xNot(xEq(a[0].e, C(0, 32))) : C(a[0].c != 0, 1); return addAssume(E, s, c); }
NAT(n_vf_assert) { E.asserts++; X c = a[0].e ? xNot(xEq(a[0].e, C(0, 32))) : C((a[0].c & 0xffffffffu) != 0, 1); std::string m = E.cstr(s, a[1].c);
  if (isC(c)) { if (!c->c) { E.violation(s, "assert", m); return false; } return true; }
  E.assertsSolver++; Model md = s.model; int r; if (!evalTop(c, s.model)) r = 1; else r = (gCur = &s, SV).check(s.path, xNot(c), md);
  if (r == 1) { E.violation(s, "assert", m, &md); return false; } if (r < 0) E.pinModel(s, c);
  return true; }
NAT(n_vf_reach) { E.reach[E.cstr(s, a[0].c)]++; return true; }
NAT(n_vf_observe) { s.obs.push_back({E.cstr(s, a[0].c), {a[1]}}); return true; }
NAT(n_vf_obs_bytes) { CONC(1); CONC(2); if (!E.memCheck(s, a[1].c, a[2].c, "read (observe)")) return false; std::vector<Val> v; for (u64 i = 0; i < a[2].c; i++) v.push_back(rdByte(E, s, a[1].c + i)); v.push_back(V(0xee)); s.obs.push_back({E.cstr(s, a[0].c), v}); return true; }
NAT(n_vf_param) { CONC(1); ret = V((u32)E.param(E.cstr(s, a[0].c), (int)a[1].c)); return true; }
NAT(n_vf_end) { E.endPath(s, "ok"); return false; }
NAT(n_vf_allow_exit) { s.allowExit = a[0].c != 0; return true; }
NAT(n_vf_fail) { E.violation(s, "assert", E.cstr(s, a[0].c)); return false; }
NAT(n_vf_live) { ret = V(s.heapLive); return true; }
NAT(n_vf_issym) { ret = V(a[0].e != nullptr); return true; }
NAT(n_vf_print) { fprintf(stderr, "[%s] %s\n", E.cstr(s, a[0].c).c_str(), a[1].e ? "<sym>" : std::to_string((long)a[1].c).c_str()); return true; }
// intrinsics
static unsigned iw(const Inst &in, unsigned k = 0) { return cast<CallBase>(in.I)->getArgOperand(k)->getType()->isPointerTy() ? 64 : cast<CallBase>(in.I)->getArgOperand(k)->getType()->getIntegerBitWidth(); }
NAT(n_umax) { unsigned w = iw(in); X x = asX(a[0], w), y = asX(a[1], w); ret = fromX(xIte(xUlt(x, y), y, x)); return true; }
NAT(n_umin) { unsigned w = iw(in); X x = asX(a[0], w), y = asX(a[1], w); ret = fromX(xIte(xUlt(x, y), x, y)); return true; }
NAT(n_smax) { unsigned w = iw(in); X x = asX(a[0], w), y = asX(a[1], w); ret = fromX(xIte(xSlt(x, y), y, x)); return true; }
NAT(n_smin) { unsigned w = iw(in); X x = asX(a[0], w), y = asX(a[1], w); ret = fromX(xIte(xSlt(x, y), x, y)); return true; }
NAT(n_abs) { unsigned w = iw(in); X x = asX(a[0], w); ret = fromX(xIte(xSlt(x, C(0, w)), xSub(C(0, w), x), x)); return true; }
NAT(n_bswap) { unsigned w = iw(in); if (!a[0].e) { u64 v = a[0].c, r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((v >> (8 * i)) & 0xff) << (w - 8 - 8 * i); ret = V(r); return true; } X r = nullptr; for (unsigned i = 0; i < w / 8; i++) { X b = xExtract(a[0].e, i * 8, 8); r = r ? xConcat(r, b) : b; } ret = fromX(r); return true; }
NAT(n_ctlz) { unsigned w = iw(in); CONCW(0, w); u64 v = a[0].c; unsigned n = 0; while (n < w && !(v >> (w - 1 - n) & 1)) n++; ret = V(n); return true; }
NAT(n_cttz) { unsigned w = iw(in); CONCW(0, w); u64 v = a[0].c; unsigned n = 0; while (n < w && !(v >> n & 1)) n++; ret = V(n); return true; }
NAT(n_ctpop) { unsigned w = iw(in); CONCW(0, w); ret = V(__builtin_popcountll(a[0].c)); return true; }
NAT(n_fshl) { unsigned w = iw(in); CONCW(2, w); unsigned k = a[2].c % w; X x = asX(a[0], w), y = asX(a[1], w); ret = k ? fromX(xOr(xShlC(x, k), xLshrC(y, w - k))) : a[0]; return true; }
NAT(n_fshr) { unsigned w = iw(in); CONCW(2, w); unsigned k = a[2].c % w; X x = asX(a[0], w), y = asX(a[1], w); ret = k ? fromX(xOr(xShlC(x, w - k), xLshrC(y, k))) : a[1]; return true; }
static void setRet2(Engine &E, State &s, const Inst &in, Val v, Val o) { Thread &t = *s.th[s.cur]; t.regs[t.fr.back().base + in.dst + 1] = o; (void)v; }
NAT(n_uaddo) { unsigned w = iw(in); X x = asX(a[0], w), y = asX(a[1], w), r = xAdd(x, y); setRet2(E, s, in, ret, fromX(xUlt(r, x))); ret = fromX(r); return true; }
NAT(n_usubo) { unsigned w = iw(in); X x = asX(a[0], w), y = asX(a[1], w); setRet2(E, s, in, ret, fromX(xUlt(x, y))); ret = fromX(xSub(x, y)); return true; }
NAT(n_umulo) { unsigned w = iw(in); CONCW(0, w); CONCW(1, w); unsigned __int128 p = (unsigned __int128)a[0].c * a[1].c; setRet2(E, s, in, ret, V(p > maskw(w))); ret = V((u64)p & maskw(w)); return true; }
NAT(n_usubsat) { unsigned w = iw(in); X x = asX(a[0], w), y = asX(a[1], w); ret = fromX(xIte(xUlt(x, y), C(0, w), xSub(x, y))); return true; }
NAT(n_uaddsat) { unsigned w = iw(in); X x = asX(a[0], w), y = asX(a[1], w), r = xAdd(x, y); ret = fromX(xIte(xUlt(r, x), C(maskw(w), w), r)); return true; }
NAT(n_objsize) { ret = V(a[1].c ? 0 : ~0ULL); return true; }
NAT(n_trap) { E.violation(s, "abort", "trap"); return false; }
// threads
NAT(n_pthread_create) { CONC(0); CONC(2); CONC(3); auto it = E.P.byAddr.find(a[2].c); if (it == E.P.byAddr.end()) { E.engErr(s, "pthread_create: bad function"); return false; } int id = s.th.size(); if (id >= 8) { E.engErr(s, "too many threads"); return false; } Slot sl{0, 64}; Val v = V(id + 1); if (!E.store(s, a[0], &sl, 1, 8, &v)) return false;
  Thread *t = new Thread(); s.th.push_back(t); int c = s.cur; s.cur = id; std::vector<Val> fa{a[3]}; bool r = E.callFn(s, it->second, nullptr, fa); s.cur = c; ret = V(0); return r; }
NAT(n_pthread_join) { CONC(0); u64 id = a[0].c - 1; if (id >= s.th.size()) { E.violation(s, "thread", "join of an invalid thread"); return false; } if (s.th[id]->status != T_DONE) { s.th[s.cur]->status = T_JOIN; s.th[s.cur]->waitOn = id; E.sched(s, true); return false; } if (a[1].c) { Slot sl{0, 64}; Val v = V(s.th[id]->ret); if (!E.store(s, a[1], &sl, 1, 8, &v)) return false; } ret = V(0); return true; }
NAT(n_pthread_self) { ret = V(s.cur + 1); return true; }
NAT(n_mutex_init) { CONC(0); s.mtx.erase(a[0].c); if (!E.memCheck(s, a[0].c, 40, "mutex")) return false; ret = V(0); return true; }
NAT(n_mutex_destroy) { CONC(0); if (!E.memCheck(s, a[0].c, 40, "mutex")) return false; s.mtx.erase(a[0].c); ret = V(0); return true; }
NAT(n_mutex_lock) { CONC(0); u64 m = a[0].c; if (!E.memCheck(s, m, 40, "mutex lock")) return false; Thread &t = *s.th[s.cur];
  if (t.phase == 0) { t.phase = 1; int c = s.cur; if (s.th.size() > 1) { if (!E.sched(s, false)) return false; if (s.cur != c) return false; } }
  Mutex &mx = s.mtx[m]; if (mx.owner >= 0) { s.th[s.cur]->status = T_MUTEX; s.th[s.cur]->waitOn = m; E.sched(s, true); return false; }
  mx.owner = s.cur; s.th[s.cur]->phase = 0; ret = V(0); return true; }
NAT(n_mutex_trylock) { CONC(0); u64 m = a[0].c; if (!E.memCheck(s, m, 40, "mutex trylock")) return false; Thread &t = *s.th[s.cur];
  if (t.phase == 0) { t.phase = 1; int c = s.cur; if (s.th.size() > 1) { if (!E.sched(s, false)) return false; if (s.cur != c) return false; } }
  Mutex &mx = s.mtx[m]; s.th[s.cur]->phase = 0; if (mx.owner >= 0) { ret = V(16); return true; } mx.owner = s.cur; ret = V(0); return true; }
NAT(n_mutex_unlock) { CONC(0); u64 m = a[0].c; Thread &t = *s.th[s.cur]; ret = V(0);
  if (t.phase == 0) { if (!E.memCheck(s, m, 40, "mutex unlock")) return false; Mutex &mx = s.mtx[m]; if (mx.owner != s.cur) { E.violation(s, "thread", "unlock of a mutex not held by this thread"); return false; } mx.owner = -1; wakeMutex(s, m); t.phase = 1; int c = s.cur; if (s.th.size() > 1) { if (!E.sched(s, false)) return false; if (s.cur != c) return false; } }
  s.th[s.cur]->phase = 0; return true; }
NAT(n_cond_init) { CONC(0); if (!E.memCheck(s, a[0].c, 48, "cond")) return false; ret = V(0); return true; }
NAT(n_cond_wait) { CONC(0); CONC(1); u64 c = a[0].c, m = a[1].c; if (!E.memCheck(s, c, 48, "cond wait")) return false; Thread &t = *s.th[s.cur];
  if (t.phase == 0) { Mutex &mx = s.mtx[m]; if (mx.owner != s.cur) { E.violation(s, "thread", "cond wait without holding the mutex"); return false; } mx.owner = -1; wakeMutex(s, m); t.status = T_COND; t.waitOn = c; t.phase = 2; E.sched(s, true); return false; }
  Mutex &mx = s.mtx[m]; if (mx.owner >= 0) { t.status = T_MUTEX; t.waitOn = m; E.sched(s, true); return false; } mx.owner = s.cur; t.phase = 0; ret = V(0); return true; }
NAT(n_cond_signal) { CONC(0); { Thread &t = *s.th[s.cur]; if (t.phase == 0) { t.phase = 1; int c = s.cur; if (s.th.size() > 1) { if (!E.sched(s, false)) return false; if (s.cur != c) return false; } } s.th[s.cur]->phase = 0; } if (!E.memCheck(s, a[0].c, 48, "cond signal")) return false; for (auto t : s.th) if (t->status == T_COND && t->waitOn == a[0].c) { t->status = T_RUN; break; } ret = V(0); return true; }
NAT(n_cond_bcast) { CONC(0); { Thread &t = *s.th[s.cur]; if (t.phase == 0) { t.phase = 1; int c = s.cur; if (s.th.size() > 1) { if (!E.sched(s, false)) return false; if (s.cur != c) return false; } } s.th[s.cur]->phase = 0; } if (!E.memCheck(s, a[0].c, 48, "cond broadcast")) return false; for (auto t : s.th) if (t->status == T_COND && t->waitOn == a[0].c) t->status = T_RUN; ret = V(0); return true; }
NAT(n_vf_yield) { Thread &t = *s.th[s.cur]; if (t.phase == 0 && s.th.size() > 1) { t.phase = 1; int c = s.cur; if (!E.sched(s, false)) return false; if (s.cur != c) return false; } s.th[s.cur]->phase = 0; return true; }
// C++ runtime
NAT(n_new) { CONC(0); u64 p = E.allocHeap(s, a[0].c, E.fill); if (!p) { E.engErr(s, "operator new too large: " + std::to_string(a[0].c)); return false; } ret = V(p); return true; }
NAT(n_allocexc) { CONC(0); u64 p = E.allocHeap(s, a[0].c, E.fill, OK_GLOBAL); ret = V(p); return true; }
NAT(n_throw) { CONC(0); CONC(1); Thread &t = *s.th[s.cur]; t.inflight = {a[0].c, a[1].c}; E.unwind(s); return false; }
NAT(n_rethrow) { Thread &t = *s.th[s.cur]; if (t.caught.empty()) { E.violation(s, "exception", "rethrow without exception"); return false; } t.inflight = t.caught.back(); E.unwind(s); return false; }
NAT(n_begincatch) { Thread &t = *s.th[s.cur]; t.caught.push_back(t.inflight); ret = a[0]; return true; }
NAT(n_endcatch) { Thread &t = *s.th[s.cur]; if (!t.caught.empty()) t.caught.pop_back(); return true; }
NAT(n_typeid) { CONC(0); ret = V(a[0].c ? (a[0].c >> OFFB) + 1000 : 999); return true; }
NAT(n_terminate) { E.violation(s, "exception", "std::terminate called"); return false; }
NAT(n_stdthrow) { // std::__throw_xxx: raise as the matching std exception
  std::string n = in.callee ? in.callee->name : ""; std::string ti = n.find("length_error") != std::string::npos ? "_ZTISt12length_error" : n.find("out_of_range") != std::string::npos ? "_ZTISt12out_of_range" : n.find("bad_alloc") != std::string::npos || n.find("bad_array") != std::string::npos ? "_ZTISt9bad_alloc" : "_ZTISt11logic_error";
  GlobalVariable *G = E.P.M->getNamedGlobal(ti); u64 tia = G ? E.P.gaddr[G] : 0; if (!tia) { GlobalVariable *B = E.P.M->getNamedGlobal("_ZTISt9exception"); tia = B ? E.P.gaddr[B] : 0; } u64 p = E.allocHeap(s, 64, 0, OK_GLOBAL); s.th[s.cur]->inflight = {p, tia}; E.unwind(s); return false; }
// va_list as the x86-64 ABI lays it out, with every argument in the overflow area (the register areas are marked as used up)
NAT(n_vastart) { Frame &f = s.th[s.cur]->fr.back(); u64 n = f.va ? f.va->size() : 0; u64 p = E.allocHeap(s, 8 * n + 8, 0, OK_GLOBAL); std::vector<Val> va; if (f.va) va = *f.va; Slot sl{0, 64};
  for (u64 i = 0; i < n; i++) { Val v = va[i]; if (!E.store(s, V(p + 8 * i), &sl, 1, 8, &v)) return false; }
  Val h[3] = {V(48ULL | 304ULL << 32), V(p), V(0)}; for (int i = 0; i < 3; i++) { Val ad = a[0]; ad.c += 8 * i; if (!E.store(s, ad, &sl, 1, 8, &h[i])) return false; } return true; }
NAT(n_tls) { if (s.cur != 0) { E.engErr(s, "thread-local variable used by a second thread"); return false; } ret = a[0]; return true; }
NAT(n_vacopy) { CONC(0); CONC(1); return copyMem(E, s, a[0].c, a[1].c, 24); }

void Engine::bindNatives() {
  static const std::map<std::string, Native> tab = {
    {"malloc", n_malloc}, {"calloc", n_calloc}, {"free", n_free}, {"realloc", n_realloc}, {"memcpy", n_memcpy}, {"memmove", n_memcpy}, {"memset", n_memset}, {"memcmp", n_memcmp}, {"bcmp", n_bcmp}, {"__memcpy_chk", n_memcpy}, {"__memset_chk", n_memset}, {"__memmove_chk", n_memcpy},
    {"exit", n_exit}, {"_exit", n_exit}, {"abort", n_abort}, {"__assert_fail", n_assertfail}, {"__errno_location", n_errno},
    {"fprintf", n_nop0}, {"printf", n_nop0}, {"fputs", n_nop0}, {"puts", n_nop0}, {"fwrite", n_nop0}, {"fputc", n_nop0}, {"putchar", n_nop0}, {"perror", n_nop}, {"fflush", n_nop0}, {"putc", n_nop0}, {"vfprintf", n_nop0}, {"srand", n_nop},
    {"vf_bytes", n_vf_bytes}, {"vf_u32", n_vf_u32}, {"vf_range", n_vf_range}, {"vf_conc", n_vf_conc}, {"vf_assume", n_vf_assume}, {"vf_assert", n_vf_assert}, {"vf_reach", n_vf_reach}, {"vf_observe", n_vf_observe}, {"vf_obs_bytes", n_vf_obs_bytes}, {"vf_param", n_vf_param}, {"vf_end", n_vf_end}, {"vf_allow_exit", n_vf_allow_exit}, {"vf_fail", n_vf_fail}, {"vf_memeq", n_vf_memeq}, {"vf_live", n_vf_live}, {"vf_issym", n_vf_issym}, {"vf_print", n_vf_print}, {"vf_yield", n_vf_yield},
    {"pthread_create", n_pthread_create}, {"pthread_join", n_pthread_join}, {"pthread_self", n_pthread_self}, {"pthread_mutex_init", n_mutex_init}, {"pthread_mutex_destroy", n_mutex_destroy}, {"pthread_mutex_lock", n_mutex_lock}, {"pthread_mutex_trylock", n_mutex_trylock}, {"pthread_mutex_unlock", n_mutex_unlock}, {"pthread_cond_init", n_cond_init}, {"pthread_cond_destroy", n_cond_init}, {"pthread_cond_wait", n_cond_wait}, {"pthread_cond_signal", n_cond_signal}, {"pthread_cond_broadcast", n_cond_bcast}, {"pthread_mutexattr_init", n_nop0}, {"pthread_mutexattr_destroy", n_nop0}, {"sched_yield", n_vf_yield},
    {"_Znwm", n_new}, {"_Znam", n_new}, {"_ZdlPv", n_free}, {"_ZdaPv", n_free}, {"_ZdlPvm", n_free}, {"_ZdaPvm", n_free}, {"__cxa_allocate_exception", n_allocexc}, {"__cxa_free_exception", n_nop}, {"__cxa_throw", n_throw}, {"__cxa_rethrow", n_rethrow}, {"__cxa_begin_catch", n_begincatch}, {"__cxa_end_catch", n_endcatch}, {"_ZSt9terminatev", n_terminate}, {"__cxa_pure_virtual", n_terminate}, {"__cxa_atexit", n_nop0}, {"__cxa_get_exception_ptr", n_retarg0},
    {"_ZNSt9exceptionD2Ev", n_nop}, {"_ZNSt9exceptionD1Ev", n_nop}, {"_ZNKSt9exception4whatEv", n_nop0}, {"__cxa_guard_acquire", nullptr},
  };
  for (auto &F : *P.M) { Fn *f = P.getFn(&F); std::string n = f->name; 
    auto it = tab.find(n); if (it != tab.end() && it->second && F.isDeclaration()) { f->nat = it->second; continue; }
    if (!F.isDeclaration()) continue;
    if (n.rfind("llvm.", 0) == 0) {
      auto st = [&](const char *p) { return n.rfind(p, 0) == 0; };
      if (st("llvm.memcpy") || st("llvm.memmove")) f->nat = n_memcpy; else if (st("llvm.memset")) f->nat = n_memset; else if (st("llvm.umax")) f->nat = n_umax; else if (st("llvm.umin")) f->nat = n_umin; else if (st("llvm.smax")) f->nat = n_smax; else if (st("llvm.smin")) f->nat = n_smin; else if (st("llvm.abs")) f->nat = n_abs; else if (st("llvm.bswap")) f->nat = n_bswap; else if (st("llvm.ctlz")) f->nat = n_ctlz; else if (st("llvm.cttz")) f->nat = n_cttz; else if (st("llvm.ctpop")) f->nat = n_ctpop; else if (st("llvm.fshl")) f->nat = n_fshl; else if (st("llvm.fshr")) f->nat = n_fshr;
      else if (st("llvm.uadd.with.overflow")) f->nat = n_uaddo; else if (st("llvm.usub.with.overflow")) f->nat = n_usubo; else if (st("llvm.umul.with.overflow")) f->nat = n_umulo; else if (st("llvm.usub.sat")) f->nat = n_usubsat; else if (st("llvm.uadd.sat")) f->nat = n_uaddsat; else if (st("llvm.objectsize")) f->nat = n_objsize; else if (st("llvm.expect")) f->nat = n_retarg0; else if (st("llvm.trap") || st("llvm.ubsantrap")) f->nat = n_trap; else if (st("llvm.threadlocal.address")) f->nat = n_tls; else if (st("llvm.va_start")) f->nat = n_vastart; else if (st("llvm.va_copy")) f->nat = n_vacopy; else if (st("llvm.eh.typeid.for")) f->nat = n_typeid; else if (st("llvm.va_end") || st("llvm.stackrestore") || st("llvm.prefetch")) f->nat = n_nop; else if (st("llvm.stacksave")) f->nat = n_nop0; else if (st("llvm.is.constant")) f->nat = n_nop0; else if (st("llvm.launder") || st("llvm.strip.invariant")) f->nat = n_retarg0; else if (st("llvm.load.relative")) f->nat = nullptr;
      continue; }
    if (n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos) { f->nat = n_stdthrow; continue; }
    // runtime replacement: vfs_<name> (also for the 64-bit file variants)
    std::string b = n; if (b.size() > 2 && b.substr(b.size() - 2) == "64") b = b.substr(0, b.size() - 2);
    if (b.rfind("__isoc23_", 0) == 0) b = b.substr(9);
    if (b.rfind("__isoc99_", 0) == 0) b = b.substr(9);
    for (auto &nm : {b, n}) if (Function *R = P.M->getFunction("vfs_" + nm)) if (!R->isDeclaration()) { f->name = "->" + R->getName().str(); f->F = R; f->def = true; break; }
  }
}
void Engine::loadModule(const char *path, State &s) {
  SMDiagnostic err; P.M = parseIRFile(path, err, P.ctx); if (!P.M) { fprintf(stderr, "cannot load %s: %s\n", path, err.getMessage().str().c_str()); exit(3); }
  P.DL = &P.M->getDataLayout(); s.heap.v.push_back(nullptr);
  for (auto &F : *P.M) P.getFn(&F);
  for (auto &G : P.M->globals()) { Type *T = G.getValueType(); u64 sz = T->isSized() ? (u64)P.DL->getTypeAllocSize(T) : 8; if (!G.hasInitializer() && sz < 64) sz = 64; u64 a = allocHeap(s, sz, 0, OK_GLOBAL); if (!a) { fprintf(stderr, "global too large\n"); exit(3); } P.gaddr[&G] = a; gnameByAddr[a] = G.getName().str(); }
  for (auto &A : P.M->aliases()) { u64 v; if (P.cval(A.getAliasee(), v)) P.gaddr[&A] = v; }
  for (auto &G : P.M->globals()) if (G.hasInitializer()) { Obj *o = slotOf(s, P.gaddr[&G]); P.initBytes(G.getInitializer(), o->d, 0); o->ro = G.isConstant(); }
  bindNatives();
  for (auto &A : P.M->aliases()) { if (auto *F = dyn_cast<Function>(A.getAliaseeObject())) P.byName[A.getName().str()] = P.getFn(F); }
}
void Engine::writeStats() {
  char nm[64]; snprintf(nm, sizeof nm, "/stat.%d.json", getpid()); FILE *f = fopen((outDir + nm).c_str(), "w");
  fprintf(f, "{\"paths\":%llu,\"ok\":%llu,\"exit\":%llu,\"assume\":%llu,\"errors\":%llu,\"instrs\":%llu,\"forks\":%llu,\"asserts\":%llu,\"asserts_solver\":%llu,\"abandoned\":%llu,\"violations\":%llu,\"queries\":%llu,\"cached\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"exprs\":%u,\"reach\":{", (unsigned long long)paths, (unsigned long long)endOk, (unsigned long long)endExit, (unsigned long long)endAssume, (unsigned long long)errors, (unsigned long long)instrs, (unsigned long long)forks, (unsigned long long)asserts, (unsigned long long)assertsSolver, (unsigned long long)abandoned, (unsigned long long)vioCount, (unsigned long long)SV.nq, (unsigned long long)SV.ncache, (unsigned long long)SV.nsat, (unsigned long long)SV.nunsat, (unsigned long long)SV.nunk, SV.tsolve, SV.tmax, EP.nextId);
  bool c = false; for (auto &p : reach) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", jesc(p.first).c_str(), (unsigned long long)p.second); c = true; }
  fprintf(f, "},\"err_msgs\":{"); c = false; for (auto &p : errMsgs) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", jesc(p.first).c_str(), (unsigned long long)p.second); c = true; }
  fprintf(f, "},\"exits\":{"); c = false; for (auto &p : exitMsgs) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", jesc(p.first).c_str(), (unsigned long long)p.second); c = true; }
  fprintf(f, "},\"functions\":["); c = false; for (auto x : used) { fprintf(f, "%s\"%s\"", c ? "," : "", jesc(x->F->getName().str()).c_str()); c = true; }
  fprintf(f, "]}\n"); fclose(f);
}
void Engine::loop() {
  while (!queue.empty()) {
    if (sh->stop || nowS() > deadline) { abandoned += queue.size(); queue.clear(); break; }
    if (queue.size() >= 2 && sh->active < maxProc) {
      if (__sync_add_and_fetch(&sh->active, 1) <= maxProc) {
        fflush(stdout); fflush(stderr); pid_t p = fork();
        if (p == 0) { // child: takes the older half
          isChild = true; size_t k = (queue.size() + 1) / 2; for (size_t i = k; i < queue.size(); i++) delete queue[i]; queue.resize(k);
          paths = endOk = endExit = endAssume = errors = instrs = forks = asserts = assertsSolver = abandoned = vioCount = 0; samples = nsamples - 1 < 0 ? 0 : nsamples - 1; reach.clear(); errMsgs.clear(); exitMsgs.clear(); SV.nq = SV.ncache = SV.nsat = SV.nunsat = SV.nunk = 0; SV.tsolve = SV.tmax = 0; continue;
        } else if (p > 0) { size_t k = (queue.size() + 1) / 2; for (size_t i = 0; i < k; i++) { delete queue.front(); queue.pop_front(); } continue; }
        __sync_sub_and_fetch(&sh->active, 1);
      } else __sync_sub_and_fetch(&sh->active, 1);
    }
    State *s = queue.back(); queue.pop_back(); run(*s); delete s;
  }
}
static int realMain(int argc, char **argv) {
  const char *bc = nullptr; std::string entry = "vf_main"; double budget = 600;
  for (int i = 1; i < argc; i++) { std::string x = argv[i]; auto nxt = [&]() { return std::string(argv[++i]); };
    if (x == "-o") EN.outDir = nxt(); else if (x == "-e") entry = nxt(); else if (x == "-j") EN.maxProc = atoi(nxt().c_str()); else if (x == "-t") budget = atof(nxt().c_str()); else if (x == "-p") { std::string kv = nxt(); size_t q = kv.find('='); EN.params[kv.substr(0, q)] = kv.substr(q + 1); }
    else if (x == "--max-steps") EN.maxSteps = strtoull(nxt().c_str(), 0, 10); else if (x == "--max-viol") EN.maxViol = atoi(nxt().c_str()); else if (x == "--preempt") EN.preemptBound = atoi(nxt().c_str()); else if (x == "--samples") EN.nsamples = atoi(nxt().c_str()); else if (x == "--fill") EN.fill = strtoul(nxt().c_str(), 0, 0); else if (x == "--qtimeout") SV.timeoutMs = atoi(nxt().c_str()); else bc = argv[i]; }
  EN.sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); EN.sh->active = 1; EN.deadline = nowS() + budget;
  prctl(PR_SET_CHILD_SUBREAPER, 1); double t0 = nowS();
  if (getenv("SYMX_SLOW")) { SV.slow = atof(getenv("SYMX_SLOW")); SV.slowCb = [](double dt, int r, size_t n, X c) { fprintf(stderr, "SLOW %.2fs res %d constraints %zu vars %zu at %s\n", dt, r, n, c ? SV.supp(c)->v.size() : 0, EN.where(*gCur).c_str()); }; }
  SV.init(); State *s = new State(); EN.loadModule(bc, *s);
  Thread *t = new Thread(); s->th.push_back(t);
  Function *F = EN.P.M->getFunction(entry); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  std::vector<Val> none; EN.callFn(*s, EN.P.getFn(F), nullptr, none);
  // global constructors run first (pushed on top, in order)
  if (auto *GC = EN.P.M->getNamedGlobal("llvm.global_ctors")) if (GC->hasInitializer()) if (auto *CA = dyn_cast<ConstantArray>(GC->getInitializer())) { std::vector<std::pair<u64, Fn *>> v; for (unsigned i = 0; i < CA->getNumOperands(); i++) { auto *S = cast<ConstantStruct>(CA->getOperand(i)); if (auto *cf = dyn_cast<Function>(S->getOperand(1))) v.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), EN.P.getFn(cf)}); }
      std::stable_sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; }); for (size_t i = v.size(); i-- > 0;) EN.callFn(*s, v[i].second, nullptr, none); }
  EN.push(s); EN.loop(); EN.writeStats(); __sync_sub_and_fetch(&EN.sh->active, 1);
  if (EN.isChild) { fflush(stdout); fflush(stderr); _exit(0); }
  int st, bad = 0; pid_t p; while ((p = wait(&st)) > 0 || errno == EINTR) { if (p > 0 && (!WIFEXITED(st) || WEXITSTATUS(st))) { bad++; __sync_sub_and_fetch(&EN.sh->active, 1); fprintf(stderr, "worker %d died: status %x\n", p, st); } }
  FILE *f = fopen((EN.outDir + "/run.json").c_str(), "w"); fprintf(f, "{\"wall_s\":%.3f,\"dead_workers\":%d,\"stopped\":%d,\"nviol\":%d}\n", nowS() - t0, bad, EN.sh->stop, EN.sh->nviol); fclose(f);
  return 0;
}
struct A { int c; char **v; int r; };
static void *thr(void *p) { A *a = (A *)p; a->r = realMain(a->c, a->v); return nullptr; }
int main(int argc, char **argv) { // run on a large stack: expression traversal is recursive
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (!getenv("SYMX_STACK")) { rl.rlim_cur = (rl.rlim_max == RLIM_INFINITY || rl.rlim_max > (1ul << 30)) ? (1ul << 30) : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("SYMX_STACK", "1", 1); execv("/proc/self/exe", argv); }
  A a{argc, argv, 0}; thr(&a); return a.r;
}
