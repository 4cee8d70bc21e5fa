"""The cases each property's check explores: harness, bounds (parameters), labels that must be reached.
tier='thorough' cases run only in the thorough tier; the thorough tier also multiplies each time limit by six."""
ASSUMPTIONS = ['malloc never fails',
  'the POSIX file calls are replaced by an in-memory file (rt/vfs.c): sequential consistency, no other writer of the file',
  'pthread mutexes/conditions are modelled by the executor; one thread unless the case states a preemption bound',
  'IR is clang 18 -O1 with -fwrapv; the page pool hash table is compiled with 8 chains (-DFFDB_VERIFY_HASHSIZE=8)',
  'printing, formatting and backtraces have no effect']
SYM = 'Symbolic: every key byte beyond the first (which numbers the key), every value byte of short values (first and last 6 bytes of long ones), the 32-bit hash value of every key (hash function supplied by the harness), and the choices named below. '
PROPS = {}
def C(h, name, reach=('end',), **kw):
    o = {k: kw.pop(k) for k in list(kw) if k in ('t', 'j', 'tier', 'preempt', 'maxsteps', 'opts')}
    if 'hs' in kw: o.setdefault('maxsteps', 2000000000)
    return dict(h=h, name=name, p=kw, reach=list(reach), **o)
def T(*a, **kw): return C(*a, tier='thorough', **kw)
HIST = ' Cases named h*: the database first goes through a fixed history of 12-250 operations (new keys, replacements, lookups, walks, syncs, sessions; up to 112 keys) determined by the parameter hs; the symbolic part of the case follows it. Cases hh and hhl branch over 24-150 such histories. Cases m* start from up to 2000 fixed pairs.'
FAR = ' Cases named far*: a file written by the harness in the documented layout, whose overflow and data pages are numbered from 4.7 million, 9.4 million, 150 million or 2.29 thousand million up (offsets beyond 2, 4 and 70 GiB and 1 TiB; the file has a hole between its first pages and these), is opened, read, walked, extended and read again; everything stored into it has to land on pages in use and be found by the independent reader.'
def FARC(*names):
    d = dict(far2=dict(far=4718592, more=3, vl=300, vstep=120, kl=100), far4=dict(far=9437184, more=3, vl=300, vstep=120, kl=100), farr=dict(far=9437184, more=3, vl=300, vstep=120, kl=100, rear=1), farb=dict(far=9437184, be=1, more=3, vl=300, vstep=120, kl=100), farx=dict(far=-2000000000, more=3, vl=300, vstep=120, kl=100), fary=dict(far=150000000, more=2, vl=500, vstep=40, kl=200, ver=5))
    l = dict(farl=dict(bs=4096, far=1200000, more=3, vl=3000, vstep=1000, kl=900, symbytes=8), farz=dict(far=9437184, more=4, vl=300, vstep=120, kl=200, n=6, rear=1, be=1), farh=dict(bs=16384, far=300000, more=3, vl=9000, vstep=3000, kl=900, symbytes=4, rear=1))
    return [C('fmtw.c', n, reach=('written', 'end'), **d[n]) if n in d else T('fmtw.c', n, j=8, reach=('written', 'end'), **l[n]) for n in names]
def P(pid, bounds, cases, assumptions=()):
    if pid in FARS: cases = list(cases) + FARC(*FARS[pid]); bounds += FAR
    if any('hs' in c['p'] for c in cases): bounds += HIST
    PROPS[pid] = dict(bounds=bounds, cases=cases, assumptions=list(assumptions))

FARS = {'C02': ['far2', 'far4', 'farl'], 'C04': ['far4', 'farz'], 'C05': ['far4', 'fary'], 'C08': ['far4'], 'C09': ['farr', 'farz', 'farh'], 'C10': ['far2', 'far4', 'farr', 'farb', 'farx', 'fary', 'farl', 'farz', 'farh'], 'C17': ['farb', 'farz'], 'C03': ['far4'], 'C06': ['far4'], 'C01': ['far4']}
P('C01', SYM + 'Up to 6 keys of 4 or 200 bytes, 512-byte pages, 1, 2 or 4 initial buckets, values of 8 bytes; lookups of every stored key and of one never stored key, after stores and between them.', [
  C('grow.c', 'k300', n=4, kid=1, kl=300, hb=1, re=1, cmp=1), C('grow.c', 'k453', n=3, kid=1, kl=453, hb=1, re=1, ck=2), C('grow.c', 'p300', n=3, kid=3, kl=300, hb=1, cmp=1), C('grow.c', 'nb3', n=4, nb=3, hb=3), C('grow.c', 'nb6', n=3, nb=6, hb=3, kl=200, j=2), C('grow.c', 'nb13', n=2, nb=13, hb=5, wk=1, re=1),
  C('many.c', 'm600', fix=600, hb=3, kl=150, vl=300, kstep=100, mode=1, per=40, nb=8, hs=1, j=4), C('hist.c', 'hh', hs=101, hsn=60, hm=1, hops=60, pses=3, vmax=600, kmin=100, sy=1, hb=2, j=4), T('hist.c', 'hhl', hs=101, hsn=150, hm=1, hops=60, pses=3, vmax=600, kmin=100, sy=1, hb=2, j=8), C('hist.c', 'h1', hs=11, hm=1, hops=40, sy=1, hb=4), C('hist.c', 'h2', hs=12, hm=3, hops=40, sy=2, hb=2, kinds=2), C('hist.c', 'h3', hs=13, hm=0, hops=100, sy=1, hb=0, kmax=60, vmax=60),
  C('grow.c', 'g3', n=3, ck=2), C('grow.c', 'g6', n=6), C('grow.c', 'ov4', n=4, kl=200), C('grow.c', 'ov4w', n=4, kl=200, wk=1, re=1),
  C('grow.c', 'ov5', n=5, kl=200, hb=3, re=1), C('grow.c', 'ov5nb1', n=5, kl=200, nb=1, re=1, hb=3),
  C('grow.c', 'pfx', n=4, kid=3, cmp=1, ck=2), C('grow.c', 'pfx2', n=4, kid=3, kl=200, hb=1, re=1), C('grow.c', 'last', n=4, kid=1, ck=2, cmp=1), C('grow.c', 'mid', n=4, kl=9, kid=2), C('grow.c', 'upd', n=3, hb=1, upd=1, ck=2), C('grow.c', 'def', n=3, defhash=1, re=1), C('grow.c', 'p4k', n=3, bs=4096, vl=5000, kl=1000, hb=1),
  T('grow.c', 'ov6rear', n=6, kl=200, wk=1, re=1, rear=1, hb=2, t=120, j=8), T('grow.c', 'g8', n=8, t=120, j=8)])
P('C03', SYM + 'One value of every length 0..1700 (512-byte pages: up to four pages) between two neighbours, read back through all three buffer modes, then after reopening; replacement by every shorter length near a page boundary.', [
  C('vals.c', 'v0', lo=0, hi=500, hb=0), C('vals.c', 'v0b', lo=500, hi=1100, hb=0), C('vals.c', 'v1', lo=1100, hi=1700, pre=-1, post=400, hb=0, wk=0), C('vals.c', 'r', lo=960, hi=1000, rep=20, hb=0), C('vals.c', 'p1k', bs=1024, lo=1950, hi=2010, hb=0), C('vals.c', 'p4k', bs=4096, lo=8120, hi=8145, hb=0)])
P('C05', SYM + 'Empty databases with 1, 2 and 4 buckets; up to 4 keys of 200 bytes (collision chains); up to two cursors, forward and backward, interleaved with lookups in every order of up to 2 steps.', [
  C('cur.c', 'h3', hs=5, hm=1, hops=40, n=1, steps=1, hb=1),
  C('grow.c', 'c8', n=8, fix=7, kl=200, mul=16, hb=3, wk=1, re=1), C('grow.c', 'c12', n=12, fix=10, kl=100, mul=16, hb=5, wk=1, re=1), C('many.c', 'm900', fix=900, hb=2, kl=60, vl=200, kstep=80, hs=1, j=4), C('hist.c', 'hh', hs=301, hsn=60, hm=1, hops=80, pses=3, pwalk=12, vmax=600, kmin=100, sy=1, hb=2, j=4), T('hist.c', 'hhl', hs=301, hsn=150, hm=1, hops=80, pses=3, pwalk=12, vmax=600, kmin=100, sy=1, hb=2, j=8), C('hist.c', 'h1', hs=41, hm=2, hops=50, pwalk=20, sy=2, hb=2), C('hist.c', 'h2', hs=42, hm=3, hops=50, pwalk=20, sy=1, hb=0),
  C('empty.c', 'e1', nb=1), C('empty.c', 'e2', nb=2), C('empty.c', 'e4', nb=4), C('cur.c', 'c1', n=4, steps=1, hb=1), C('cur.c', 'c2', n=3, nc=2, mixed=1, steps=2, hb=1), C('grow.c', 'w4', n=4, kl=200, wk=1, re=1), C('cur.c', 'last', n=3, steps=1, hb=1, kid=1), C('grow.c', 'w3p', n=3, kid=3, kl=200, hb=1, wk=1, re=1), C('grow.c', 'w14', n=14, fix=13, kl=200, hb=3, wk=1, re=1),
  T('cur.c', 'c1b', n=4, steps=1, hb=2, t=120, j=4), T('cur.c', 'c3', n=4, nc=2, mixed=3, steps=3, hb=1, t=120, j=4)])
P('C06', SYM + 'Histories of up to 3 stores (plain or no-overwrite) over up to 3 existing or new keys with value lengths 0, 1, 9, 30, 470, 700 in every combination; values of two and three pages replaced by every length around each page boundary.', [
  C('hist.c', 'hh', hs=401, hsn=60, hm=1, hops=100, pses=3, pupd=40, vmax=800, kmin=60, sy=1, hb=2, j=4), T('hist.c', 'hhl', hs=401, hsn=150, hm=1, hops=100, pses=3, pupd=40, vmax=800, kmin=60, sy=1, hb=2, j=8), C('hist.c', 'h1', hs=51, hm=1, hops=60, pupd=50, sy=2, hb=2, kinds=2), C('hist.c', 'h2', hs=52, hm=0, hops=60, pupd=60, vmax=1200, sy=2, hb=1),
  C('repl.c', 'r3', ops=3, nk=2), C('repl.c', 'r2b', ops=2, nk=2, lb=3), C('repl.c', 'r2c', ops=2, nk=3, nl=5, init=1), C('repl.c', 'pfx', ops=2, nk=2, kid=3), C('repl.c', 'last', ops=2, nk=2, kid=1), C('vals.c', 'rb1', lo=905, hi=945, rep=16, pre=-1, hb=0), C('vals.c', 'rf', lo=700, hi=700, rep=2, rlo=380, rhi=490, pre=-1, hb=0), C('vals.c', 'rf8', lo=700, hi=700, rep=2, rlo=350, rhi=460, pre=8, hb=0), C('vals.c', 'rf2', lo=1403, hi=1404, rep=2, rlo=850, rhi=970, hb=0, j=2), C('vals.c', 'rb8', lo=925, hi=950, rep=24, hb=0), C('grow.c', 'upd', n=4, kl=200, hb=1, upd=1, updk=2, vl=600, vstep=100, wk=1, re=1), T('repl.c', 'r4', ops=4, nk=2, t=120, j=8)])
P('C08', SYM + 'Cache of 1, 2 or 3 pages (the library raises it to its own minimum) against the reference map: up to 4 keys of 200 bytes, values up to 750 bytes, up to two cursors interleaved with lookups and stores in every order of up to 3 steps.', [
  C('cur.c', 'h3', hs=15, hm=2, hops=40, n=1, steps=2, hb=1, cache=1, store=1),
  C('many.c', 'm768', fix=768, nb=128, mode=4, hb=2, cache=1, ses=200, hs=1, j=4), C('hist.c', 'hh', hs=501, hsn=24, hm=1, hops=100, pses=5, cache=1, vmax=600, kmin=100, sy=1, hb=2, j=4), T('hist.c', 'hhl', hs=501, hsn=150, hm=1, hops=100, pses=5, cache=1, vmax=600, kmin=100, sy=1, hb=2, j=8), C('hist.c', 'h1', hs=61, hm=1, hops=60, cache=1, var=2, vmax=1500, sy=1, hb=3), C('hist.c', 'h2', hs=62, hm=2, hops=60, cache=2, kmin=150, sy=2, hb=1),
  C('cur.c', 'k1', n=3, steps=2, hb=1, cache=1, vl=300, vstep=150), C('cur.c', 'k2', n=3, nc=2, mixed=2, steps=2, hb=1, cache=2, store=1), C('grow.c', 'w4', n=4, kl=200, wk=1, re=1, cache=1), C('grow.c', 'w42', n=4, kl=200, wk=1, re=1, cache=2, vl=600),
  T('cur.c', 'k1b', n=4, steps=2, hb=1, cache=1, vl=300, vstep=150, j=4), T('cur.c', 'k3', n=3, nc=2, mixed=2, steps=3, hb=1, cache=3, store=1, ups=1, t=120, j=8), T('cur.c', 'k4', n=3, nc=2, mixed=2, steps=3, hb=1, cache=2, store=1, t=120, j=8)])
P('C09', SYM + '3 sessions (4 in the thorough tier), each rearranging or not (symbolic), storing 1-3 further keys of 200 bytes, replacing one, checking everything; read-only sessions in between.', [
  C('many.c', 'm768', fix=768, nb=128, mode=4, hb=2, cache=1, rear=1, ses=100, hs=1, j=4), C('many.c', 'm1200', fix=1200, hb=2, kl=30, vl=300, kstep=100, rear=1, ses=150, hs=1, j=4), C('hist.c', 'hh', hs=601, hsn=60, hm=1, hops=90, pses=8, rear=1, vmax=500, kmin=100, sy=1, hb=2, j=4), T('hist.c', 'hhl', hs=601, hsn=150, hm=1, hops=90, pses=8, rear=1, vmax=500, kmin=100, sy=1, hb=2, j=8), C('hist.c', 'h1', hs=71, hm=1, hops=60, pses=25, var=1, sy=2, hb=1), C('hist.c', 'h2', hs=72, hm=2, hops=60, pses=20, var=1, vmax=1500, sy=2, hb=1), T('hist.c', 'h3', hs=73, hm=0, hops=120, pses=20, var=3, sy=2, hb=2, j=4),
  C('rear.c', 's3', hb=1), C('rear.c', 's3p', per=1, first=3, pickn=1, hb=1), C('rear.c', 's3big', per=2, bigv=2, hb=1), C('rear.c', 'c2', hb=1, cache=2), T('rear.c', 's4', ses=4, per=1, first=4, fix=5, hb=2, t=120, j=8)])
P('C11', SYM + 'Up to 5 keys; the process stops right after the sync, after further lookups, or at any of the first writes of the close with any of three torn-write lengths; the file left behind is opened read-only or read-write and compared with the reference map.', [
  C('crash.c', 'h1', hs=8, hm=1), C('crash.c', 'h2', hs=21, hm=2, cache=1, kl=200),
  C('crash.c', 'a'), C('crash.c', 'c1', cache=1, kl=200), C('crash.c', 'old', vstep=200, old=1), C('crash.c', 'upd', again=1, upd=1), C('crash.c', 'ov', n=5, kl=200), C('crash.c', 'cur', curs=1), C('crash.c', 'cur2', curs=2, kl=200, cache=1)],
  ['a write is atomic up to a prefix: the bytes before the tear reach the file, the others keep their old contents', 'earlier completed writes are durable'])
P('C12', SYM + 'One read or one write, at every position up to the bound (12-30 calls), returns an error or a short count; or every transfer from that position on does (cases p*, h1p).', [
  C('fault.c', 'p', pers=1, reach=('hit-reported',)), C('fault.c', 'p-c1', pers=1, cache=1, vstep=200, reach=('hit-reported',)), C('fault.c', 'p-sync', pers=1, cache=1, sync=1, kl=200), C('fault.c', 'p-new', pers=1, sync=1, old=0), C('fault.c', 'p-rear', pers=1, rear=1, kl=200), C('fault.c', 'p-upd', pers=1, cache=1, vstep=200, upd=1, ui=80, maxat=20, hb=0, n=2, sync=1), C('fault.c', 'p-one', pers=1, n=1, more=0, upd=1, hb=0, sync=1), C('fault.c', 'p-read', pers=1, wr=0, cache=1, vstep=200, gets=2, maxat=20), C('fault.c', 'p-back', pers=1, wr=0, cache=1, kl=200, gets=2, maxat=25, back=1, upd=1, hb=0, reach=('hit-reported',)), C('fault.c', 'h1p', pers=1, hs=9, hm=2, n=1, maxat=12, reach=('end', 'hit-reported')),
  C('fault.c', 'h1', hs=9, hm=2, n=1, maxat=12, reach=('end', 'hit-reported')), C('fault.c', 'h2', hs=9, hm=2, n=1, wr=0, cache=1, maxat=20, reach=('hit-reported',)), C('fault.c', 'h3', hs=22, hm=1, n=1, rear=1, maxat=30), C('fault.c', 'h4', hs=23, hm=1, n=1, pre=1, maxat=15, wr=0, reach=('open-failed',)),
  C('fault.c', 'w', reach=('end', 'hit-reported')), C('fault.c', 'r-back', wr=0, cache=1, vstep=200, gets=2, maxat=30, back=1, n=2), C('fault.c', 'r-backu', wr=0, cache=1, kl=200, gets=2, maxat=25, back=1, upd=1, hb=0, reach=('hit-reported',)), C('fault.c', 'w-upd', cache=1, vstep=200, upd=1, ui=80, maxat=20, hb=0, n=2, sync=1), C('fault.c', 'r-upd', wr=0, cache=1, vstep=400, upd=1, ui=80, maxat=20, hb=0), C('fault.c', 'r-backro', wr=0, gets=2, maxat=25, back=1, ro=1, nb=4, hb=0, n=2), C('fault.c', 'w-c1', cache=1, vstep=200), C('fault.c', 'w-sync', cache=1, sync=1, kl=200), C('fault.c', 'w-new', sync=1, old=0), C('fault.c', 'w-rear', rear=1, kl=200),
  C('fault.c', 'r', wr=0, maxat=15), C('fault.c', 'r-c1', wr=0, cache=1, vstep=200, gets=2, maxat=20), C('fault.c', 'r-ro', wr=0, ro=1, cache=1, vstep=250, gets=2), C('fault.c', 'r-ov', wr=0, cache=1, kl=200, maxat=25), C('fault.c', 'r-nb1', wr=0, nb=1),
  C('fault.c', 'r-open', wr=0, pre=1, reach=('open-failed',)), C('fault.c', 'r-open-ro', wr=0, pre=1, ro=1, reach=('open-failed',)), C('fault.c', 'w-open', wr=1, pre=1),
  T('fault.c', 'r-4', wr=0, cache=1, kl=200, n=4, maxat=30, t=120, j=4), T('fault.c', 'r-c2', wr=0, cache=2, n=4, t=120, j=4), T('fault.c', 'r-rear', wr=0, cache=1, rear=1, kl=200, maxat=30, t=120, j=4), T('fault.c', 'w-4rear', wr=1, cache=1, n=4, rear=1, maxat=30, t=200, j=8)],
  ['the process may stop (exit) instead of reporting an error'])
P('C02', SYM + 'Up to 3 sessions storing (or replacing) up to 3 pairs each with value lengths picked from a table (0 to beyond a page), reopened read-only and read-write; larger fixed histories grow the table over several sessions.', [
  C('grow.c', 'nb9', n=6, fix=4, nb=9, kl=200, mul=7, hb=4, wk=1, re=1, ses=2),
  C('grow.c', 'g8s', n=8, fix=6, kl=200, vl=300, vstep=40, ses=1, hb=3, wk=1, re=1, j=2), C('grow.c', 'g8t', n=8, fix=7, kl=200, vl=0, vstep=120, ses=1, hb=3, wk=1, re=1), C('many.c', 'm768', fix=768, nb=128, mode=4, hb=2, ses=100, hs=1, j=4), C('hist.c', 'hh', hs=201, hsn=24, hm=1, hops=90, pses=8, vmax=600, kmin=100, sy=1, hb=2, j=4), T('hist.c', 'hhl', hs=201, hsn=150, hm=1, hops=90, pses=8, vmax=600, kmin=100, sy=1, hb=2, j=8), C('hist.c', 'h1', hs=21, hm=1, hops=50, pses=25, sy=2, hb=2), C('hist.c', 'h2', hs=22, hm=2, hops=60, pses=20, vmax=1500, sy=2, hb=2), C('hist.c', 'h3', hs=23, hm=0, hops=150, pses=10, kmax=60, sy=1, hb=0), T('hist.c', 'h4', hs=24, hm=4, hops=120, pses=25, vmax=2500, sy=2, hb=3, j=4),
  C('sess.c', 's2', ses=2, per=1, j=4), C('sess.c', 's1', ses=1, per=3, nl=3, j=4), C('sess.c', 's2k', ses=2, per=1, kl=200, hb=0, wk=1), C('sess.c', 's2s', ses=2, per=1, nl=2, hb=0, shrink=1), C('grow.c', 'last', n=4, kid=1, kl=200, re=1, hb=1), C('grow.c', 'def', n=3, defhash=1, re=2, wk=1), C('grow.c', 'p4k', n=3, bs=4096, vl=5000, kl=1000, hb=1, re=1), C('grow.c', 'g24', n=24, fix=22, kl=200, mul=2, hb=2, wk=1, re=1),
  T('sess.c', 's22', ses=2, per=2, nl=2, t=120, j=8), T('sess.c', 's3', ses=3, per=1, nl=2, t=120, j=8)])
P('C04', SYM + 'Databases of up to 60 keys with fixed spread hash values plus 2 keys (of 60 or 200 bytes) with symbolic hash values, so that the last insertions split any bucket: several doublings, collision chains of several overflow pages, freed overflow pages reused, values that share and span data pages; everything is looked up and walked, then again after reopening.', [
  C('grow.c', 'nb5', n=12, fix=10, nb=5, kl=150, mul=3, hb=4, wk=1, re=1), C('grow.c', 'nb16', n=12, fix=10, nb=16, kl=200, mul=5, hb=5, wk=1, re=1),
  C('grow.c', 'g8s', n=8, fix=6, kl=200, vl=300, vstep=40, ses=1, hb=3, wk=1, re=1, j=2), C('grow.c', 'c12', n=12, fix=10, kl=100, mul=16, hb=5, wk=1, re=1), C('many.c', 'm768', fix=768, nb=128, mode=4, hb=2, hs=1, j=4), C('many.c', 'm2000', fix=2000, hb=2, kl=30, vl=100, kstep=40, hs=1, j=4), C('hist.c', 'hh', hs=1, hsn=40, hm=1, hops=150, pses=3, vmax=600, kmin=100, sy=1, hb=2, j=4), T('hist.c', 'hhl', hs=1, hsn=150, hm=1, hops=150, pses=3, vmax=600, kmin=100, sy=1, hb=2, j=8), C('hist.c', 'h1', hs=31, hm=0, hops=150, sy=1, hb=0), C('hist.c', 'h2', hs=32, hm=1, hops=100, sy=1, hb=5), C('hist.c', 'h3', hs=33, hm=2, hops=100, sy=1, hb=5, kmin=100, kmax=230), T('hist.c', 'h4', hs=34, hm=1, hops=250, var=3, sy=1, hb=6, j=8),
  C('grow.c', 'g40', n=40, fix=38, kl=60, hb=3, wk=1, re=1, j=4), C('grow.c', 'g60', n=60, fix=58, kl=60, hb=3, mul=3, wk=1, re=1, j=4), C('grow.c', 'g24', n=24, fix=22, kl=200, mul=2, hb=3, wk=1, re=1, j=4), C('grow.c', 'g24nb1', n=24, fix=22, kl=200, mul=4, nb=1, hb=3, wk=1, re=1, j=4), C('grow.c', 'ov5', n=5, kl=200, hb=3, re=1, wk=1, j=4), C('grow.c', 'g24u', n=24, fix=22, kl=200, mul=2, hb=1, upd=1, updk=3, vl=300, re=1), C('grow.c', 'g16r', n=16, fix=15, kl=200, mul=2, hb=2, ses=4, rear=1, wk=1, re=1), C('grow.c', 'g16k', n=16, fix=14, kl=150, kid=3, mul=3, hb=2, cache=1, wk=1, re=1, j=4),
  T('grow.c', 'g60b', n=60, fix=58, kl=60, hb=5, mul=3, wk=1, re=1, j=4), T('grow.c', 'g24s', n=24, fix=22, kl=200, mul=2, hb=2, wk=1, re=1, ses=5, cache=1, j=4), T('grow.c', 'g24r', n=24, fix=22, kl=200, mul=2, hb=2, wk=1, re=1, ses=7, rear=1, cache=1, j=4)])
P('C07', SYM + 'One or two refused requests of every kind (over-long key, bad flag, short lookup buffer, missing key, no-overwrite on an existing key, longer replacement, short cursor buffers, over-long user information, unknown configuration, stores through a read-only handle) aimed at any of up to 3 pairs, before further stores, closing and reopening.', [
  C('fail.c', 'f%d' % a, k0=a, k1=b, ops=1, hb=1, kl=kl, vl=vl, nk=2) for a, b, kl, vl in ((0, 1, 6, 10), (2, 3, 200, 300), (4, 5, 200, 10), (6, 7, 6, 600), (8, 9, 6, 10))] + [C('fail.c', 'ff', ops=2, hb=0, nk=2, j=4), C('fail.c', 'h1', hs=10, hm=1, ops=1, cache=1, j=2), C('fail.c', 'old', ops=1, hb=0, old=1, kl=200, vl=300, cache=1), C('fail.c', 'ro', ops=1, hb=0, ro=1, nk=2), 
  T('fail.c', 'ff3', ops=3, hb=0, nk=2, t=120, j=8), T('fail.c', 'ffk', ops=2, hb=1, nk=3, kl=200, vl=300, t=120, j=8)])
P('C10', SYM + 'Files written by the library (up to 8 keys, 1-3 sessions, with and without rearrangement, small cache, default and supplied hash, 512 and 1024-byte pages, one to three user-information pages) parsed by an independent reader in the harness, which checks every field, checksum, chain and item; files composed by an independent writer in the harness (both byte orders, versions 5 and 6) read, walked and extended by the library.', [
  C('hist.c', 'hh', hs=701, hsn=60, hm=1, hops=90, pses=6, fmt=1, vmax=600, kmin=100, sy=0, j=4), T('hist.c', 'hhl', hs=701, hsn=150, hm=1, hops=90, pses=6, fmt=1, vmax=600, kmin=100, sy=0, j=8), C('hist.c', 'h1', hs=81, hm=1, hops=40, fmt=1, var=3, sy=1, hb=3), C('hist.c', 'h2', hs=82, hm=2, hops=60, fmt=1, pupd=40, sy=1, hb=2), C('hist.c', 'h3', hs=83, hm=0, hops=80, fmt=1, bs=1024, kmax=300, sy=1, hb=0),
  C('fmt.c', 'w'), C('fmt.c', 'w4', kl=200, n=4, ses=2), C('fmt.c', 'wr', kl=200, n=4, ses=3, rear=1, vstep=150), C('fmt.c', 'wr2', kl=200, n=4, ses=3, rear=1, vstep=150, rear2=1), C('fmt.c', 'wdef', defhash=1, conc=1, n=8, kl=100, ses=2, per=4, vl=300), C('fmt.c', 'wdef2', defhash=1, n=2, kl=4), C('fmt.c', 'wtail', n=3, vl=490, vstep=7, ses=2, per=2, cache=1), C('fmt.c', 'wz', n=3, vl=0, vstep=600, ses=2, per=2, nb=1), C('fmt.c', 'wu', ulen=900, ul=800, ses=2), C('fmt.c', 'w1k', bs=1024, n=4, kl=300, vl=900, vstep=100)] + [
  C('fmtw.c', 'r%d' % i, reach=('written', 'end'), **d) for i, d in enumerate([dict(), dict(be=1), dict(ver=5), dict(kl=200, n=4), dict(vl=400, vstep=300, n=4), dict(more=2), dict(more=2, be=1), dict(more=2, ver=5), dict(more=3, vl=300, kl=100, be=1), dict(more=3, vl=300, kl=100, be=1, ver=5), dict(more=3, vl=300, vstep=120, kl=100)])])
P('C13', SYM + 'Any alteration of up to four adjacent bytes (symbolic position, symbolic new contents) of a closed file holding up to 5 pairs; then every pair is looked up and walked.', [
  C('corrupt.c', 'h1', hs=3, hm=1, hops=20, n=1, lo=0, hi=100000, vmax=300, reach=('altered', 'intact', 'end'), j=4),
  C('corrupt.c', 'c', lo=0, hi=100000, reach=('altered', 'intact', 'end'), j=4), C('corrupt.c', 'csym', sym=1, n=2, vstep=600, reach=('altered', 'intact', 'end'), j=4), C('corrupt.c', 'cov', n=5, kl=200, vl=0, vstep=10, hb=0, reach=('altered', 'intact', 'end'), j=4)],
  ['a change of two or more places, or of the file length, is outside the bound'])
P('C14', 'Symbolic: the contents of a file that is not a database (every length 0..340 bytes; with a correct header checksum, every length up to 1100), the length a good file is cut to, every header byte, the hash function, and the open flags. Files of up to 5 pages of 512 bytes; page sizes up to 2^20.', [
  C('open.c', 'garbage', reach=('refused',), mode=0, hi=331), C('open.c', 'garbage2', reach=('refused',), mode=0, lo=332, hi=340), C('open.c', 'crcok', reach=('refused',), mode=0, goodcrc=1, lo=332, hi=1100), C('open.c', 'cut', reach=('refused', 'end'), mode=1, hi=1600), C('open.c', 'cutc', reach=('refused', 'end'), mode=1, hi=1600, creat=1, ulen=900), C('open.c', 'hash', reach=('refused',), mode=2), C('open.c', 'param', reach=('refused',), mode=3), C('open.c', 'flags', reach=('trunc', 'keep', 'own'), mode=4)])
P('C15', SYM + 'User information of every length around page boundaries up to 1100 bytes and every length 0..45 for a 40-byte maximum, up to 2 settings per session with a too-long and a too-small request among them, 2 sessions, stores and syncs in between.', [
  C('uinfo.c', 'h1', hs=16, hm=1, lo=39, hi=41, ops=1, hb=0, n=1),
  C('uinfo.c', 'bnd', ulen=1100, lo=474, hi=486, hb=0, j=4), C('uinfo.c', 'all', ulen=1100, lo=0, hi=1101, ops=1, n=0, j=6), C('uinfo.c', 'short', lo=30, hi=45, hb=0, n=1, reach=('end', 'small', 'refused'), j=4), C('uinfo.c', 'ses', lo=38, hi=42, ses=2, ops=1, hb=0, n=1, reach=('end', 'refused'), j=2), C('uinfo.c', 'c1', cache=1, kl=200, n=4, vl=300, lo=39, hi=41, ops=1, hb=0),
  T('uinfo.c', 'bnd2', ulen=1100, lo=470, hi=490, j=4), T('uinfo.c', 'short2', hi=45, ses=2, hb=0, j=4)])
P('C16', 'Symbolic: every field of every configuration record (numbers concrete or symbolic), which record is written, and the keys as elsewhere. Up to 7 records (three pages of 512 bytes) and 20 (three pages of 1024), up to 2 writes per session, 2 sessions, stores in between.', [
  C('cfg.c', 'h1', hs=17, hm=1, nc=4, ops=1, hb=1, n=1),
  C('cfg.c', 'a', hb=0), C('cfg.c', 'n3', nc=3), C('cfg.c', 's2', nc=1, ses=2, hb=0), C('cfg.c', 'n7', nc=7, ops=1, cache=1, kl=200), C('cfg.c', 'n2', nc=2, ops=1, hb=0), C('cfg.c', 'n5', nc=5, ops=1, hb=0), C('cfg.c', 'n6', nc=6, ops=1, hb=0, cache=1), C('cfg.c', 'n20', nc=20, ops=1, hb=0, bs=1024, j=2), C('cfg.c', 'num', symnum=1, nc=3, ops=1), T('cfg.c', 'n7b', nc=7, ops=2, hb=0, t=120, j=4)])
P('C17', SYM + 'Files of up to 4 pairs, converted by the harness to the other byte order, are read, extended and read again, with rearrangement on or off, small caches, several user-information and configuration pages.', [
  C('swap.c', 'h1', hs=6, hm=2, hops=40, reach=('foreign', 'end'), j=4), C('hist.c', 'hh', hs=1, hsn=40, hm=1, hops=100, pses=6, vmax=600, kmin=100, sy=0, foreign=2, j=4), T('hist.c', 'hhl', hs=1, hsn=150, hm=1, hops=100, pses=6, vmax=600, kmin=100, sy=0, foreign=2, j=8), C('hist.c', 'h2', hs=2, hm=1, var=3, sy=1, foreign=3),
  C('swap.c', 'a', reach=('foreign', 'end')), C('swap.c', 'c1', cache=1, vstep=150, sync=1, reach=('foreign', 'end'), j=4), C('swap.c', 'r', kl=200, rear=1, reach=('foreign', 'end'), j=4), C('swap.c', 'r2', kl=200, rear2=1, vl=200, reach=('foreign', 'end'), j=4), C('swap.c', 'cfg', nc=4, kl=200, cache=1, reach=('foreign', 'end'), j=8), C('swap.c', 'ui', ul=900, ses=1, reach=('foreign', 'end'), j=2)])
THR = ['preemption points are before every mutex lock, after every unlock, before every condition signal, and wherever a thread blocks or ends; data races between those points are outside the model', 'spurious wake-ups are included']
P('C18', SYM + 'Two or three threads, each looking up every key or walking a cursor; every schedule with the stated number of preemptions (forced switches at blocking points are free).', [
  C('thr.c', 'h1', hs=18, hm=1, hops=12, nt=2, n=1, hb=0, preempt=1),
  C('thr.c', 'g2', nt=2, n=2, preempt=2), C('thr.c', 'g3', nt=3, n=2, cache=1, preempt=1), C('thr.c', 'w3', nt=3, n=2, wk=1, kl=200, preempt=1), C('thr.c', 'w2', nt=2, n=3, wk=1, vl=600, cache=1, hb=0, preempt=2), C('thr.c', 'wk', nt=2, n=3, kl=200, wk=2, hb=0, preempt=2), C('thr.c', 'ro', nt=2, n=2, wk=1, ro=1, preempt=2), C('thr.c', 'nore', nt=2, n=2, hb=0, re=0, main=1, preempt=2),
  T('thr.c', 'g2p3', nt=2, n=2, hb=0, preempt=3, t=120, j=8), T('thr.c', 'g3p2', nt=3, n=2, hb=0, cache=1, preempt=2, t=120, j=8), T('thr.c', 'w3p2', nt=3, n=2, wk=1, kl=200, hb=0, preempt=2, t=120, j=8)], THR)
P('C19', SYM + 'Two or three threads, of which one or two store 1-2 keys of 100-200 bytes each (so that buckets split and chains grow) while the others look keys up; every schedule with the stated number of preemptions.', [
  C('thr.c', 'h1', hs=19, hm=1, hops=12, nt=2, n=1, hb=0, w=1, kl=200, preempt=1),
  C('thr.c', 's2', nt=2, w=2, kl=200, n=2, preempt=1), C('thr.c', 's2b', nt=2, w=2, kl=200, n=2, hb=0, preempt=2, j=4), C('thr.c', 's1', nt=2, w=1, kl=200, n=1, preempt=2), C('thr.c', 's1c', nt=2, w=1, n=3, kl=200, preempt=1), C('thr.c', 's3', nt=3, n=1, w=2, kl=150, preempt=1, j=4), C('thr.c', 's22', nt=2, n=1, w=2, per=2, kl=150, hb=0, preempt=2, j=4), C('thr.c', 'big', nt=2, n=2, w=2, vl=600, cache=1, kl=100, hb=0, preempt=1),
  T('thr.c', 's2p2', nt=2, w=2, kl=200, n=2, preempt=2, t=120, j=8), T('thr.c', 's1p2', nt=2, w=1, n=3, kl=200, preempt=2, t=120, j=8), T('thr.c', 's3p2', nt=3, n=1, w=2, kl=150, hb=0, preempt=2, t=120, j=8), T('thr.c', 's1p3', nt=2, w=1, kl=200, n=1, hb=0, preempt=3, t=120, j=8)], THR)
P('C20', SYM + 'Up to 4 pairs of 200-byte keys; read-only sessions of up to 3 actions (lookups, walks, sync, cursors left midway, user information, refused stores and settings, lookups that fail) in every order, around a read-write session that stores nothing; files in either byte order, rearranged or not.', [
  C('ro.c', 'h1', hs=7, hm=1, steps=1, hb=1, n=2, reach=('refused', 'end'), j=2), C('ro.c', 'h2', hs=20, hm=2, steps=1, hb=1, n=2, foreign=1, reach=('refused', 'end'), j=2),
  C('ro.c', 'a', hb=1, steps=2, reach=('refused', 'end')), C('ro.c', 'c1', cache=1, vl=400, vstep=100, hb=0, steps=2, reach=('refused', 'end')), C('ro.c', 'rear', rear=1, steps=2, hb=0, reach=('refused', 'end')), C('ro.c', 'rear2', rear2=1, n=4, hb=1, steps=1, reach=('refused', 'end')), C('ro.c', 'foreign', foreign=1, steps=2, hb=0, reach=('refused', 'end')), C('ro.c', 'empty', n=0, steps=2, reach=('end',)), C('ro.c', 'cfg', nc=4, steps=1, hb=0, n=1, reach=('refused', 'end')),
  T('ro.c', 'a3', hb=1, steps=3, t=120, j=8), T('ro.c', 'f3', foreign=1, hb=1, steps=3, t=120, j=8)])
CXX = ['the C++ stream classes used for encoding and printing are replaced by small stand-ins (rt/cxx); std::string, vector, shared_ptr and the unordered map are the real headers, with a constant hash in the unordered map; the native replay uses the real library throughout']
P('C21', 'Symbolic: every byte of strings of every length 0..60 (first and last 4 bytes of 14 longer lengths up to 70000), every finite float of vectors of 0..40 and 250..260 elements, and every byte of decoder input of every length 0..40.', [
  C('ser.cpp', 'skey', mode=0, hi=60), C('ser.cpp', 'udata', mode=1, hi=60), C('ser.cpp', 'skeyl', mode=6, hi=13), C('ser.cpp', 'udatal', mode=7, hi=13), C('ser.cpp', 'skeybuf', reach=('accepted', 'refused', 'end'), mode=2, hi=40), C('ser.cpp', 'udatabuf', reach=('accepted', 'refused', 'end'), mode=3, hi=40), C('ser.cpp', 'vf', mode=4, hi=40), C('ser.cpp', 'vfl', mode=4, lo=250, hi=260), C('ser.cpp', 'vfbuf', reach=('accepted', 'refused', 'end'), mode=5, hi=40)], CXX)
P('C22', SYM + 'Up to 3 keys (5 or 200 characters), up to 3 insertions per session through the typed, string-key and binary interfaces with records of 0, 7, 200 or 600 characters, up to 3 sessions, ended by close, by the destructor, with flush or a copied handle; small caches; the store without a key type of its own with the library hash; stores of 100 and 450 fixed keys with one record replaced by arbitrary bytes.', [
  C('store.cpp', 'o3', n=2, ops=3, nl=3, hows=1, hb=1, j=4), C('store.cpp', 'o2', ops=2, kl=200, hb=0, j=2, reach=('end', 'longer refused')), C('store.cpp', 'closed', closed=1, ops=1), C('store.cpp', 's2', n=2, ops=1, ses=2, nl=4, hows=3, noclose=1, flush=1, ui=1, j=4), C('store.cpp', 's3', n=2, ops=1, ses=3, nl=2, hows=1, kl=200, rear=1, ui=1, copy=1, hb=1, j=4), C('store.cpp', 'c1', n=3, ops=2, ses=1, nl=2, hows=1, kl=200, cache=1), C('bulk.cpp', 'b100', n=100, hs=1), C('bulk.cpp', 'b450', n=450, bs=1024, cache=1, hs=1, j=3), C('simple.cpp', 'p2'), C('simple.cpp', 'p3', ses=2, cache=1, noclose=1, ops=1, n=3),
  T('store.cpp', 's22', n=3, ops=2, ses=2, nl=2, hows=1, kl=200, cache=1, j=8), T('store.cpp', 's3b', n=3, ops=1, ses=3, nl=2, hows=2, kl=200, rear=1, ui=1, copy=1, j=8), T('store.cpp', 'o3b', ops=3, hows=2, nl=3, hb=0, j=8)], CXX)
ENS = ('update', 'bad index', 'bad size', 'uneven', 'config', 'end')
P('C23', SYM + 'Up to 3 keys, 3 or 5 configurations, elements of 6 to 90 and of 22000 characters; up to 2 operations per session out of insertion (typed, string key, binary), update of any element, configuration record, and the refused ones (index out of range, other size, wrong count, uneven vector); 2 sessions; filling a new ensemble through updates, with and without updateDone; ensembles of 70 and 300 fixed keys with one element updated.', [
  C('ens.cpp', 'o1', ops=1, reach=ENS), C('ens.cpp', 'o2', ops=2, w1=3, reach=('update', 'end')), C('ens.cpp', 'o2b', ops=2, w0=3, w1=8, nk=1, reach=ENS, j=6), C('ens.cpp', 'new', ops=1, ses=2, pre=0, mid=1, reach=ENS), C('ens.cpp', 'k200', ops=1, ses=2, kl=200, es=90, n=2, cache=1, rear=1, w1=3, reach=('update', 'end'), j=4), C('ens.cpp', 'nb5', ops=1, nb=5, es=70, reach=ENS), C('ens.cpp', 'big', n=1, nb=4, es=22000, ops=1, w0=3, w1=3, hs=1, bs=4096, hb=0, reach=('update', 'end'), j=4), C('ens.cpp', 'noname', ops=1, names=0, w0=8, reach=('config', 'end')),
  C('bulk.cpp', 'b70', n=70, nb=3, cache=2, rear=1, hs=1), C('bulk.cpp', 'b300', n=300, nb=5, vl=90, hs=1, j=3),
  C('upd.cpp', 'u', reach=('first', 'update', 'refused', 'end'), j=2), C('upd.cpp', 'u2', ses=2, ops=2, nb=2, hb=0, kl=200, cache=1, reach=('first', 'update', 'refused', 'end'), j=4),
  T('ens.cpp', 'o2c', ops=2, w0=3, w1=8, reach=ENS, j=8), T('ens.cpp', 'k200b', ops=1, ses=2, kl=200, es=90, n=3, cache=1, rear=1, w1=3, reach=('update', 'end'), j=8), T('upd.cpp', 'u4', ops=4, hb=0, n=2, nb=2, reach=('first', 'update', 'refused', 'end'), j=8)], CXX)
P('C24', SYM + 'Up to 4 files of up to 4 keys, written in either order; the memory limit is any 32-bit number; any of the configurations may have no file; elements of 5 or 200 characters; both constructors of the merger; 3 files of 20 fixed keys (thorough: 7 of 36) with any memory limit.', [
  C('merge.cpp', 'm3', j=4), C('merge.cpp', 'm20', n=20, nb=3, na=0, perm=0, conc=1, ctors=1, hs=1, j=4), C('merge.cpp', 'm4', n=4, nb=4, na=0, perm=0, kl=200, j=4), C('merge.cpp', 'm2', n=3, nb=2, dn=1, es=200, j=4), C('merge.cpp', 'm5', n=5, nb=2, na=0, hb=0, ctors=1, j=2),
  T('merge.cpp', 'm36', n=36, nb=7, na=0, perm=0, conc=1, ctors=1, es=100, hs=1, j=8), T('merge.cpp', 'm44', n=4, nb=4, kl=60, perm=0, j=8), T('merge.cpp', 'm4b', n=4, nb=3, hb=2, j=8)], CXX)
P('C25', SYM + 'Two or three files, each holding any subset of up to 3 keys with arbitrary contents (records of differing size), single-configuration and ensemble stores; any one of the files absent when opening; three files of 36 and five or six files of 3 mostly fixed keys.', [
  C('multi.cpp', 's2', reach=('missing', 'end')), C('multi.cpp', 's3', n=2, nf=3, reach=('missing', 'end'), j=4), C('multi.cpp', 'e2', ens=1, reach=('missing', 'end')), C('multi.cpp', 'e3', n=2, nf=3, ens=1, kl=200, es=150, reach=('missing', 'end'), j=4),
  C('multi.cpp', 's36', n=36, nf=3, conc=35, kl=100, hs=1, reach=('missing', 'end'), j=4), C('multi.cpp', 'e36', n=36, nf=3, conc=34, ens=1, hs=1, reach=('missing', 'end'), j=4),
  C('multi.cpp', 's6', n=3, nf=6, conc=2, reach=('missing', 'end'), j=4), C('multi.cpp', 'e5', n=3, nf=5, conc=1, ens=1, reach=('missing', 'end'), j=4),
  T('multi.cpp', 's33', n=3, nf=3, reach=('missing', 'end'), j=8), T('multi.cpp', 'e33', n=3, nf=3, ens=1, reach=('missing', 'end'), j=8)], CXX)

P('C26', SYM + 'One item of symbolic length (any value from 2^32 to 2^40 - 1; the file holds its first four 512-byte pages) beside 1-2 ordinary items, 2 buckets, symbolic hash values; read into buffers of 1 and 120 bytes, walked, up to 3 further keys stored (bucket splits), rearranged, read by the independent reader, then replaced by a value of 0, 1, 119, 430, 480 or 1200 bytes and read again in this and the next session; both byte orders.', [
  C('fmtw.c', n, reach=('written', 'read', 'kept', 'end'), **d) for n, d in [('h2', dict(huge=1, n=2)), ('h3', dict(huge=1, n=3, kl=120, vl=300)), ('s2', dict(huge=1, n=2, more=2, kl=200, vl=60)), ('b2', dict(huge=1, n=2, more=2, kl=200, be=1, rear=1))]] + [
  T('fmtw.c', n, j=8, reach=('written', 'read', 'kept', 'end'), **d) for n, d in [('s3', dict(huge=1, n=2, more=3, kl=200, vl=60)), ('b3', dict(huge=1, n=3, more=3, kl=200, be=1, rear=1)), ('f3', dict(huge=1, n=3, more=2, kl=120, vl=300, rear=1, far=9437184))]],
  ['A well-formed file with such an item is one of the documented layout with the length split over the length field and eight bits of the offset and status fields.'])
