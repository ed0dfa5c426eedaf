"""Checks of the framework crate and of the approval script."""
from vlib import *
import frame, opts, approve, system, probe as Pr, random
import concurrent.futures as cf
Q = lambda run, a, b: a if run.q else b

def framework(calls=4, beh=True, fams=None):
    """the design of the framework against its contract, its behaviours on the probe plugins, and scenario families"""
    def part(run, scenarios):
        bugs = [b for b, v in frame.BUGS.items() if v[1] == run.p]
        with cf.ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(frame.seeded, b) for b in bugs]
            o = frame.design(calls=Q(run, calls, calls + 2), acts=Q(run, 4, 6)); [f.result() for f in fs]
        run.states += o.distinct; run.trans += o.generated
        run.note('framework design model', dict(sessions=list(frame.NAMES), calls=Q(run, calls, calls + 2), distinct_states=o.distinct, depth=o.depth, complete=True))
        if bugs: run.note('seeded framework errors the contract objects to', bugs)
        run.stage('framework design: %d states' % o.distinct)
        probe(); run.stage('probe plugins built')
        sc = []
        if beh:
            bs, _ = frame.enumerate_(calls=2); b2, _ = frame.sample(Q(run, 200, 2000), SEED, calls=7, acts=5); bs += b2
            if run.q and len(bs) > 3500: random.Random(SEED).shuffle(bs); bs = bs[:3500]
            sc = [b.scen('b%d' % i) for i, b in enumerate(bs)]
            run.samples += [dict(behaviour=b.h, session=b.n + b.kind) for b in bs[:2]]
            scenarios(run, sc, 'behaviours of the framework model')
        if fams:
            f = Pr.Fam(random.Random(SEED), TIER); sc = []
            for l in fams(f): sc += l
            for s in sc[:1] + sc[len(sc) // 2:len(sc) // 2 + 1]: run.samples.append(s.text())
            for i in range(0, len(sc), 8000): scenarios(run, sc[i:i + 8000], 'framework scenarios')
    return part

def live(run, scenarios):
    """every callback comes back, whatever the plugin does"""
    o = tlc('Frame', frame.cfg(list(frame.NAMES), calls=3, acts=3, invs=(), props=('Returns',), spec='Fair'))
    if o.rc: raise Broken('a callback of the framework model does not return:\n' + o.out[-2000:])
    run.states += o.distinct; run.trans += o.generated; run.note('liveness: every callback of the framework model returns', dict(states=o.distinct))

def lists(run, scenarios):
    """the laws of key=value lists on the specification, and every list TLC visits on the real code"""
    o = opts.laws(2, 2, True); ls = o.lists; run.states += o.distinct; run.trans += o.generated
    if not run.q: o = opts.laws(2, 3, True); ls = o.lists; run.states += o.distinct; run.trans += o.generated
    run.note('key=value laws', dict(lists=len(ls), complete=True)); run.stage('laws hold on %d lists' % len(ls))
    probe(); scenarios(run, opts.scens(ls), 'sessions of five lists each')

def whole(theorem=True, step=1):
    """the whole system: two people are needed for what nobody has alone; its requests on the real library"""
    def part(run, scenarios):
        o = system.design(Q(run, 2, 3) if theorem else 1); run.states += o.distinct; run.trans += o.generated
        if theorem:
            with cf.ThreadPoolExecutor(4) as ex: list(ex.map(system.needed, system.NEED))
            run.note('system model', dict(requests=Q(run, 2, 3), distinct_states=o.distinct, depth=o.depth, complete=True, fails_without=list(system.NEED)))
            run.stage('system model: %d states' % o.distinct)
        scenarios(run, system.library(o.asks[::1 if not run.q else step]), 'requests of the system model')
    return part

def script(run, scenarios):
    """the approval script: design, seeded errors, and its behaviours on the real script"""
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(approve.seeded, b) for b in approve.BUGS]; o = approve.design(not run.q); [f.result() for f in fs]
    run.states += o.distinct; run.trans += o.generated; run.note('script design model', dict(distinct_states=o.distinct, depth=o.depth, complete=True)); run.note('seeded script errors the contract objects to', approve.BUGS)
    run.stage('script design: %d states, %d histories' % (o.distinct, len(o.scens)))
    r = random.Random(SEED); sc = approve.from_model(o.scens)
    lim = Q(run, 1800, 40000)
    if len(sc) > lim: r.shuffle(sc); sc = sc[:lim]
    so = system.design(Q(run, 2, 3)); run.states += so.distinct; run.trans += so.generated
    with cf.ThreadPoolExecutor(4) as ex: list(ex.map(system.needed, system.NEED))
    run.note('system model', dict(requests=Q(run, 2, 3), distinct_states=so.distinct, depth=so.depth, complete=True, fails_without=list(system.NEED)))
    run.stage('system model: %d states' % so.distinct)
    sc += system.script(so.asks, r, Q(run, 500, 20000))
    sc += approve.odd_args(r, Q(run, 700, 100000)) + approve.several(r, Q(run, 600, 10000))
    w = approve.World()
    try:
        for part in [sc[i:i + 6000] for i in range(0, len(sc), 6000)]:
            tr = w.run(part); run.stage('%d histories of the script recorded' % len(tr))
            bad, st = validate(tr, 'ApproveTrace'); run.states += st; run.trans += st - len(tr); run.traces += len(tr); run.count('histories of the script', len(tr))
            by = {s.id: s for s in part}; seen = set()
            for id in sorted(bad, key=lambda i: (len(str(by[i].dump())), i)):
                why = frozenset(x for _, x in bad[id][1])
                if why in seen or len(seen) > 8: continue
                t2 = w.run([by[id]]); b2, _ = validate(t2, 'ApproveTrace')
                if id in b2: seen.add(why); run.violation(id, '; '.join(sorted(why)), json.dumps(dict(property=run.p, id=id, why=sorted(why), event=b2[id][0], script=by[id].dump())) + '\n' + t2[0] + '\n')
                else: run.note('not reproduced: ' + id, sorted(why))
    finally: w.close()
    run.samples += [s.dump() for s in sc[:3]]
def replay_script(head):
    w = approve.World()
    try: t = w.run([approve.Sc.load(head['script'])]); b, _ = validate(t, 'ApproveTrace')
    finally: w.close()
    for i, e in enumerate(json.loads(t[0])['ev']): print('%4d %s' % (i + 1, json.dumps(e)))
    return b

PARTS = {
 'C21': [script],
 'C02': [whole(False, 2)], 'C03': [whole()], 'C04': [whole(False)],
 'C11': [framework(fams=lambda f: [f.single(), f.bare(), f.long(), f.histories(600 if f.q else 20000), f.curious('text'), f.texts(60 if f.q else 2000), f.drops(), f.versions(), f.mandatory()[::1 if not f.q else 5]]), live],
 'C12': [framework(fams=lambda f: [f.single(), f.long(), f.histories(800 if f.q else 20000)])],
 'C13': [framework(beh=False, fams=lambda f: [f.lives(), f.bare(), f.long(), f.histories(150 if f.q else 10000), f.drops(), f.versions()])],
 'C14': [lists, framework(calls=2, beh=False, fams=lambda f: [f.curious('list'), f.lists(200 if f.q else 6000), f.small(), f.large(), f.nets(), f.facts(250 if f.q else 6000)])],
 'C15': [framework(calls=3, beh=False, fams=lambda f: [f.curious('list'), f.facts(500 if f.q else 10000), f.nets(), f.mandatory()])],
 'C16': [framework(calls=3, beh=False, fams=lambda f: [f.versions()])],
 'C18': [framework(calls=2, beh=False, fams=lambda f: [f.curious('argv'), f.cmdlines(300 if f.q else 8000)])],
 'C19': [framework(fams=lambda f: [f.curious('text'), f.texts(150 if f.q else 5000), f.histories(150 if f.q else 8000), f.versions()])],
}
TECH = {i: 'TLA+ contracts and design models (plugin and framework) checked with TLC; model behaviours replayed into the real library and into plugins built on the real framework; recordings validated against the contracts by TLC' for i in PARTS if i not in ('C02', 'C03', 'C04')}
TECH['C14'] = 'TLA+ specification of key=value lists whose laws TLC checks on every list within bounds; each such list, and generated ones, read by the real code; recordings validated against the specification by TLC'
TECH['C21'] = 'TLA+ contract and design model of the script and its re-runs checked with TLC; all histories of the model replayed on the real script; recordings validated against the contract by TLC'
NOTE = {i: 'TLC checks the design models (spec/Frame.tla, and spec/Plugin.tla where the library is concerned) against the contracts (spec/Ffi.tla, spec/Contract.tla) exhaustively within the bounds in the evidence; the same contracts judge recordings of the real code, reached through the plugin interface: two probe plugins built on the real framework, and the real library. The code itself is covered as far as the replayed histories reach; trusts the recorder (harness/vhost.c, harness/probe), TLC, the kernel.' for i in PARTS if i not in ('C02', 'C03', 'C04')}
NOTE['C14'] = 'The laws are checked exhaustively by TLC on the specification for every list of two entries over a small alphabet; the real OptionMap is read through a plugin built on the framework for all of those lists and for generated ones (every integer width, lists, sets, addresses, malformed UTF-8). Trusts the recorder, TLC and the integer/UTF-8 definitions, which TLC checks against arithmetic and against encoding.'
NOTE['C21'] = 'Exhaustive for the design within its bounds; the real script is run as unprivileged users with recording stand-ins for sudo, socat, stty and clear, and with /var/run/sudo_pair redirected to a scratch directory. Assumes that SUDO_UID is only ever set by sudo.'
def setup(): approve.build()
