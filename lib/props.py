"""What each check explores.  A family is a function of a Fam; everything is judged by the TLA+ contract."""
from families import *
Q = lambda f, a, b: a if f.q else b
ERRS = (5, 1, 13, 12, 24, 28, 4, 11, 32, 104, 38, 2, 17, 98)
def main(*names): return list(names)

# cases: sessions of the design model; env: its budget of environment steps (quick, thorough); fams: scenario families; bugs: seeded design errors
P = {
 'C01': dict(cases=['root', 'user', 'notty', 'slow'], fams=lambda f: [f.many(), f.errors(), f.waits(), f.answers(), f.faults(errs=Q(f, (5,), ERRS), kinds=Q(f, ('fault',), ('fault', 'sigat'))), f.signals(), f.texts(Q(f, 20, 300)), f.together(Q(f, 30, 500)), [s for s in f.prompts(0) if s.id[:3] in ('prt', 'prn', 'prm', 'prf', 'prp', 'prz', 'prk')]]),
 'C02': dict(cases=['exempt', 'root', 'ug'], fams=lambda f: [f.ids(), f.widths(), f.irrelevant(), f.together(Q(f, 200, 3000)), f.policy(Q(f, 2500, 30000)), f.facts(Q(f, 100, 2000))]),
 'C03': dict(cases=['root', 'user', 'group', 'stale'], fams=lambda f: [f.ids(), f.widths()[::3 if f.q else 1], f.errors(), f.sockets(), f.together(Q(f, 200, 3000)), f.faults(kinds=('fault', 'killb', 'killa') if not f.q else ('killb', 'fault'), errs=Q(f, (5,), ERRS), ans=(b'y',))]),
 'C04': dict(cases=['ug', 'group', 'user'], fams=lambda f: [f.ids(), f.widths()[1::3 if f.q else 1], f.policy(Q(f, 2500, 30000)), f.dirs(), f.together(Q(f, 200, 3000))]),
 'C05': dict(cases=['dir', 'occ', 'stale'], fams=lambda f: [f.ids(), [s for s in f.widths() if s.id.startswith('wido')], f.errors(), f.dirs(), f.sockets(), f.faults(auths=('root',), ans=(b'y',), errs=Q(f, (5,), ERRS))]),
 'C06': dict(cases=['root', 'group', 'stale', 'occ'], fams=lambda f: [f.many(), f.errors(), f.faults(errs=Q(f, (5,), ERRS)), f.logfaults(), f.closefaults(), f.signals(), f.sockets(), f.dirs(), f.lifecycle(0), f.stdin()]),
 'C07': dict(cases=['root', 'slow', 'group'], fams=lambda f: [f.long(), f.many(), f.waits(), f.curious('out'), f.output(Q(f, 500, 5000)), f.logfaults(), f.loss(Q(f, 100, 1000)), f.lifecycle(0)]),
 'C08': dict(cases=['root', 'slow', 'user'], fams=lambda f: [f.long(), f.waits(), f.loss(Q(f, 500, 5000)), f.logfaults(errs=Q(f, (5, 4, 32, 11), ERRS)), f.output(Q(f, 100, 1000)), f.signals()]),
 'C09': dict(cases=['root', 'exempt'], fams=lambda f: [f.long(), f.stdin(), f.output(Q(f, 200, 2000), False), f.policy(Q(f, 800, 8000)), f.loss(Q(f, 30, 500)), f.lifecycle(0)]),
 'C10': dict(cases=['root', 'user', 'notty'], fams=lambda f: [about(f.many(), 'C10'), f.waits(), about(f.signals(), 'C10'), about([s for s in f.answers() if s.id.startswith('ansi')], 'C10'), f.faults(kinds=('sigat',), errs=(2,), tty=Q(f, (True,), (True, False)))]),
 'C13': dict(cases=['dir', 'exempt', 'facts', 'root'], fams=lambda f: [f.bare(), f.lifecycle(0), f.versions(), f.texts(0)]),
 'C15': dict(cases=['facts', 'exempt'], fams=lambda f: [about(f.ids(), 'C15'), about(f.facts(Q(f, 800, 8000)) + f.together(Q(f, 200, 3000)), 'C15'), f.policy(Q(f, 600, 6000))]),
 'C16': dict(cases=['api', 'exempt'], fams=lambda f: [about(f.versions(), 'C16')]),
 'C17': dict(cases=['root', 'notty', 'user'], fams=lambda f: [f.sizes(), f.curious('tpl', 'fact'), f.prompts(Q(f, 300, 3000)), f.faults(auths=('root',), ans=(b'y',), stale=(False,), errs=Q(f, (5,), ERRS)), f.cmdlines(50), f.together(Q(f, 200, 3000))]),
 'C18': dict(cases=['root'], fams=lambda f: [about(f.curious('argv', 'fact'), 'C18'), about(f.cmdlines(Q(f, 800, 8000)), 'C18'), f.together(Q(f, 200, 3000))]),
 'C19': dict(cases=['notty', 'dir', 'api'], fams=lambda f: [f.texts(Q(f, 300, 3000)), f.dirs(), f.versions()]),
 'C20': dict(cases=['two', 'root'], fams=lambda f: [f.many(), f.sessions(Q(f, 600, 6000))]),
}
