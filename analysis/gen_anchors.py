"""Development tool (not part of any check): freeze, from the reference tree, the
public functions each property quantifies over and the any-length cells that are
decided.  usage: gen_anchors.py FACTS.json"""
import json, os, sys
sys.setrecursionlimit(20000)
import plan as PL, engine as EN, verify as VF, specs as SP
prog = EN.Program(sys.argv[1])
out = {}
anyl = []
import signal
class T(EN.Budget):
    pass
def h(*a):
    raise T('t')
signal.signal(signal.SIGALRM, h)
for n in SP.SPECS:
    if n not in prog.names or n in PL.CONST_ARG or n in PL.SKIP:
        continue
    ks, _ = PL.kinds(prog, n)
    if not any(k[0] == 'U' for k in ks):
        continue
    r = VF.Report(n)
    signal.alarm(5)
    try:
        VF.Verifier(prog).analyse(n, rep=r)
        if r.obligations and r.obligations == r.discharged:
            anyl.append(n)
    except Exception as ex:
        pass
    signal.alarm(0)
out['anylen'] = sorted(anyl)
PL.ANYLEN = set(anyl)
for k, p in PL.PROPS.items():
    its = p.items(prog, 'quick')
    dep = set(getattr(p, 'deps', []))
    fns = sorted(set(i.fn for i in its if i.fn in prog.names and i.fn not in dep))
    out[k] = {'functions': fns}
json.dump(out, open(os.path.join(PL.HERE, 'anchors.json'), 'w'), indent=0, sort_keys=True)
print(len(anyl), {k: len(v['functions']) for k, v in out.items() if k != 'anylen'})
