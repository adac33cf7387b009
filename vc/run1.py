"""debug: interpret one scenario"""
import sys, threading, time, argparse, subprocess, json, os
sys.setrecursionlimit(200000)
threading.stack_size(1 << 29)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('scen'); ap.add_argument('--dims', default=''); ap.add_argument('--params', default='')
    ap.add_argument('--ints', default=''); ap.add_argument('--show', default='')
    ap.add_argument('-D', action='append', default=[])
    a = ap.parse_args()
    kv = lambda s: {x.split('=')[0]: int(x.split('=')[1]) for x in s.split(',') if x}
    import frontend
    ast = frontend.extract(a.scen, a.D)
    import terms as TT, smt, interp, values as VV
    TT._fresh[0] = 0; smt.reset()
    t = time.time()
    P = interp.Program(ast); print('load', time.time() - t)
    cfg = dict(dims=kv(a.dims) or None, params=kv(a.params), ints=kv(a.ints) or None, verbose=False)
    t = time.time()
    I = interp.Interp(P, cfg)
    I.inputs = {}
    try:
        I.run('scenario')
    except Exception as e:
        import traceback
        tb = traceback.format_exc().split('\n')
        print('\n'.join(tb[-18:]))
        print('\n   '.join(getattr(e,'stack',[])))
    finally:
        print('time', time.time() - t, 'at', I.fname, I.line)
    bad = [o for o in I.obls if not o[0]]
    for o in bad: print('BAD', o[1], o[2], o[3], TT.show(o[4])[:300], '| CTX', [TT.show(f)[:120] for f in o[5].facts])
    print('obligations', len(I.obls), 'bad', len(bad))
    for o in I.outorder:
        v = I.outs[o]
        if isinstance(v, VV.Mat):
            d = v.dims()
            print(o, TT.show(v.r), TT.show(v.c), [TT.show(v.get(i, j)) for i in range(d[0]) for j in range(d[1])] if None not in d else '')
        else:
            print(o, TT.show(v) if isinstance(v, TT.T) else v)
t = threading.Thread(target=main); t.start(); t.join()
