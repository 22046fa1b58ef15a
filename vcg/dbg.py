"""ad-hoc: python3-vt -m vcg.dbg PROP CONTRACT LABEL-regex"""
import sys, re, tempfile, shutil, time
from . import build, llvmir, symex, prover, props
from . import terms as tm
def get(prop, contract, gi=0):
    g = None
    for g in props.PROPS[prop]['groups']:
        d = tempfile.mkdtemp(prefix='vcg_')
        bc = build.compile_ir(d, ['@/' + g['contract']] + g.get('sources', []), g.get('shim', False), g.get('flags', ()))
        m = llvmir.Module(bc)
        shutil.rmtree(d)
        if 'vc_contract_' + contract in m.function_names():
            break
    ex = symex.Executor(m, feas=prover.Feas())
    ex.run('vc_contract_' + contract)
    return ex
if __name__ == '__main__':
    ex = get(sys.argv[1], sys.argv[2])
    print(len(ex.obligations), ex.ended)
    P = prover.Prover(nl_timeout=5000)
    for o in ex.obligations:
        if re.search(sys.argv[3], o.label):
            r = P.prove(o.hyps, o.goal, o.hints); print(r.note)
            print(o.label, r.status, r.backend, round(r.time, 2), r.note)
            if r.status != 'proved' or len(sys.argv) > 4:
                print('  goal', tm.show(o.goal)[:600])
                for h in o.hyps:
                    print('   ', tm.show(h)[:200])
