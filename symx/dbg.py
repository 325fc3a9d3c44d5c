"""Debug: prints the decision tree of one harness instance."""
import json
import sys
import traceback
from . import core as C, reg, sctx
from . import poly as P


def pp(eng, p, lim=8):
    out = []
    for m, c in list(p.items())[:lim]:
        out.append(f'{c}*' + '*'.join(f'{eng.vars[v].name}^{e}' for v, e in m))
    return ' + '.join(out) + (' ...' if len(p) > lim else '')


def ppc(eng, c):
    if c.op in ('gt', 'ge', 'eq'):
        return f'{c.op}[{pp(eng, c.args[0])}]'
    return c.op + '(' + ', '.join(ppc(eng, a) if isinstance(a, C.Cond)
                                  else str(a) for a in c.args) + ')'


def main(hname, picks, npaths=3):
    sys.path.insert(0, '/verif')
    import run
    h = reg.get(hname)
    pk = run.symbolic_package(h.env)
    orig = C.Engine.decide

    def dec(self, c):
        n = len(self.taken)
        r = orig(self, c)
        if len(self.taken) > n:
            tb = [f for f in traceback.extract_stack()
                  if '/pyorb/' in f.filename or '/checks/' in f.filename]
            f = tb[-1] if tb else None
            fork = any(a[:n] == self.taken[:n] and len(a) == n + 1
                       for a in self.alts)
            pre = n < len(self.prefix)
            print(f"  {'P' if pre else ('F' if fork else ' ')} {r} "
                  f"{f.name if f else ''}:{f.lineno if f else ''} "
                  f"{ppc(self, c)}")
        return r
    C.Engine.decide = dec
    stack = [[]]
    n = 0
    while stack and n < npaths:
        pre = stack.pop()
        eng = C.Engine(pre)
        C._Cur.eng = eng
        cx = sctx.SymCtx(eng, pk, picks)
        print('PATH', n)
        try:
            h.fn(cx)
        except C.PathAbort as e:
            print('abort', e)
        except BaseException as e:
            traceback.print_exc()
        stack.extend(eng.alts)
        n += 1
    return cx


if __name__ == '__main__':
    main(sys.argv[1], json.loads(sys.argv[2]), int(sys.argv[3]))
