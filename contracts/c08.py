"""C08: operators on a proxy run the same operator on the remote object."""
from .base import *

BINARY = ['__add__', '__sub__', '__div__', '__truediv__', '__floordiv__', '__mul__', '__pow__',
          '__iadd__', '__isub__', '__idiv__', '__itruediv__', '__ifloordiv__', '__imul__', '__ipow__',
          '__rshift__', '__lshift__', '__irshift__', '__ilshift__', '__ne__', '__lt__', '__gt__',
          '__le__', '__ge__', '__and__', '__or__', '__xor__', '__iand__', '__ior__', '__ixor__',
          '__mod__', '__radd__', '__rsub__', '__rdiv__', '__rfloordiv__', '__rtruediv__', '__rmul__',
          '__rpow__', '__rrshift__', '__rlshift__', '__rand__', '__ror__', '__rxor__', '__rmod__',
          '__eq__', '__getitem__']
OPS = [(n, 1) for n in BINARY] + [('__len__', 0), ('__setitem__', 2), ('__setattr__', 2),
                                  ('__pow__', 2)]


def check_forward(vm, p, view, c, opname, args, result, exc, mark, label):
    """Exactly one request: call_obj of the special method with these operands."""
    ss = sends(vm, start=mark)
    failed = events(vm, 'dumps.fail', mark)
    if failed:
        vm.prove(label + ': nothing is sent when the operands cannot be serialized',
                 not ss and exc is not None, ss)
        ob = failed[0].obj
    else:
        if not vm.prove(label + ': exactly one request is sent', len(ss) == 1
                        and not has_loop_event(vm, ['send'], mark), ss):
            return
        fr = ss[0].frames
        rec = unwire(vm, fr[-1])
        if not vm.prove(label + ': request well formed', len(fr) == 5 and rec is not None, fr):
            return
        vm.prove(label + ': sent to the server of the proxy', ss[0].sock is c.ghost['sock'])
        vm.prove(label + ': action is call_obj', eq(vm, fr[1], b'call_obj'), fr[1])
        ob = rec['obj']
    d = dict_of(vm, ob)
    if not vm.prove(label + ': message names obj, args and kwargs',
                    d is not None and set(d) == {'obj', 'args', 'kwargs'}, ob):
        return
    q = d['obj']
    if not vm.prove(label + ': calls a proxy', is_proxy(vm, q), q):
        return
    vm.prove(label + ': calls %s of the same remote object' % opname,
             denotes(vm, q, view, [opname]), proxy_view(vm, q))
    a = d['args']
    vm.prove(label + ': same operands in the same order',
             isinstance(a, (Tup, ListObj)) and vm.lift_seq(a.segs) == vm.lift_seq(args), a)
    vm.prove(label + ': no keyword operands', dict_of(vm, d['kwargs']) == {}, d['kwargs'])
    if failed:
        return
    rr = events(vm, 'future.result', mark)
    sync = p.ghost['opts']['sync']
    if sync == 'sync':
        if vm.prove(label + ': waits for the reply', len(rr) == 1, rr):
            r = rr[0].d
            if 'value' in r:
                vm.prove(label + ': yields what the call returned',
                         exc is None and eq(vm, result, r['value']), (result, exc))
            else:
                vm.prove(label + ': raises what the call raised', exc is not None, (result, exc))
    else:
        vm.prove(label + ': does not wait', not rr and exc is None, rr)
        if sync == 'off':
            vm.prove(label + ': yields nothing', result is None, result)
        else:
            vm.prove(label + ': yields a future',
                     isinstance(result, InstObj) and issub(result.cls, need(vm, TP + 'client.Future')),
                     result)
    st = proxy_view(vm, p)
    vm.prove(label + ': the proxy itself is unchanged',
             z3.And([eq(vm, st[k], view[k]) for k in view]), st)


def make(opname, nargs):
    def h(vm):
        wire_dumps(vm)
        future_outcome(vm)
        c = mk_client(vm)
        registered_client(vm, c)
        p = mk_proxy(vm, addr=c.ghost['addr'])
        view = proxy_view(vm, p)
        keys = set(dict_keys(vm, p))
        if opname == '__setattr__':
            args = [vm.fresh('str', 'name'), vm.fresh('any', 'value')]
        else:
            args = [vm.fresh('any', 'operand') for i in range(nargs)]
            for a in args:     # comparing two proxies is C10
                vm.assume(z3.Not(isinst(vm, a, p.cls)))
        if vm.choose(2) == 1:   # the proxy has been used before: its client is already known
            mcall(vm, p, '_client')
            keys = set(dict_keys(vm, p))
        mark = len(vm.trace)
        m = class_lookup(p.cls, opname)
        if not vm.prove('%s: proxies define the operator' % opname, isinstance(m, FuncVal)):
            return
        result, exc = attempt(vm, lambda: vm.call(m, [p] + args))
        check_forward(vm, p, view, c, opname, args, result, exc, mark, opname)
        if opname == '__setattr__':
            vm.prove('__setattr__: no attribute of the proxy is created',
                     set(dict_keys(vm, p)) - keys <= {'_client_'}, dict_keys(vm, p))
    return h


def dict_keys(vm, p):
    return [l[1] for l in p.fields.layers if l[0] == 'set']


for _n, _k in OPS:
    harness('C08', '%s/%d' % (_n, _k))(make(_n, _k))


@harness('C08', 'setattr statement')
def setattr_stmt(vm):
    """proxy.name = value reaches __setattr__ and changes nothing locally."""
    wire_dumps(vm)
    future_outcome(vm)
    c = mk_client(vm)
    registered_client(vm, c)
    p = mk_proxy(vm, addr=c.ghost['addr'])
    view = proxy_view(vm, p)
    mark = len(vm.trace)
    v = vm.fresh('any', 'value')
    result, exc = attempt(vm, lambda: vm.setattr(p, 'some_attribute', v))
    ss = sends(vm, start=mark)
    if events(vm, 'dumps.fail', mark):
        vm.prove('p.x = v: not sent, error raised', not ss and exc is not None)
        return
    if vm.prove('p.x = v: one request', len(ss) == 1, ss):
        rec = unwire(vm, ss[0].frames[-1])
        d = dict_of(vm, rec['obj']) if rec else {}
        vm.prove('p.x = v: calls __setattr__ of the remote object', d.get('obj') is not None
                 and denotes(vm, d['obj'], view, ['__setattr__']))
        vm.prove('p.x = v: name and value', d.get('args') is not None and
                 vm.lift_seq(d['args'].segs) == vm.lift_seq(['some_attribute', v]))
    vm.prove('p.x = v: no local attribute', 'some_attribute' not in dict_keys(vm, p))
