"""C06: msgpack transport preserves values.

By structural induction: the items of a container are arbitrary values that arrive unchanged."""
from .wirelib import *

S6 = 'MsgpackSerializer'
LABELS = ('basic values', 'lists', 'tuples', 'nested tuples', 'dicts', 'nested dicts', 'datetimes', 'dates',
          'dtypes', 'arrays', 'numpy booleans', 'numpy integers', 'numpy floats', 'float64')


def case(label):
    def h(vm):
        install(vm)
        if label == 'float64':
            x = libnp.any_scalar(vm, libnp.NP_F64)
        else:
            x = values(vm, 'msgpack')[label]()
        if isinstance(x, DictObj) and x.layers and x.layers[0][0] == 'base' and vm.choose(2):
            x.layers.append(('set', vm.fresh(('bytes', 'int')[vm.choose(2)], 'key'), libnp.any_array(vm)))
        if isinstance(x, InstObj) and vm.choose(2):
            # anywhere in containers
            x = (ListObj(vm, [x]), Tup([x]), DictObj(vm, [('set', vm.fresh('int', 'k'), x)]))[vm.choose(3)]
        arrives(vm, S6, x, label)
    return h


for _l in LABELS:
    harness('C06', _l)(case(_l))


@harness('C06', 'other numbers')
def others(vm):
    install(vm)
    c = (libnp.NP_LONG, libnp.NP_COMPLEX, libnp.NP_TD)[vm.choose(3)]
    x = libnp.any_scalar(vm, c)
    not_changed(vm, S6, x, 'other numbers')
