"""C07: JSON transport preserves values (tuples arrive as lists)."""
from .wirelib import *

S7 = 'JsonSerializer'
LABELS = ('basic values', 'lists', 'tuples', 'nested tuples', 'dicts', 'nested dicts', 'datetimes', 'dates',
          'dtypes', 'arrays', 'numpy booleans', 'numpy integers', 'numpy floats')


def case(label):
    def h(vm):
        install(vm)
        x = values(vm, 'json')[label]()
        if label == 'arrays':
            vm.assume(libnp.F_buffered(x.ghost['dt']))
        if isinstance(x, DictObj) and x.layers and x.layers[0][0] == 'base' and vm.choose(2):
            k = vm.fresh('str', 'key')
            vm.assume(k.t != '___type_name___')
            x.layers.append(('set', k, vm.fresh('bytes', 'y')))
        if isinstance(x, InstObj) and vm.choose(2):
            k = vm.fresh('str', 'k')
            vm.assume(k.t != '___type_name___')
            x = (ListObj(vm, [x]), Tup([x]), DictObj(vm, [('set', k, x)]))[vm.choose(3)]
        arrives(vm, S7, x, label, json=True)
    return h


for _l in LABELS:
    harness('C07', _l)(case(_l))
