"""Spatial hash."""
from itertools import product


@ref('C01 C27', 'crowddynamics.core.block_list.MutableBlockList._transform', optional=True, also=[{'value': 'vec2'}])
def cell(value: 'any', cell_size: 'real'):
    """the cell of a point is the floor of its coordinates over the cell size; points that have no such cell are refused with KeyError"""
    try:
        return tuple(x // cell_size for x in value)
    except Exception:
        raise KeyError


@ref('C01 C27', 'crowddynamics.core.block_list.MutableBlockList._nearest_blocks', optional=True)
def around(index: 'tup:int,int', radius: 'int'):
    """the cells whose offset is at most radius in every dimension, each once"""
    for a in range(-radius, radius + 1):
        for b in range(-radius, radius + 1):
            yield index[0] + a, index[1] + b


@ref('C01 C27', 'crowddynamics.core.block_list.MutableBlockList.__init__', asserts=True, ignore=('_str',))
def empty(self: 'obj:crowddynamics.core.block_list.MutableBlockList', cell_size: 'real', default_list: 'any' = list):
    """starts with no cells, an absent cell reads as an empty list of the chosen kind; cell sizes must be positive"""
    from collections import defaultdict
    assert cell_size > 0
    assert callable(default_list)
    self._cell_size = cell_size
    self._list = default_list
    self._blocks = defaultdict(default_list)


@ref('C01 C27', 'crowddynamics.core.block_list.MutableBlockList.__setitem__')
def put(self: 'obj:crowddynamics.core.block_list.MutableBlockList', key: 'vec2', value: 'any'):
    """a value is appended to the cell of its point, and to no other"""
    self._blocks[cell(key, self._cell_size)].append(value)


@ref('C01', 'crowddynamics.core.block_list.MutableBlockList.__getitem__')
def get(self: 'obj:crowddynamics.core.block_list.MutableBlockList', item: 'vec2'):
    """the values of the cell of the point"""
    return self._blocks[cell(item, self._cell_size)]


@ref('C01 C27', 'crowddynamics.core.block_list.MutableBlockList.nearest', observe='ret mem raise')
def near(self: 'obj:crowddynamics.core.block_list.MutableBlockList', item: 'vec2', radius: 'int' = 1):
    """the values of all cells around the cell of the point, in a fresh list of the chosen kind"""
    x, y = cell(item, self._cell_size)
    out = self._list()
    for a, b in product(range(-radius, radius + 1), range(-radius, radius + 1)):
        out = out + self._blocks[(x + a, y + b)]
    return out
