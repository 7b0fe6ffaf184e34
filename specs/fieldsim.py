"""Fields of a simulation, states of agents, command line, traits and helpers."""
import contextlib
import importlib.util
import inspect
import os
import warnings
from collections import OrderedDict

import click
import numpy as np
from configobj import ConfigObj
from matplotlib.path import Path
from shapely.geometry import Polygon
from shapely.geometry.base import BaseGeometry
from traitlets import Tuple
from traitlets.traitlets import TraitError, TraitType, Int, Float, Complex, Bool, HasTraits, Unicode, Enum, is_trait
from traittypes import Array
from validate import Validator

from crowddynamics.core.geometry import union
from crowddynamics.core.sampling import polygon_sample
from crowddynamics.core.steering.obstacle_handling import obstacle_handling
from crowddynamics.core.steering.quickest_path import meshgrid, shortest_path
from crowddynamics.core.vector2D import length
from crowddynamics.exceptions import ValidationError, CrowdDynamicsException, InvalidType, InvalidValue
from crowddynamics.utils import import_subclasses, remember_cwd


@ref('C32', 'crowddynamics.simulation.field.Field._valid_domain')
def domain_valid(self: 'obj:crowddynamics.simulation.field.Field', proposal: 'any'):
    """invalid and empty domains are refused, others are taken as they are"""
    v = proposal['value']
    if not v.is_valid or v.is_empty:
        raise ValidationError('')
    return v


@ref('C32', 'crowddynamics.simulation.field.Field._valid_obstacles')
def obstacles_valid(self: 'obj:crowddynamics.simulation.field.Field', proposal: 'any'):
    """invalid and empty obstacles are refused, others are taken as they are"""
    v = proposal['value']
    if not v.is_valid or v.is_empty:
        raise ValidationError('')
    return v


@ref('C32 C45', 'crowddynamics.simulation.field.Field.convex_hull', again='domain obstacles targets spawns')
def hull(self: 'obj:crowddynamics.simulation.field.Field'):
    """the hull covers obstacles, targets and spawns"""
    g = BaseGeometry()
    if self.obstacles:
        g = g | self.obstacles
    if self.targets:
        g = g | union(*self.targets)
    if self.spawns:
        g = g | union(*self.spawns)
    return g.convex_hull


@ref('C30 C32 C46', 'crowddynamics.simulation.field.Field._samples')
def spawn_points(spawn: 'any', obstacles: 'any', radius: 'real' = 0.3):
    """points are sampled from the hull of the spawn without the surroundings of obstacles"""
    if obstacles:
        g = spawn - obstacles.buffer(radius)
    else:
        g = spawn
    return polygon_sample(np.asarray(g.convex_hull.exterior))


@ref('C30 C32 C46', 'crowddynamics.simulation.field.Field.sample_spawn', again='domain obstacles targets spawns')
def spawn(self: 'obj:crowddynamics.simulation.field.Field', spawn_index: 'int', radius: 'real' = 0.3):
    """the spawn with the given index is sampled"""
    return self._samples(self.spawns[spawn_index], self.obstacles, radius)


@ref('C32 C33', 'crowddynamics.simulation.field.Field.meshgrid', again='domain obstacles targets')
def grid(self: 'obj:crowddynamics.simulation.field.Field', step: 'real'):
    """the grid spans the bounds of the domain; without domain there is none"""
    if self.domain is None:
        raise CrowdDynamicsException('')
    return meshgrid(step, *self.domain.bounds)


@ref('C32 C33', 'crowddynamics.simulation.field.Field.shortest_path_target', opaque='maps', also=[{'index': 'const:"closest"'}, {'index': 'const:0'}])
def path_target(self: 'obj:crowddynamics.simulation.field.Field', step: 'real', index: 'any', radius: 'real'):
    """the way to one target, or to the closest of all targets"""
    if isinstance(index, (int, np.int64)):
        goal = self.targets[index]
    elif index == 'closest':
        goal = union(*self.targets)
    else:
        raise InvalidType('')
    return shortest_path(self.meshgrid(step), self.domain, goal, self.obstacles, radius)


@ref('C32 C33', 'crowddynamics.simulation.field.Field.navigation_to_target', opaque='maps', again='domain obstacles targets')
def navigation(self: 'obj:crowddynamics.simulation.field.Field', index: 'any', step: 'real', radius: 'real', strength: 'real'):
    """the way to the target turned away from obstacles, if there are any; targets are required"""
    if not self.targets:
        raise CrowdDynamicsException('')
    dirs, dist = self.shortest_path_target(step, index, radius)
    if self.obstacles is not None:
        away, near = self.direction_map_obstacles(step)
        dirs = obstacle_handling(near, away, dirs, radius, strength)
    return self.meshgrid(step), dist, dirs


@ref('C32 C33', 'crowddynamics.simulation.field.Field.direction_map_obstacles', opaque='maps', again='domain obstacles targets')
def away_from_obstacles(self: 'obj:crowddynamics.simulation.field.Field', step: 'real'):
    """directions to the obstacles of the field on its grid"""
    from crowddynamics.core.steering.obstacle_handling import direction_map_obstacles
    return direction_map_obstacles(self.meshgrid(step), self.obstacles)


@ref('C43', 'crowddynamics.simulation.logic.InsideDomain.__init__')
def inside_start(self: 'obj:crowddynamics.simulation.logic.InsideDomain', simulation: 'any'):
    """nobody is counted before the first update; the border is that of the domain"""
    super().__init__(simulation)
    self.simulation.data['inactive'] = 0
    self.domain_path = Path(np.asarray(self.simulation.field.domain.exterior))


@ref('C43', 'crowddynamics.simulation.logic.InsideDomain.update', attrs={'array': 'recs:agents'}, again='simulation.field.obstacles simulation.field.targets simulation.field.domain simulation.agents.array')
def inside(self: 'obj:crowddynamics.simulation.logic.InsideDomain'):
    """agents are active exactly while inside the domain; the others are counted"""
    agents = self.simulation.agents.array
    inside = self.domain_path.contains_points(agents['position'])
    agents['active'] = inside
    self.simulation.data['inactive'] = np.sum(~inside)


@ref('C43', 'crowddynamics.simulation.logic.TargetReached.__init__', attrs={'array': 'recs:agents'})
def targets_start(self: 'obj:crowddynamics.simulation.logic.TargetReached', simulation: 'any', *args, **kwargs):
    """every polygon target has a name, a border, nobody who reached it yet and a count of zero"""
    super().__init__(simulation, *args, **kwargs)
    n = len(self.simulation.agents.array)
    self.names = []
    self.paths = []
    self.reached_by = []
    for i, target in enumerate(self.simulation.field.targets):
        if isinstance(target, Polygon):
            name = 'target_{index}'.format(index=i)
            self.names.append(name)
            self.paths.append(Path(np.asarray(target.exterior)))
            self.reached_by.append(np.zeros(n, dtype=np.bool_))
            self.simulation.data[name] = 0


@ref('C43', 'crowddynamics.simulation.logic.TargetReached.update', attrs={'array': 'recs:agents'}, same_len='names paths reached_by', again='simulation.field.obstacles simulation.field.targets simulation.field.domain simulation.agents.array')
def targets_reached(self: 'obj:crowddynamics.simulation.logic.TargetReached'):
    """an agent once inside a target stays counted as having reached it"""
    for name, path, reached in zip(self.names, self.paths, self.reached_by):
        reached |= path.contains_points(self.simulation.agents.array['position'])
        self.simulation.data[name] = np.sum(reached)


@ref('C41', 'crowddynamics.cli.import_simulations')
def find_simulations(dir_path: 'any' = '.'):
    """simulations of all python files of the directory, by name"""
    from crowddynamics.simulation.multiagent import MultiAgentSimulation
    found = OrderedDict()
    for file in os.listdir(dir_path):
        _, ext = os.path.splitext(file)
        if ext == '.py':
            found.update(import_subclasses(os.path.join(dir_path, file), MultiAgentSimulation))
    return found


@ref('C41', 'crowddynamics.cli.run')
def run_group(context: 'any', loglevel: 'any', num: 'any'):
    """the chosen level is applied, the number of runs handed on"""
    from crowddynamics.logging import setup_logging
    setup_logging(loglevel)
    context.obj = dict(num=num)


@ref('C41', 'crowddynamics.logging.setup_logging')
def set_level(loglevel: 'any', log_cfg: 'any'):
    """the level is set on the package's logger"""
    import logging
    import loggingtools
    from crowddynamics.logging import format_numpy, format_pandas, user_info
    loggingtools.setup_logging(log_cfg, '.logs')
    logging.getLogger('crowddynamics').setLevel(loglevel)
    format_numpy()
    format_pandas()
    user_info()


@ref('C40', 'crowddynamics.traits.trait_to_type')
def to_type(trait: 'any'):
    """each supported kind of trait has its python type, others are refused"""
    if not is_trait(trait):
        raise InvalidType('')
    if isinstance(trait, Int):
        return int
    if isinstance(trait, Float):
        return float
    if isinstance(trait, Complex):
        return complex
    if isinstance(trait, Bool):
        return bool
    if isinstance(trait, Unicode):
        return str
    raise InvalidValue('')


@ref('C25 C40', 'crowddynamics.traits.trait_to_dtype')
def to_dtype(name: 'any', trait: 'any'):
    """each supported kind of trait has its field type, arrays their shape; others are refused"""
    if not is_trait(trait):
        raise InvalidType('')
    if isinstance(trait, Int):
        return name, np.int64
    if isinstance(trait, Float):
        return name, np.float64
    if isinstance(trait, Complex):
        return name, np.complex128
    if isinstance(trait, Bool):
        return name, np.bool_
    if isinstance(trait, Unicode):
        raise NotImplementedError
    if isinstance(trait, Enum):
        raise NotImplementedError
    if isinstance(trait, Array):
        return name, trait.dtype, trait.default_value.shape
    raise InvalidValue('')


@ref('C40 C41', 'crowddynamics.traits.trait_to_option')
def to_option(name: 'any', trait: 'any'):
    """the option has the name, the default and the type of its trait"""
    if not is_trait(trait):
        raise InvalidType('')
    opt = ('--' + name, )
    if isinstance(trait, Int):
        return click.Option(param_decls=opt, default=trait.default_value, type=click.IntRange(trait.min, trait.max))
    if isinstance(trait, Float):
        return click.Option(param_decls=opt, default=trait.default_value, type=float)
    if isinstance(trait, Complex):
        return click.Option(param_decls=opt, default=trait.default_value, type=complex)
    if isinstance(trait, Bool):
        return click.Option(param_decls=opt, default=trait.default_value, is_flag=True)
    if isinstance(trait, Unicode):
        return click.Option(param_decls=opt, default=trait.default_value, type=str)
    if isinstance(trait, Enum):
        return click.Option(param_decls=opt, default=str(trait.default_value), type=click.Choice(list(map(str, trait.values))))
    if isinstance(trait, Tuple):
        from crowddynamics.traits import trait_to_type
        return click.Option(param_decls=opt, default=trait.default_value, type=tuple(trait_to_type(x) for x in trait._traits))
    raise InvalidValue('')


@ref('C25 C40 C41', 'crowddynamics.traits.class_own_traits')
def own_traits(cls: 'any', exclude_attrs: 'any' = None):
    """traits of the class itself in the order of their definition"""
    if issubclass(cls, HasTraits):
        for name, trait in vars(cls).items():
            if not (callable(exclude_attrs) and exclude_attrs(name)) and isinstance(trait, TraitType):
                yield name, trait


@ref('C25 C40', 'crowddynamics.traits.class_traits')
def all_traits(cls: 'any', exclude_attrs: 'any' = None, exclude_cls: 'any' = None):
    """traits of all classes in the order of inheritance, without excluded classes"""
    from crowddynamics.traits import class_own_traits
    for c in inspect.getmro(cls):
        if not (callable(exclude_cls) and exclude_cls(c)):
            yield from class_own_traits(c, exclude_attrs)


@ref('C25 C40', 'crowddynamics.traits.class_to_struct_dtype')
def struct(cls: 'any', exclude_attrs: 'any', exclude_cls: 'any'):
    """one field per trait, in order"""
    from crowddynamics.traits import class_traits, trait_to_dtype
    return np.dtype([trait_to_dtype(name, trait) for name, trait in class_traits(cls, exclude_attrs=exclude_attrs, exclude_cls=exclude_cls)])


@ref('C40', 'specs.fieldsim.code_shape', at='crowddynamics.traits.shape_validator')
def shape_checked(n: 'int', m: 'int', trait: 'any', value: 'any'):
    """values of exactly the given shape pass unchanged, others are refused"""
    if value.shape == (n, m):
        return value
    raise TraitError('')


def code_shape(n, m, trait, value):
    from crowddynamics.traits import shape_validator
    return shape_validator(n, m)(trait, value)


@ref('C40', 'specs.fieldsim.code_length', at='crowddynamics.traits.length_validator')
def length_checked(l0: 'real', l1: 'real', trait: 'any', value: 'vec2'):
    """values of one of the given lengths pass unchanged, others are refused"""
    l = np.hypot(value[0], value[1])
    if np.any(np.isclose(l, (l0, l1))):
        return value
    raise TraitError('')


def code_length(l0, l1, trait, value):
    from crowddynamics.traits import length_validator
    return length_validator(l0, l1)(trait, value)


@ref('C42 C48', 'crowddynamics.config.load_config')
def config(infile: 'any', configspec: 'any' = None):
    """a configuration that does not satisfy its specification is refused"""
    c = ConfigObj(infile=infile, configspec=configspec)
    if configspec:
        if c.validate(Validator()) is not True:
            raise ValidationError
    return c


@ref('C42', 'crowddynamics.utils.mkspec')
def argument(parameter: 'any'):
    """name, default and annotation of a parameter; parameters without default are refused"""
    if parameter.default is inspect.Parameter.empty:
        raise InvalidType('')
    from crowddynamics.utils import ArgSpec, empty_to_none
    return ArgSpec(name=parameter.name, default=empty_to_none(parameter.default), annotation=empty_to_none(parameter.annotation))


@ref('C42', 'crowddynamics.utils.empty_to_none')
def no_empty(value: 'any'):
    """missing becomes none"""
    if value is inspect._empty:
        return None
    return value


@ref('C42', 'crowddynamics.utils.parse_signature')
def arguments(function: 'any'):
    """all parameters but self, in order"""
    from crowddynamics.utils import mkspec
    for name, p in inspect.signature(function).parameters.items():
        if name != 'self':
            yield mkspec(p)


@ref('C42', 'crowddynamics.utils.remember_cwd')
def and_back(directory: 'any'):
    """the former directory is current again however the body ends"""
    before = os.getcwd()
    try:
        os.chdir(directory)
        yield
    finally:
        os.chdir(before)


@ref('C41 C42', 'crowddynamics.utils.import_module')
def load_module(module_path: 'any'):
    """the module of a file is called after the file and executed"""
    base, ext = os.path.splitext(module_path)
    _, name = os.path.split(base)
    spec = importlib.util.spec_from_file_location(name, module_path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


@ref('C41 C42', 'crowddynamics.utils.import_subclasses')
def load_subclasses(module_path: 'any', cls: 'any'):
    """proper subclasses defined in the module, by name and in order"""
    from crowddynamics.utils import import_module, filter_cls
    mod = import_module(module_path)
    return OrderedDict([(name, obj) for name, obj in vars(mod).items() if filter_cls(cls, obj)])


@ref('C41 C42', 'crowddynamics.utils.filter_cls')
def proper_subclass(cls: 'any', obj: 'any'):
    """proper subclasses only; what is no class is none"""
    try:
        return issubclass(obj, cls) and obj is not cls
    except:
        return False


@ref('C41', 'crowddynamics.cli.simulation_callback', optional=True)
def run_one(simulation_cls: 'any'):
    """a command runs its own simulation with its options as often as asked"""
    @click.pass_obj
    def callback(obj, **options):
        n = obj['num']
        for _ in range(n):
            s = simulation_cls(**options)
            s.run()
    return callback


def all_commands_2():
    from crowddynamics.cli import simulation_callback, run, import_simulations
    from crowddynamics.traits import class_own_traits, trait_to_option
    for name, cls in import_simulations(dir_path='.').items():
        c = click.Command(name, callback=simulation_callback(cls))
        for nm, trait in class_own_traits(cls):
            c.params.append(trait_to_option(nm, trait))
        run.add_command(c)


@ref('C41', 'crowddynamics.cli.simulation_commands', optional=True, alt='all_commands_2')
def all_commands():
    """one command per simulation, with one option per trait of the simulation"""
    from crowddynamics.cli import simulation_callback, run, import_simulations
    from crowddynamics.traits import class_own_traits, trait_to_option
    for name, cls in import_simulations(dir_path='.').items():
        c = click.Command(name, callback=simulation_callback(cls))
        run.add_command(c)
        for nm, trait in class_own_traits(cls):
            c.params.append(trait_to_option(nm, trait))


@ref('C41', 'crowddynamics.cli.main', alt='all_commands_2')
def entry():
    """the installed command offers every simulation of the directory, however it is started"""
    all_commands()


@ref('C42', 'crowddynamics.exceptions.deprecated')
def warned(func: 'any'):
    """deprecated callables warn and then do what they did"""
    import functools

    @functools.wraps(func)
    def new_func(*args, **kwargs):
        warnings.warn_explicit('Call to deprecated function {}.'.format(func.__name__), category=DeprecationWarning,
                               filename=func.__code__.co_filename, lineno=func.__code__.co_firstlineno + 1)
        return func(*args, **kwargs)
    return new_func


@ref('C41', 'crowddynamics.cli.concat_npy')
def concatenate(directory: 'any', basename: 'any'):
    """the recording of a name becomes one file of that name"""
    from crowddynamics.io import load_npy_concatenated
    path = os.path.abspath(directory)
    np.save(os.path.join(path, basename + '.npy'), load_npy_concatenated(path, basename))


@ref('C47', 'specs.fieldsim.check_shape', at='crowddynamics.traits.shape_validator')
def shape_accepted(trait: 'any', value: 'any', n: 'int', m: 'int'):
    """a value is taken as it is if its shape is the declared one, otherwise refused"""
    if value.shape == (n, m):
        return value
    raise TraitError('')


def check_shape(trait, value, n, m):
    from crowddynamics.traits import shape_validator
    return shape_validator(n, m)(trait, value)


@ref('C47', 'specs.fieldsim.check_length', at='crowddynamics.traits.length_validator')
def length_accepted(trait: 'any', value: 'vec2', a: 'real', b: 'real'):
    """a vector is taken as it is if its length is one of the declared ones, otherwise refused"""
    if np.any(np.isclose(length(value), (a, b))):
        return value
    raise TraitError('')


def check_length(trait, value, a, b):
    from crowddynamics.traits import length_validator
    return length_validator(a, b)(trait, value)


@ref('C42', 'crowddynamics.config.import_simulation_callables')
def callables(confpath: 'any'):
    """every function listed in the configuration, by name, from the file it names; what cannot be imported is told and left out"""
    import logging
    from crowddynamics.config import load_config, CROWDDYNAMICS_CFG_SPEC
    from crowddynamics.utils import remember_cwd
    logger = logging.getLogger('crowddynamics.config')
    folder = os.path.dirname(confpath)
    listed = load_config(confpath, configspec=CROWDDYNAMICS_CFG_SPEC).get('simulations', [])
    if not listed:
        return
    for name, entry in listed.items():
        path = entry['path']
        for function in entry['functions']:
            try:
                with remember_cwd(folder):
                    spec = importlib.util.spec_from_file_location(name, path)
                    module = importlib.util.module_from_spec(spec)
                    spec.loader.exec_module(module)
                    try:
                        yield function, getattr(module, function)
                    except AttributeError as error:
                        logger.warning(error)
            except ImportError as error:
                logger.warning(error)


@ref('C41', 'crowddynamics.cli.list_of_simulations')
def listing():
    """the simulations of the directory are listed"""
    from pprint import pformat
    from crowddynamics.cli import import_simulations, Colors
    found = import_simulations()
    click.secho('List of available simulations:', fg=Colors.NEUTRAL)
    click.secho(pformat(found), fg=Colors.POSITIVE)
