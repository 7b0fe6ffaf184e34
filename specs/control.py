"""Simulation objects, the logic tree and the worker process."""
from datetime import datetime

from anytree import PreOrderIter, PostOrderIter
from dateutil.tz.tz import tzutc

from crowddynamics.exceptions import CrowdDynamicsException


@ref('C06 C09', 'crowddynamics.simulation.base.SimulationBase.run')
def run(self: 'obj:crowddynamics.simulation.base.SimulationBase'):
    """updates until the exit condition, asked before every update, is true; without a condition it never stops"""
    while True:
        if self.exit_condition is not None and self.exit_condition(self):
            break
        self.update()


@ref('C06', 'crowddynamics.simulation.base.CrowdDynamicsObject._default_name')
def default_name(self: 'obj:crowddynamics.simulation.base.CrowdDynamicsObject'):
    """an unnamed object is called after its class"""
    return self.__class__.__name__


@ref('C06', 'crowddynamics.simulation.base.SimulationBase._default_timestamp')
def default_time(self: 'obj:crowddynamics.simulation.base.SimulationBase'):
    """the current time in utc"""
    return datetime.now(tz=tzutc())


@ref('C06', 'crowddynamics.simulation.base.SimulationBase.name_with_timestamp')
def stamped(self: 'obj:crowddynamics.simulation.base.SimulationBase'):
    """name and time joined by an underscore, without spaces in the time"""
    return '_'.join((self.name, str(self.timestamp).replace(' ', '_')))


@ref('C06', 'crowddynamics.simulation.base.SimulationBase.__init__')
def create(self: 'obj:crowddynamics.simulation.base.SimulationBase', *args, **kwargs):
    """metadata starts with the name and the time"""
    super().__init__(*args, **kwargs)
    self.metadata['name'] = self.name
    self.metadata['timestamp'] = str(self.timestamp)


@ref('C07 C10', 'crowddynamics.simulation.base.LogicNodeBase.inject_before')
def before(self: 'obj:crowddynamics.simulation.base.LogicNodeBase', node: 'any'):
    """the new node takes this node's place and this node becomes its child"""
    parent = self.parent
    self.parent = node
    node.parent = parent


@ref('C07', 'crowddynamics.simulation.base.LogicNodeBase.inject_after')
def after(self: 'obj:crowddynamics.simulation.base.LogicNodeBase', node: 'any'):
    """the new node becomes the only child and takes over all former children"""
    for child in self.children:
        child.parent = node
    node.parent = self


@ref('C07 C08', 'crowddynamics.simulation.base.LogicNodeBase.add_children')
def add(self: 'obj:crowddynamics.simulation.base.LogicNodeBase', node: 'any'):
    """the node becomes a child; the parent is returned"""
    node.parent = self
    return self


@ref('C07 C08 C44', 'crowddynamics.simulation.base.LogicNodeBase.__lshift__', also=[{'other': 'obj:crowddynamics.simulation.base.LogicNodeBase'}])
def shift(self: 'obj:crowddynamics.simulation.base.LogicNodeBase', other: 'any'):
    """a node or every node of a collection becomes a child, in order; the parent is returned"""
    from crowddynamics.simulation.base import LogicNodeBase
    if isinstance(other, LogicNodeBase):
        other.parent = self
    else:
        for child in other:
            child.parent = self
    return self


@ref('C07 C10', 'crowddynamics.simulation.base.LogicNodeBase.__getitem__')
def find(self: 'obj:crowddynamics.simulation.base.LogicNodeBase', item: 'any'):
    """the first node of that name anywhere in the tree, from any node; KeyError when there is none"""
    for node in PreOrderIter(self.root):
        if node.name == item:
            return node
    raise KeyError('Key: "{}" not in the tree.'.format(item))


@ref('C08 C44', 'crowddynamics.simulation.multiagent.MultiAgentSimulation.update', again='logic.root')
def cycle(self: 'obj:crowddynamics.simulation.multiagent.MultiAgentSimulation'):
    """every node of the whole tree is updated once, children before parents, then the iteration count grows by one"""
    for node in PostOrderIter(self.logic.root):
        node.update()
    self.data['iterations'] = self.data['iterations'] + 1


@ref('C06 C09', 'crowddynamics.simulation.multiagent.MultiAgentProcess.run')
def work(self: 'obj:crowddynamics.simulation.multiagent.MultiAgentProcess'):
    """the simulation runs until stopped; a simulation error is logged and stops it; the end marker is queued last, however the run ended"""
    self.simulation.exit_condition = lambda _: self.exit.is_set()
    try:
        self.simulation.run()
    except CrowdDynamicsException as error:
        self.logger.error('Simulation stopped to error: {}'.format(error))
        self.exit.set()
    finally:
        self.queue.put(self.EndProcess)


@ref('C09', 'crowddynamics.simulation.multiagent.MultiAgentProcess.stop')
def stop(self: 'obj:crowddynamics.simulation.multiagent.MultiAgentProcess'):
    """stopping sets the event the exit condition reads"""
    self.exit.set()


@ref('C10', 'crowddynamics.simulation.logic.SaveSimulationData.update', again='simulation.field.obstacles simulation.agents.array')
def save(self: 'obj:crowddynamics.simulation.logic.SaveSimulationData'):
    """the condition is asked once per cycle; agents and data are both recorded every cycle and both written exactly when it holds"""
    now = self.save_condition(self.simulation)
    self.save_agent_npy.send(self.simulation.agents.array)
    self.save_agent_npy.send(now)
    self.save_data_csv.send(self.simulation.data)
    self.save_data_csv.send(now)


@ref('C10', 'crowddynamics.simulation.logic.SaveSimulationData.full_path')
def place(self: 'obj:crowddynamics.simulation.logic.SaveSimulationData'):
    """the save directory below the absolute base directory"""
    import os
    return os.path.join(os.path.abspath(self.base_directory), self.save_directory)


@ref('C10', 'crowddynamics.simulation.logic.SaveSimulationData._default_save_directory')
def default_place(self: 'obj:crowddynamics.simulation.logic.SaveSimulationData'):
    """named after the simulation and its time"""
    return self.simulation.name_with_timestamp


@ref('C10', 'crowddynamics.simulation.logic.SaveSimulationData.add_to_simulation_logic')
def attach(self: 'obj:crowddynamics.simulation.logic.SaveSimulationData'):
    """the saving node becomes the parent of Reset, so that it is updated after it"""
    self.simulation.logic['Reset'].inject_before(self)


@ref('C10', 'crowddynamics.simulation.logic.SaveSimulationData.__init__')
def prepare(self: 'obj:crowddynamics.simulation.logic.SaveSimulationData', simulation: 'any', *args, **kwargs):
    """the directory exists before anything is written; metadata and the whole geometry are written once, agents and data are started there"""
    import os
    from crowddynamics.io import save_csv, save_npy, save_geometry_json
    super().__init__(simulation, *args, **kwargs)
    os.makedirs(self.full_path, exist_ok=True)
    once = save_csv(self.full_path, 'metadata')
    once.send(None)
    once.send(self.simulation.metadata)
    once.send(True)
    field = self.simulation.field
    save_geometry_json(os.path.join(self.full_path, 'geometry.json'),
                       dict(domain=field.domain, obstacles=field.obstacles, targets=field.targets, spawns=field.spawns))
    self.save_data_csv = save_csv(self.full_path, 'data')
    self.save_data_csv.send(None)
    self.save_agent_npy = save_npy(self.full_path, 'agents')
    self.save_agent_npy.send(None)


@ref('C08', 'crowddynamics.simulation.multiagent.MultiAgentSimulation.__init__')
def counters(self: 'obj:crowddynamics.simulation.multiagent.MultiAgentSimulation', *args, **kwargs):
    """a new simulation has done no iterations and no time has passed"""
    super().__init__(*args, **kwargs)
    self.data['iterations'] = 0
    self.data['time_tot'] = 0.0
    self.data['dt'] = 0.0


@ref('C07', 'crowddynamics.simulation.logic.LogicNode.__init__')
def node(self: 'obj:crowddynamics.simulation.logic.LogicNode', simulation: 'any', *args, **kwargs):
    """a node works on the simulation it was made for"""
    super().__init__(*args, **kwargs)
    self.simulation = simulation


@ref('C09', 'crowddynamics.simulation.multiagent.MultiAgentProcess.__init__')
def process(self: 'obj:crowddynamics.simulation.multiagent.MultiAgentProcess', simulation: 'any', queue: 'any'):
    """a process keeps its simulation, its queue and an exit event of its own"""
    from multiprocessing import Event
    super().__init__()
    self.simulation = simulation
    self.exit = Event()
    self.queue = queue
