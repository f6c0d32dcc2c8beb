"""The Python side of the Python binding scenarios: every operation returns plain values that the native twin must match.

Only what a user of the bindings can reach is used. Nothing here depends on addresses, hashes of addresses or time."""
import gc
import uuid

import knp.core
import knp.base_framework
import knp.core._knp_python_framework_core as core
import knp.base_framework as bf
import knp.base_framework._knp_python_framework_base_framework as bfc
import knp.core.messaging as msg
import knp.neuron_traits as nt
import knp.synapse_traits as st
from knp.core import UID

gc.disable()


class Injected(Exception):
    pass


class Callback:
    """What the bindings are given to call; the living ones are counted."""
    alive = 0

    def __new__(cls, *_):
        Callback.alive += 1
        return object.__new__(cls)

    def __del__(self):
        Callback.alive -= 1


class World:
    pass


W = World()
POPULATIONS = [core.BLIFATNeuronPopulation, core.SynapticResourceSTDPBLIFATNeuronPopulation, core.AltAILIFPopulation]
PROJECTIONS = [core.DeltaSynapseProjection, core.SynapticResourceSTDPDeltaSynapseProjection, core.AdditiveSTDPDeltaSynapseProjection]
BLIFAT = ['n_time_steps_since_last_firing', 'activation_threshold', 'dynamic_threshold', 'threshold_decay', 'threshold_increment',
          'postsynaptic_trace', 'postsynaptic_trace_decay', 'postsynaptic_trace_increment', 'inhibitory_conductance',
          'inhibitory_conductance_decay', 'potential', 'pre_impact_potential', 'potential_decay', 'bursting_phase', 'bursting_period',
          'reflexive_weight', 'reversal_inhibitory_potential', 'absolute_refractory_period', 'potential_reset_value', 'min_potential',
          'total_blocking_period', 'dopamine_value']
RESOURCE = ['dopamine_plasticity_time', 'free_synaptic_resource', 'synaptic_resource_threshold', 'resource_drain_coefficient', 'stability',
            'stability_change_parameter', 'stability_change_at_isi', 'isi_max', 'd_h', 'last_step', 'first_isi_spike', 'is_being_forced']
ALTAI = ['is_diff', 'is_reset', 'leak_rev', 'saturate', 'do_not_save', 'potential', 'activation_threshold', 'negative_activation_threshold',
         'potential_leak', 'potential_reset_value']
NEURON = [BLIFAT, BLIFAT + RESOURCE, ALTAI]
DELTA = ['weight', 'delay', 'output_type']
RULE = ['synaptic_resource', 'min_weight', 'max_weight', 'd_u', 'dopamine_plasticity_period', 'last_spike_step', 'had_hebbian_update',
        'had_contributed']


def reset(uids, neurons, synapses):
    W.uids = [UID(uuid.UUID(bytes=bytes(u))) for u in uids]
    W.neurons, W.synapses = neurons, synapses
    W.pops, W.projs, W.nets, W.models, W.refs = {}, {}, {}, {}, {}
    W.backends, W.execs, W.ends, W.channels, W.calls = {}, {}, {}, {}, []
    W.faulty, W.stopping, W.triple, W.spikes, W.kept = False, None, [], [], []
    return [str(u) for u in W.uids]


def finish():
    """Everything is dropped; what is left of the callbacks is kept alive by nobody."""
    W.stopping = None
    W.kept.clear()
    for d in (W.refs, W.channels, W.execs, W.ends, W.backends, W.models, W.nets, W.projs, W.pops):
        d.clear()
    gc.collect()
    return Callback.alive


def neuron(t, n):
    return [float(getattr(n, a)) for a in NEURON[t]]


def synapse(t, s):
    params, i, j = s
    r = [float(getattr(params, a)) for a in DELTA]
    if t == 1:
        r += [float(getattr(params.rule, a)) for a in RULE]
    return r + [float(i), float(j)]


def warm():
    """Boost.Python makes classes of iterators and remembers conversions when they are first used, and what it remembers is wrong if
    there is no memory then."""
    def first():
        W.first = (UID(uuid.UUID(int=1)), bf.Network(UID(uuid.UUID(int=1))))

    def population(t):
        u, n = W.first
        x = [nt.BLIFATNeuronParameters, nt.SynapticResourceSTDPBLIFATNeuronParameters, nt.AltAILIFNeuronParameters][t]
        q = POPULATIONS[t](u, lambda i: x(), 1)
        n.add_population(q)
        return [neuron(t, m) for m in q]

    def projection(t):
        u, n = W.first
        x = [st.DeltaSynapseParameters, st.SynapticResourceSTDPDeltaSynapseParameters][t]
        q = PROJECTIONS[t](u, u, u, lambda i: (x(), 0, 0), 1)
        n.add_projection(q)
        return [synapse(t, m) for m in q]

    steps = [first] + [lambda t=t: population(t) for t in range(3)] + [lambda t=t: projection(t) for t in range(2)]
    steps += [lambda: list(PROJECTIONS[2](*[W.first[0]] * 3)), lambda: list(W.first[1].populations_range()),
              lambda: list(W.first[1].projections_range())]
    for step in steps:
        try:
            step()
        except Exception:       # pylint: disable = broad-except
            pass                # the runs will tell
    W.first = None


warm()


WRONG = [7, 'text', [], object(), (), 1.5, {}]


class Neurons(Callback):
    """A generator function that does what its plan says."""

    def __init__(self, t, plan):
        self.t, self.plan = t, plan

    def __call__(self, i):
        W.calls.append(i)
        what = self.plan[i] if i < len(self.plan) else -1
        kept = len(W.neurons[self.t]) - 1
        if what >= 0 and self.t == 1 and what // (kept + 1) == 2:
            n = W.neurons[1][kept]      # one object, changed every time
            n.stability = what % 5 / 4
            return n
        if what >= 0:
            return W.neurons[self.t][what % kept]
        if what == -1:
            return None
        if what == -2:
            raise Injected(i)
        if what == -4:
            return W.neurons[1][i % kept] if self.t == 0 else None
        return (WRONG + [W.neurons[2 - self.t // 2 * 2][0], W.synapses[0][0]])[(i - what) % (len(WRONG) + 2)]


class Synapses(Callback):
    def __init__(self, t, plan):
        self.t, self.plan = t, plan

    def __call__(self, i):
        W.calls.append(i)
        what, a, b = self.plan[i] if i < len(self.plan) else (-1, 0, 0)
        if what >= 0:
            s = W.synapses[self.t][what % len(W.synapses[self.t])]
            if self.t == 0 and what % 2:
                s = st.DeltaSynapseParameters(s.weight, s.delay, s.output_type)
            if what % 5 == 3:
                W.triple[:] = [s, a, b]     # one object, changed every time
                return W.triple
            return [s, a, b] if what % 5 == 4 else (s, a, b)
        if what == -1:
            return None
        if what == -2:
            raise Injected(i)
        s = W.synapses[self.t][0]
        wrong = WRONG + [(s, a), (s, a, b, 0), (a, s, b), (s, 'x', b), (s, a, None), (W.neurons[0][0], a, b), (None, a, b), (s, -1 - a, b)]
        return wrong[(i - what) % len(wrong)]


def calls():
    r = list(W.calls)
    W.calls.clear()
    return r


# ---- populations and projections -----------------------------------------------------------------------------------------------------
def pop(slot, t, u, plan):
    a = [W.uids[u]] if u >= 0 else []
    p = POPULATIONS[t](*a, Neurons(t, plan), len(plan))
    r = str(p.uid)
    W.pops[slot] = (t, p)
    return r


def pop_add(slot, plan):
    t, p = W.pops[slot]
    p.add_neurons(Neurons(t, plan), len(plan))


def pop_remove(slot, i):
    W.pops[slot][1].remove_neuron(i)


def pop_remove_several(slot, indexes):
    W.pops[slot][1].remove_neurons(indexes)


def pop_set(slot, i, attribute, value):
    setattr(W.pops[slot][1][i], attribute, value)


def pop_look(slot, by_index):
    t, p = W.pops[slot]
    return [str(p.uid), len(p), [neuron(t, p[i]) for i in range(len(p))] if by_index else [neuron(t, n) for n in p]]


def pop_outside(slot, off):
    t, p = W.pops[slot]
    n = p[len(p) + off]
    return neuron(t, n)


def proj(slot, t, u, pre, post, plan):
    a = [W.uids[x] for x in (u, pre, post) if x >= 0]
    if plan is not None:
        a += [Synapses(t, plan), len(plan)]
    p = PROJECTIONS[t](*a)
    r = str(p.uid)
    W.projs[slot] = (t, p)
    return r


def proj_add(slot, plan):
    t, p = W.projs[slot]
    p.add_synapses(Synapses(t, plan), len(plan))


def proj_look(slot):
    t, p = W.projs[slot]
    return [str(p.uid), len(p), [synapse(t, s) for s in p] if t < 2 else []]


def proj_get(slot, i):
    t, p = W.projs[slot]
    return synapse(t, p[i])


class OddUuid(uuid.UUID):
    def __init__(self, b):
        super().__init__(int=5)
        object.__setattr__(self, 'odd', b)

    @property
    def bytes(self):
        return self.odd

    @bytes.setter
    def bytes(self, b):
        pass

    __slots__ = ('odd',)


def misuse(slot, what):
    """Calls that no signature allows; each must raise and change nothing."""
    t, p = W.pops[slot]
    if what == 0:
        return p.add_neurons(5, 2)
    if what == 1:
        return p.add_neurons(Neurons(t, []))
    if what == 2:
        return p.add_neurons(Neurons(t, [0]), -1)
    if what == 3:
        return p.remove_neuron('first')
    if what == 4:
        return POPULATIONS[t](W.neurons[0][0], 3)
    if what == 5:
        return POPULATIONS[t](W.uids[0], 3, Neurons(t, []))
    if what == 6:
        p.uid = W.uids[0]
    if what == 7:
        return core.DeltaSynapseProjection(W.uids[0])
    if what == 8:
        return core.DeltaSynapseProjection(W.uids[0], W.uids[1], 5, 2)
    if what == 9:
        return p[None]
    if what == 10:
        return bf.Network().add_population(core.DeltaSynapseProjection(W.uids[0], W.uids[1]))
    if what == 11:
        return bf.Network().add_projection(p)
    if what == 12:
        return bf.Network().remove_population(uuid)
    # An identifier of another length.
    return UID(OddUuid([b'', b'123456789', b'0' * 17][what - 13]))


# ---- references that outlive what they came from -----------------------------------------------------------------------------------------
def hold(ref, kind, slot, i):
    if kind == 0:
        t, p = W.pops[slot]
        W.refs[ref] = ('neuron', t, p[i])
    elif kind == 1:
        t, p = W.pops[slot]
        it = iter(p)
        for _ in range(i):
            next(it)
        W.refs[ref] = ('neurons', t, it)
    elif kind == 2:
        t, p = W.projs[slot]
        it = iter(p)
        for _ in range(i):
            next(it)
        W.refs[ref] = ('synapses', t, it)
    elif kind == 3:
        W.refs[ref] = ('network', 0, W.models[slot].network)
    elif kind == 4:
        t, p = W.projs[slot]
        W.refs[ref] = ('synapse', t, list(p)[i])


def release(ref):
    kind, t, what = W.refs.pop(ref)
    if kind == 'neuron':
        return neuron(t, what)
    if kind == 'neurons':
        return [neuron(t, n) for n in what]
    if kind == 'synapses':
        return [synapse(t, s) for s in what]
    if kind == 'synapse':
        return synapse(t, what)
    return [str(what.get_uid()), what.populations_count, what.projections_count]


def forget(ref):
    W.refs.pop(ref, None)


def drop(what, slot, collect):
    [W.pops, W.projs, W.nets, W.models, W.backends, W.execs, W.ends, W.channels][what].pop(slot, None)
    if collect:
        gc.collect()


# ---- networks and models -------------------------------------------------------------------------------------------------------------
def net(slot, u):
    W.nets[slot] = bf.Network(W.uids[u]) if u >= 0 else bf.Network()
    return str(W.nets[slot].get_uid())


def net_look(slot):
    n = W.nets[slot]
    return [str(n.get_uid()), n.populations_count, n.projections_count]


def net_add(slot, pop_slot):
    W.nets[slot].add_population(W.pops[pop_slot][1])


def net_connect(slot, proj_slot):
    W.nets[slot].add_projection(W.projs[proj_slot][1])


def net_remove(slot, what, u):
    (W.nets[slot].remove_population if what == 0 else W.nets[slot].remove_projection)(W.uids[u])


def net_all(slot):
    n = W.nets[slot]
    return [[[str(p.uid), len(p)] for p in n.populations_range()], [[str(p.uid), len(p)] for p in n.projections_range()]]


def net_get(slot, what, u, t):
    r = (W.nets[slot].get_population if what == 0 else W.nets[slot].get_projection)(W.uids[u])
    return [str(r.uid), len(r), [neuron(t, x) for x in r] if what == 0 else [synapse(t, x) for x in r] if t < 2 else []]


def model(slot, net_slot):
    W.models[slot] = bf.Model(W.nets.pop(net_slot))
    return bool(W.models[slot].get_uid())


def model_net(slot, net_slot):
    W.models[slot].network = W.nets.pop(net_slot)


def model_channel(slot, what, channel, u):
    (W.models[slot].add_input_channel if what == 0 else W.models[slot].add_output_channel)(W.uids[channel], W.uids[u])


def model_look(slot):
    n = W.models[slot].network
    return [str(n.get_uid()), n.populations_count, n.projections_count]


def model_add(slot, pop_slot):
    W.models[slot].network.add_population(W.pops[pop_slot][1])


# ---- identifiers --------------------------------------------------------------------------------------------------------------------------
def uids(a, b):
    x, y = W.uids[a], UID(uuid.UUID(str(W.uids[b])))
    d = {x: 1, y: 2}
    return [x == y, x != y, x < y, y < x, bool(x), str(x), hash(x) == hash(y), len(d), d[x], UID(x) == x, str(UID(y)), bool(UID(False)),
            bool(UID(True)), UID() == UID(), str(UID(uuid.UUID(int=0))), x.tag.size, x.tag.is_nil]


def hashes(a):
    return [hash(W.uids[a]) == hash(UID(W.uids[a])), core.uid_hash()(W.uids[a]) & 0xffffffff]


# ---- messages -----------------------------------------------------------------------------------------------------------------------------
KINDS = [st.OutputType.EXCITATORY, st.OutputType.INHIBITORY_CURRENT, st.OutputType.INHIBITORY_CONDUCTANCE, st.OutputType.DOPAMINE,
         st.OutputType.BLOCKING]


def impact_message(m):
    return [str(m.header.sender_uid), m.header.send_time, str(m.presynaptic_population_uid), str(m.postsynaptic_population_uid), m.is_forcing,
            [[i.connection_index, i.impact_value, KINDS.index(i.synapse_type), i.presynaptic_neuron_index, i.postsynaptic_neuron_index]
             for i in m.impacts]]


def spike_message(m):
    return [str(m.header.sender_uid), m.header.send_time, list(m.neuron_indexes)]


def keep(t, messages):
    """What was received stays what it was."""
    W.kept.append((t, messages, [m for m in messages][-1:]))


def recall():
    r = [[(spike_message if t == 0 else impact_message)(m) for m in [*messages, *last]] for t, messages, last in W.kept]
    W.kept.clear()
    return r


CLASSES = [core.SpikeMessage, core.SynapticImpactMessage]


def backend(slot, path):
    W.backends[slot] = core.BackendLoader().load(path)


def known(path):
    return core.BackendLoader.is_backend(path)


def backend_uid(slot):
    return str(W.backends[slot].uid)


def end(slot, b):
    W.ends[slot] = W.backends[b].message_bus.create_endpoint()


def subscribe(slot, t, receiver, senders):
    W.ends[slot].subscribe(CLASSES[t], W.uids[receiver], [W.uids[s] for s in senders])


def unsubscribe(slot, t, receiver):
    return W.ends[slot].unsubscribe(CLASSES[t], W.uids[receiver])


def remove_receiver(slot, receiver):
    W.ends[slot].remove_receiver(W.uids[receiver])


def send_spikes(slot, sender, time, indexes):
    m = core.SpikeMessage((W.uids[sender], time), indexes)
    W.ends[slot].send_message(m)
    r = [str(m), str(m.header), list(m.neuron_indexes)]
    m.header.send_time += 1     # what was sent is a copy
    m.neuron_indexes.append(77)
    return r


def send_impact(slot, sender, time, pre, post, forcing, impacts):
    m = core.SynapticImpactMessage()
    m.header.sender_uid = W.uids[sender]
    m.header.send_time = time
    m.presynaptic_population_uid = W.uids[pre]
    m.postsynaptic_population_uid = W.uids[post]
    m.is_forcing = forcing
    for k, (connection, value, kind, a, b) in enumerate(impacts):
        i = core.SynapticImpact()
        i.connection_index, i.impact_value, i.synapse_type = connection, value, KINDS[kind]
        i.presynaptic_neuron_index, i.postsynaptic_neuron_index = a, b
        m.impacts.append(i)
        if k % 2:
            m.impacts[k] = i
    W.ends[slot].send_message(m)
    m.is_forcing = not forcing      # what was sent is a copy
    m.impacts.append(core.SynapticImpact())


def route(b, how):
    bus = W.backends[b].message_bus
    return bus.step() if how else bus.route_messages()


def receive(slot):
    return W.ends[slot].receive_all_messages()


def unload(slot, t, receiver, kept):
    r = W.ends[slot].unload_messages(CLASSES[t], W.uids[receiver])
    if kept:
        keep(t, r)
    if t == 0:
        return [spike_message(m) for m in r]
    return [impact_message(m) for m in r]


def misuse_end(slot, what, receiver):
    e = W.ends[slot]
    if what == 0:
        return e.subscribe(5, W.uids[receiver], [])
    if what == 1:
        return e.subscribe(core.UID, W.uids[receiver], [])
    if what == 2:
        return e.subscribe(core.SpikeMessage, W.uids[receiver], [W.uids[0], 5])
    if what == 3:
        return e.unload_messages(core.UID, W.uids[receiver])
    if what == 4:
        return e.send_message(5)
    if what == 5:
        return core.SpikeMessage((5, 5), [1])
    if what == 6:
        return core.SpikeMessage((W.uids[0], 5), [1, 'x'])
    if what == 7:
        return core.SpikeMessage((W.uids[0], -5), [1])
    if what == 8:
        return e.subscribe(core.SpikeMessage, None, [])
    return e.unsubscribe(core.SpikeMessage, 'x')


# ---- runs ---------------------------------------------------------------------------------------------------------------------------------
class Input(Callback):
    def __init__(self, k, plan):
        self.k, self.plan = k, plan

    def __call__(self, step):
        W.calls.append(1000000 + self.k * 10000 + step)
        what, spikes = self.plan[step % len(self.plan)] if self.plan else (0, [])
        if what == 1 and W.faulty:
            raise Injected(step)
        if what == 2 and W.faulty:
            return [7, (1, 2), 'text', None, [1, 'x'], [1.5], [-1]][step % 7]
        if step % 3 == 1:
            return list(spikes)
        W.spikes[:] = spikes    # one object, changed every time
        return W.spikes


class Predicate(Callback):
    """Answers yes until `stop`; `form` says what yes and no look like."""

    def __init__(self, k, stop, form, bad, how):
        self.k, self.stop, self.form, self.bad, self.how = k, stop, form, bad, how

    def __call__(self, step):
        W.calls.append(2000000 + self.k * 10000 + step)
        if step == self.bad:
            if self.how == 0:
                raise Injected(step)
            if self.how == 1:
                return [object(), 'yes', [1], 1.5][step % 4]
            if self.how == 2:
                W.stopping.stop()
                W.calls.append('stopped')
        go = step < self.stop
        if self.form == 0:
            return go
        if self.form == 1:
            return max(self.stop - step, 0) * 1000003
        if self.form == 2:
            return step + 100000 if go else None
        return 1 if go else 0


def raw_load(b, pops, projs):
    W.backends[b].load_all_populations([W.pops[p][1] for p in pops])
    W.backends[b].load_all_projections([W.projs[p][1] for p in projs])


def raw_init(b):
    W.backends[b]._init()


def raw_step(b):
    W.backends[b]._step()


def raw_start(b, a, c):
    W.faulty = True
    x = W.backends[b]
    W.stopping = x
    if c is None:
        x.start(Predicate(0, *a))
    else:
        x.start(Predicate(0, *a), Predicate(1, *c))


def raw_look(b):
    x = W.backends[b]
    return [x.get_step(), x.running]


def raw_subscribe(b, t, receiver, senders):
    W.backends[b].subscribe(CLASSES[t], W.uids[receiver], [W.uids[s] for s in senders])


def raw_learning(b, on):
    (W.backends[b].start_learning if on else W.backends[b].stop_learning)()


def raw_remove(b, what, us):
    (W.backends[b].remove_populations if what == 0 else W.backends[b].remove_projections)([W.uids[u] for u in us])


def executor(slot, m, b, inputs):
    W.execs[slot] = bf.ModelExecutor(W.models[m], W.backends[b], {W.uids[u]: Input(k, plan) for k, (u, plan) in enumerate(inputs)})


def exec_start(slot, a, faulty):
    W.faulty = faulty
    W.stopping = W.execs[slot]
    W.execs[slot].start(Predicate(0, *a))


def exec_look(slot):
    b = W.execs[slot].get_backend()
    return [b.get_step(), b.running]


def exec_learning(slot, on):
    (W.execs[slot].start_learning if on else W.execs[slot].stop_learning)()


def channel(slot, e, u):
    W.channels[slot] = W.execs[e].get_output_channel(W.uids[u])
    return str(W.channels[slot].get_uid())


def read(slot, first, last):
    r = W.channels[slot].read_some_from_buffer(first, last)
    keep(0, r)
    return [spike_message(m) for m in r]


def update(slot):
    W.channels[slot].update()


class Observer(Callback):
    def __init__(self, k, t, bad):
        self.k, self.t, self.bad = k, t, bad

    def __call__(self, messages):
        for m in messages:
            if self.t == 0:
                W.calls.append([self.k, str(m.header.sender_uid), m.header.send_time, list(m.neuron_indexes)])
            else:
                W.calls.append([self.k] + impact_message(m))
        if self.k % 4 == 1:
            keep(self.t, messages)
        if self.k % 4 == 2:     # nobody else's copy changes
            for m in messages:
                if self.t == 0:
                    m.neuron_indexes.append(77)
                else:
                    m.is_forcing = not m.is_forcing
        if W.faulty and messages and messages[0].header.send_time == self.bad:
            raise Injected(self.bad)


def observe(e, k, t, bad, senders):
    (W.execs[e].add_spike_observer if t == 0 else W.execs[e].add_impact_observer)(Observer(k, t, bad), [W.uids[s] for s in senders])


def do(name, args):
    try:
        r = globals()[name](*args)
        return ['ok', r]
    except Injected as e:
        return ['injected', e.args[0]]
    except TypeError as e:      # includes ArgumentError
        return ['type', str(e)]
    except RuntimeError as e:
        return ['runtime', str(e)]
    except BaseException as e:  # pylint: disable = broad-except
        return [type(e).__name__, str(e)]
