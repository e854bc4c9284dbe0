"""C26: component registry."""
import itertools

from mon.core import Family, expect
from nion.utils import Registry

PROPERTY = "C26"
RULE = ("random histories of registering and unregistering components (with and without priorities, equal priorities, partial types, refused calls, and from within listeners of the events), iterating and keeping found sets across changes; "
        "after every step all lookups and the log of events are compared with the set of registrations; non-trivial: at least two components registered at some time")
ASSUMPTIONS = ["components are hashable", "one thread"]
MUST_OBSERVE = ("registered", "unregistered_all", "unregistered_some", "refused", "by_priority", "default_priority", "ties", "from_listener", "kept_sets", "existing", "reregistered", "unregistered_while_existing", "changed_while_iterating")

_serial = itertools.count()


class Component:
    def __init__(self, n, priority):
        self.n = n
        if priority is not None:
            self.priority = priority

    def __repr__(self):
        return f"Component({self.n}, {getattr(self, 'priority', None)})"


class EqComponent(Component):
    """components that are equal only to themselves although they define comparison, and falsy"""

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return 7

    def __bool__(self):
        return False


def gen(rng):
    comps = [[rng.choice([None, None, 0, 10, 49, 50, 51, 100, 50.5]), rng.choice(["plain", "plain", "eq"])] for _ in range(rng.randint(2, 6) if rng.random() < 0.96 else rng.randint(7, 20))]
    ops = []
    if len(comps) > 6:
        ops = [["register", c, rng.sample(range(4), rng.randint(1, 4)), "set"] for c in range(len(comps))]
    for _ in range(rng.randint(3, 22)):
        r = rng.random()
        c = rng.randrange(len(comps))
        types = [t for t in range(4) if rng.random() < 0.45]
        if r < 0.5:
            ops.append(["register", c, types or [rng.randrange(4)], rng.choice(["set", "frozenset", "set_then_changed"])])
        elif r < 0.65:
            ops.append(["unregister", c, None])
        elif r < 0.78:
            ops.append(["unregister", c, types])
        elif r < 0.86:
            ops.append(["existing", rng.randrange(4), rng.random() < 0.3])
        elif r < 0.92:
            ops.append(["keep", rng.randrange(4)])
        elif r < 0.96:
            ops.append(["iterate", rng.randrange(4)])
        else:
            ops.append(["listener", rng.choice(["registered", "unregistered"]), rng.choice(["register", "unregister"]), c, types or [0]])
    return {"comps": comps, "ops": ops}


class World:
    def __init__(self, case, obs):
        self.obs = obs
        serial = next(_serial)
        self.types = [f"type-{serial}-{i}" for i in range(4)]
        self.comps = [(Component if kind == "plain" else EqComponent)(i, p) for i, (p, kind) in enumerate(case["comps"])]
        self.reg = {i: set() for i in range(len(self.comps))}
        self.ever = set()
        self.events = []
        self.want = []
        self.once = {}  # what listeners do at the next event
        self.kept = []
        self.quiet = False
        self.problems = []
        self.l1 = Registry.listen_component_registered_event(lambda c, t: self.event("registered", c, t))
        self.l2 = Registry.listen_component_unregistered_event(lambda c, t: self.event("unregistered", c, t))

    def index(self, component):
        for i, c in enumerate(self.comps):
            if c is component:
                return i
        return None

    def event(self, what, component, types):
        i = self.index(component)
        if i is None:
            self.problems.append(f"{what} event with {component!r}")
            return
        self.events.append((what, i, tuple(sorted(types))))
        if what == "registered" and self.quiet is False:
            for t in types:
                if component not in Registry.get_components_by_type(t) and (i, t) in {(a, b) for a, s in self.reg.items() for b in s}:
                    self.problems.append(f"component {i} is not found by {t} while its registration is reported")
        if self.quiet == "unregister":
            if len([e for e in self.events if e[0] == "registered"]) == 1:
                # unregister some other component while the existing ones are reported
                others = [j for j in self.reg if self.reg[j] and j != i]
                if others:
                    self.obs.count("unregistered_while_existing")
                    self.gone = others[0]
                    self.unregister(others[0], None)
            return
        action = self.once.pop(what, None)
        if action:
            self.obs.count("from_listener")
            kind, c, ts = action
            if kind == "register":
                self.register(c, ts, "set")
            elif self.reg[c]:
                self.unregister(c, None)

    def register(self, c, types, how):
        names = {self.types[t] for t in types}
        arg = frozenset(names) if how == "frozenset" else set(names)
        before = len(self.events)
        if names & self.reg[c]:
            try:
                Registry.register_component(self.comps[c], arg)
            except Exception:
                self.obs.count("refused")
            else:
                self.problems.append("registering again for the same type was not refused")
            if len(self.events) != before:
                self.problems.append("refused registration was reported")
            return
        self.reg[c] |= names
        self.want.append(("registered", c, tuple(sorted(names))))
        self.obs.count("reregistered" if c in self.ever else "registered")
        self.ever.add(c)
        Registry.register_component(self.comps[c], arg)
        if how == "set_then_changed":
            arg.clear()
            arg.add("other")

    def unregister(self, c, types):
        before = len(self.events)
        if types is None:
            if not self.reg[c]:
                try:
                    Registry.unregister_component(self.comps[c])
                except Exception:
                    self.obs.count("refused")
                else:
                    self.problems.append("unregistering an unregistered component was not refused")
                if len(self.events) != before:
                    self.problems.append("refused unregistration was reported")
                return
            names = set(self.reg[c])
            self.obs.count("unregistered_all")
            arg = None
        else:
            names = {self.types[t] for t in types}
            if not self.reg[c]:
                return
            if not names:  # from no types: changes nothing (whether it is reported is not specified)
                Registry.unregister_component(self.comps[c], set())
                self.events[before:] = [e for e in self.events[before:] if e != ("unregistered", c, ())]
                self.obs.count("unregistered_none")
                return
            arg = set(names)
            if names - self.reg[c]:
                try:
                    Registry.unregister_component(self.comps[c], arg)
                except Exception:
                    self.obs.count("refused")
                else:
                    self.problems.append("unregistering from a type not registered was not refused")
                if len(self.events) != before:
                    self.problems.append("refused unregistration was reported")
                return
            if names != self.reg[c]:
                self.obs.count("unregistered_some")
        self.reg[c] -= names
        self.want.append(("unregistered", c, tuple(sorted(names))))
        if arg is None:
            Registry.unregister_component(self.comps[c])
        else:
            Registry.unregister_component(self.comps[c], arg)

    def by_type(self, name):
        return {i for i, s in self.reg.items() if name in s}

    def check(self, what):
        expect(not self.problems, "problem", "after {}: {}", what, self.problems)
        expect(sorted(self.events) == sorted(self.want), "events", "{} fired {} instead of {}", what, self.events, self.want)
        self.events[:] = []
        self.want[:] = []
        for name in self.types:
            found = Registry.get_components_by_type(name)
            indexes = [self.index(c) for c in found]
            want = self.by_type(name)
            expect(None not in indexes and len(indexes) == len(set(indexes)) and set(indexes) == want, "components-by-type", "after {}: found {} instead of {}", what, indexes, want)
            one = Registry.get_component(name)
            if not want:
                expect(one is None, "component-none", "after {}: get_component returns {!r} though none is registered", what, one)
            else:
                i = self.index(one)
                expect(i is not None and i in want, "component-unknown", "after {}: get_component returns {!r}", what, one)
                priorities = {j: getattr(self.comps[j], "priority", 50) for j in want}
                top = max(priorities.values())
                expect(priorities[i] == top, "component-priority", "after {}: get_component returns priority {} though there is {}", what, priorities[i], top)
                if len(set(priorities.values())) > 1:
                    self.obs.count("by_priority")
                    if not hasattr(self.comps[i], "priority"):
                        self.obs.count("default_priority")
                elif len(want) > 1:
                    self.obs.count("ties")
        for found, want in self.kept:
            self.obs.count("kept_sets")
            expect({self.index(c) for c in found} == want and len(found) == len(want), "kept-set", "after {}: set returned earlier is now {} instead of {}", what, found, want)


def execute(case, obs):
    w = World(case, obs)
    most = 0
    try:
        for op in case["ops"]:
            obs.ev(op[0], [sorted(s) != [] for s in w.reg.values()])
            if op[0] == "register":
                w.register(op[1] % len(w.comps), op[2], op[3])
            elif op[0] == "unregister":
                w.unregister(op[1] % len(w.comps), op[2])
            elif op[0] == "keep":
                found = Registry.get_components_by_type(w.types[op[1]])
                w.kept.append((found, w.by_type(w.types[op[1]])))
            elif op[0] == "listener":
                w.once[op[1]] = (op[2], op[3] % len(w.comps), op[4])
            elif op[0] == "iterate":
                name = w.types[op[1]]
                want = w.by_type(name)
                seen = []
                for c in Registry.get_components_by_type(name):
                    i = w.index(c)
                    seen.append(i)
                    if i in w.reg and name in w.reg[i]:
                        obs.count("changed_while_iterating")
                        w.unregister(i, [op[1]])
                expect(sorted(seen) == sorted(want), "iterate", "iterated over {} instead of {}", seen, want)
            else:
                name = w.types[op[1]]
                want = w.by_type(name)
                once, w.once = w.once, {}
                w.quiet = "unregister" if op[2] else True
                w.gone = None
                w.want[:] = []
                del w.events[:]
                Registry.fire_existing_component_registered_events(name)
                w.quiet = False
                w.once = once
                obs.count("existing", len(want))
                for i in want:
                    n = len([e for e in w.events if e == ("registered", i, (name,))])
                    expect(n == 1 or (i == w.gone and n == 0), "existing", "component {} was reported {} times", i, n)
                for e in [e for e in w.events if e[0] == "registered"]:
                    expect(e[1] in want and e[2] == (name,), "existing-extra", "{} was reported", e)
                w.events[:] = [e for e in w.events if e[0] != "registered"]
            w.check(op)
            most = max(most, sum(1 for s in w.reg.values() if s))
        obs.state(tuple(tuple(sorted(t[-1] for t in s)) for s in w.reg.values()))
        obs.nontrivial = most > 1
    finally:
        w.l1.close()
        w.l2.close()
        for i, s in w.reg.items():
            if s:
                try:
                    Registry.unregister_component(w.comps[i])
                except Exception:
                    pass


FAMILIES = [Family("histories", gen, execute, 96000, 400000)]
