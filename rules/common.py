"""Shared by the property checks."""
from engine import driver
from engine.absint import Rule, ev, cls, refine as assume_in
from engine.ir import callee_name


class Broken(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier
        self.reports = []
        self.coverage = {}
        self.assumptions = [
            'translation units and flags of engine/compdb.json (the build of this repository), clang 18 front end at -O0, x86-64',
            'memory cells are told apart by struct field and object; a write through an unrelated pointer type does not change a named field',
            'calls through the few unresolved function pointers and into external libraries behave as documented (no locking, no effect on tracked state)',
        ]
        self.P, self.cg, self.mod = driver.load()
        if len(self.P.units) < 200: raise Broken('only %d units analysed' % len(self.P.units))
        self.coverage['units'] = len(self.P.units)
        self.coverage['functions_in_program'] = len(self.P.uniq)

    @property
    def thorough(self): return self.tier == 'thorough'

    def fn(self, name, unit=None):
        f = self.P.find(name, unit) if unit else None
        if f is None:
            c = self.P.findall(name)
            f = c[0] if c else None
        if f is None: raise Broken('function %s not found' % name)
        return f

    def rule(self, cls, keys, arg=None, steps=30000, refine=True, levels=2, jobs=None):
        o = driver.run(cls, keys, arg, steps, jobs)
        if o['errors']:
            raise Broken('analysis error in %s:\n%s' % o['errors'][0])
        if refine and o['reports']: driver.refine(cls, o, arg, steps, levels)
        self.reports.extend(o['reports'])
        c = self.coverage
        c['functions_analysed'] = c.get('functions_analysed', 0) + o['functions']
        c['abstract_states'] = c.get('abstract_states', 0) + o['stat'].get('states', 0)
        c['call_sites_evaluated'] = c.get('call_sites_evaluated', 0) + o['stat'].get('calls', 0)
        if o['incomplete']: c.setdefault('incomplete', []).extend(o['incomplete'])
        return o

    def report(self, f, i, msg, rule='', chain=None, key=None, line=None):
        self.reports.append({'rule': rule, 'file': f.file, 'line': line or (i[2] if i is not None and i[2] else f.line), 'function': f.name, 'message': msg,
                             'chain': chain or [f.name], 'path': [], 'key': '%s|%s|%s' % (rule, f.name, key or msg)})

    def floor(self, what, n, least):
        """a rule that finds (almost) nothing to check has lost its anchors"""
        self.coverage[what] = n
        if n < least: raise Broken('%s: only %d found, at least %d expected' % (what, n, least))

    def explain(self, text): self.coverage['explanation'] = text


def calls(f):
    for bl in f.bb:
        for i in bl:
            if i[0] == 'call': yield i
