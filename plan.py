"""Which jobs decide which property."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'known_findings.json'), encoding='utf8') as _f:
    KNOWN = [k for k in json.load(_f) if isinstance(k, dict)]

LIFE = ['C01', 'C02', 'C03', 'C07', 'C08', 'C09']
DYN = ['C04', 'C05', 'C06', 'C10', 'C11']
OBS = ['C18', 'C19', 'C20']
AERO = {'C22': 60, 'C23': 150, 'C24': 300, 'C25': 200, 'C26': 120, 'C27': 200}
UTIL = {'C28': 80, 'C29': 400, 'C30': 60}
VEH = ['C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C21']


def trace(module, driver, n, chunks):
    return dict(kind='trace', module=module, driver=driver, n=n, chunks=chunks)


ENTITY = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C10']
ENTITY_BASE = 'SPECIFICATION Spec\nVIEW view\nCONSTRAINT Bound\nACTION_CONSTRAINT Dump\nCHECK_DEADLOCK FALSE\n'


def entity_models(prop, q):
    """the lifecycle model: one entity with every transition replayed in the code, and (C07, C08) two entities side by side"""
    out = []
    for k in (1, 2, 3, 4):
        c = dict(Ent='{1}', CfgIds='{%d}' % k, Hs='{0, 1, 2}', Vals='MCVals', SetStates='MCSet', Forms='FormsFull', Printing='TRUE')
        out.append(dict(kind='mc', name=f'one{k}', module='EntityMC', base=ENTITY_BASE, consts=c, props=[prop], replay='mbt', workers=2))
        if not q:
            c = dict(c, Vals='MCValsWide', SetStates='MCSetWide', Forms='FormsArr', Hs='{0, 1, 2, 3}')
            out.append(dict(kind='mc', name=f'wide{k}', module='EntityMC', base=ENTITY_BASE, consts=c, props=[prop], replay='mbt', workers=2))
    if prop in ('C07', 'C08'):
        for k in (4, ) if q else (1, 3, 4):
            c = dict(Ent='{1, 2}', CfgIds='{%d}' % k, Hs='{1}', Vals='MCValsSmall', SetStates='MCSetSmall', Forms='FormsArr', Printing='FALSE')
            out.append(dict(kind='mc', name=f'two{k}', module='EntityMC', base=ENTITY_BASE, consts=c, props=[prop], workers=2))
    return out


DUMP = 'SPECIFICATION Spec\nVIEW view\nACTION_CONSTRAINT Dump\nCHECK_DEADLOCK FALSE\n'


def small_models(prop, q):
    """models of the utilities and of the engine, with every transition replayed in the code"""
    def mc(module, consts, props, invs, **kw):
        return dict(dict(kind='mc', name=module, module=module, base=DUMP, consts=dict(consts, Printing='TRUE'), props=props, invs=invs,
                         replay='umbt', workers=2), **kw)
    if prop == 'C28':
        c = dict(Starts='{0, 3}', Ends='{0, 2, 5, 7}', Steps='MCSteps', Tols='{0, 1}', Rates='MCRates', Y0s='{0, 3}')
        if not q:
            c.update(Starts='MCStartsWide', Ends='MCEndsWide', Steps='MCStepsWide', Tols='{0, 1, 2, 3}', Y0s='MCY0sWide')
        return [mc('IvpMC', c, ['Ends_', 'Rests', 'Finishes'], ['Inside', 'Lands', 'Refuses', 'Regular'])]
    if prop == 'C29':
        return [mc('VerifyMC', dict(MaxRun=2 if q else 3, Depth=2 if q else 3), ['Final', 'Exact'], ['Unlimited'])]
    if prop == 'C30':
        c = dict(Obj='{1, 2}', Names='{"a", "b", "c"}' if q else '{"a", "b", "c", "d"}', Values='{1, 2}')
        return [mc('FreezeMC', c, ['NoGrowth', 'Updates', 'Apart', 'Stays'], [])]
    if prop == 'C23':
        c = dict(Throttles='{0, 50, 77, 78, 100}', Starts='{0, 49, 50, 75, 100}', MaxTime=4)
        if not q:
            c = dict(Throttles='{0, 10, 25, 50, 70, 77, 78, 85, 100}', Starts='{0, 25, 40, 49, 50, 60, 75, 100}', MaxTime=4)
        return [mc('EngineMC', c, ['Towards', 'Rates'], ['InRange', 'Settles'])]
    return []


def jobs(prop, tier):
    q = tier == 'quick'
    out = traces(prop, q) + small_models(prop, q)
    if prop in ENTITY:
        out += entity_models(prop, q)
    if prop in ('C01', 'C04', 'C05', 'C06'):
        out.append(dict(kind='apa', name='proof', module='PipelineAp', steps=[dict(init='Init', inv='Inv', length=0),
                                                                          dict(init='Any', inv='Inv', length=1)]))
    return out


def traces(prop, q):
    if prop in VEH:
        return [trace('TrVeh', 'veh', 200 if q else 800, 8 if q else 16)]
    if prop in LIFE:
        return [trace('TrLife', 'life', 50 if q else 500, 8 if q else 16)]
    if prop in DYN:
        return [trace('TrDyn', 'dyn', 80 if q else 500, 8 if q else 16)]
    if prop in OBS:
        return [trace('TrObs', 'obs', 500 if q else 1200, 8 if q else 16)]
    if prop in AERO:
        return [trace('TrAero', 'aero', AERO[prop] * (6 if q else 30), 8 if q else 16)]
    if prop in UTIL:
        return [trace('TrUtil', 'util', UTIL[prop] * (3 if q else 20), 8 if q else 16)]
    raise SystemExit('no such check: ' + prop)


def assumptions(prop):
    out = ['floating-point results are compared with the specification within stated tolerances',
           'the recorded executions are a seeded random sample of inputs and histories; the specification decides each of them']
    if prop in ENTITY or small_models(prop, True):
        out.append('the finite models are exhaustive for their stated constants only')
    return out


def describe(prop):
    kinds = {j['kind'] for j in jobs(prop, 'quick')}
    t = 'TLA+ specification; TLC validates traces recorded from the real code'
    n = ('TLC evaluates the specification (fixed-point arithmetic written in TLA+) on every recorded call of the real code; '
         'assurance covers the recorded, seeded inputs and histories.')
    if 'mc' in kinds:
        t += '; exhaustive model checking with every model transition replayed in the code'
        n += (' The finite model of the mechanism is explored exhaustively by TLC, the property is checked on it, and each of its '
              'transitions is executed in the real code and compared.')
    if 'apa' in kinds:
        t += '; inductive proof with Apalache'
        n += ' The scalar step pipeline is proved to keep the property for all integers (inductive invariant, Apalache).'
    return t, n + ' Trusted: TLC, Apalache where used, the recording driver, the stated tolerances.'
