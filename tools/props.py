"""Which specifications and which recorded families decide which property."""
import json

def flip_out(t, rng):
    """Changes the weight of some update an output produced."""
    outs = [k for k, e in enumerate(t['ev']) if e[0] == 'out' and e[2]]
    if not outs: return None
    e = t['ev'][rng.choice(outs)]
    e[2][0][2] += 1
    return t

def early_frontier(t, rng):
    """Has an output declare everything complete before the inputs are closed."""
    ks = [k for k, e in enumerate(t['ev']) if e[0] == 'adv']
    if not ks: return None
    t['ev'].insert(ks[0], ['fr', 0, 0, []])
    return t

def flip(op, pos, ok=lambda e: True):
    """Changes a weight in the contents some event of kind `op` reports."""
    def corrupt(t, rng):
        if any(e[0] == 'log' and e[3] == [] for e in t['ev']): return None
        es = [e for e in t['ev'] if e[0] == op and e[pos] and ok(e)]
        if not es: return None
        e = rng.choice(es)
        rng.choice(e[pos])[2] += 1
        return t
    return corrupt

def negate(op, pos):
    """Flips an answer some event of kind `op` reports."""
    def corrupt(t, rng):
        es = [e for e in t['ev'] if e[0] == op]
        if not es: return None
        e = rng.choice(es); e[pos] = not e[pos]
        return t
    return corrupt

def flip_cur(t, rng):
    """Changes a difference some cursor presents."""
    es = [e for e in t['ev'] if e[0] == 'cur' and e[6]]
    if not es: return None
    rng.choice(rng.choice(es)[6])[1] += 1
    return t

def flip_peek(t, rng):
    """Changes a weight in the answer to some peek."""
    es = [e for e in t['ev'] if e[0] == 'peek' and e[4]]
    if not es: return None
    rng.choice(rng.choice(es)[4])[1] += 1
    return t

def undemand(t, rng):
    """Demands a row that no input has."""
    es = [e for e in t['ev'] if e[0] == 'demand' and any(e[4])]
    if not es: return None
    rng.choice([d for d in rng.choice(es)[4] if d])[0][0][0][1][1] += 50
    return t

FLOW = dict(spec='DDFlowTrace', corrupt=flip_out)
ANY, TOT, TRI = ('DDSched', 'DDSched_any.cfg'), ('DDSched', 'DDSched_tot.cfg'), ('DDSched', 'DDSched_tri.cfg')
FLOWQ = dict(spec='DDFlowTrace', corrupt=early_frontier)
BIG = dict(name='big', spec='DDBigTrace')

PROPS = {
 'C01': dict(
    models=[('DDFlowMC', 'DDFlowMC_min.cfg'), ('DDFlowMC', 'DDFlowMC_join.cfg')],
    families=[dict(FLOW, name='prog', n=(2000, 30000)), dict(FLOW, name='iter', n=(400, 6000)), dict(FLOW, name='prog', sched=ANY, n=(400, 6000))]),
 'C02': dict(
    models=[('DDFlowMC', 'DDFlowMC_min.cfg'), ('DDFlowMC', 'DDFlowMC_dist.cfg')],
    families=[dict(FLOW, name='reduce', n=(2500, 40000)), dict(FLOW, name='deep', n=(1200, 20000)), dict(FLOW, name='reduce', sched=ANY, n=(400, 6000)), dict(FLOW, name='deep', sched=TRI, n=(400, 6000))]),
 'C03': dict(
    models=[('DDBigMC', 'DDBigMC.cfg'), ('DDFlowMC', 'DDFlowMC_join.cfg')],
    families=[dict(FLOW, name='join', n=(2500, 40000)), dict(FLOW, name='deep', n=(400, 8000)), dict(FLOW, name='join', sched=ANY, n=(400, 6000)), dict(BIG, corrupt=flip_out, n=(48, 800))]),
 'C04': dict(
    models=[('DDFlowMC', 'DDFlowMC_iter.cfg')],
    families=[dict(FLOW, name='iter', n=(2500, 40000)), dict(FLOW, name='iter', sched=ANY, n=(400, 6000))]),
 'C05': dict(
    models=[('DDFlowMC', 'DDFlowMC_dist.cfg')],
    families=[dict(FLOWQ, name='quiet', n=(2500, 40000)), dict(FLOWQ, name='quiet', sched=ANY, n=(400, 6000)), dict(BIG, corrupt=early_frontier, n=(32, 800))]),
 'C06': dict(
    models=[('DDStoreMC', 'DDStoreMC_two.cfg')],
    families=[dict(name='trace', spec='DDTraceTrace', corrupt=flip('batch', 6), n=(2500, 40000))]),
 'C07': dict(
    models=[('DDStoreMC', 'DDStoreMC_one.cfg')],
    families=[dict(name='trace', spec='DDTraceTrace', corrupt=flip('read', 5), n=(2500, 40000))]),
 'C08': dict(
    models=[('DDSpine', 'DDSpine_sum.cfg'), ('DDSpine', 'DDSpine_half.cfg')],
    families=[dict(name='spine', spec='DDTraceTrace', corrupt=flip('insert', 3), n=(2500, 40000)),
              dict(name='spine', spec='DDTraceTrace', sched=('DDSpine', 'DDSpine_sched.cfg'), n=(500, 5000))]),
 'C09': dict(
    models=[('DDBatchMC', 'DDBatchMC_two.cfg')],
    families=[dict(name='merge', spec='DDBatchTrace', corrupt=flip('merge', 8), n=(2500, 40000))]),
 'C10': dict(
    models=[('DDStoreMC', 'DDStoreMC_two.cfg')],
    families=[dict(name='trace', spec='DDTraceTrace', corrupt=flip('ib', 6), n=(2500, 40000))]),
 'C11': dict(
    models=[('DDUpsert', 'DDUpsert.cfg')],
    families=[dict(FLOW, name='upsert', n=(2500, 40000)), dict(FLOW, name='upsert', sched=TOT, n=(400, 6000))]),
 'C12': dict(
    models=[('DDFlowMC', 'DDFlowMC_dist.cfg')],
    families=[dict(FLOW, name='total', n=(2500, 40000)), dict(FLOW, name='total', sched=TOT, n=(400, 6000))]),
 'C13': dict(
    models=[('DDCaptureMC', 'DDCaptureMC_one.cfg'), ('DDCaptureMC', 'DDCaptureMC_two.cfg')],
    families=[dict(name='capture', spec='DDCaptureTrace', corrupt=flip('out', 1), n=(3000, 60000)),
              dict(name='capture', spec='DDCaptureTrace', sched=('DDCaptureMC', 'DDCaptureMC_sched.cfg'), n=(500, 5000)),
              dict(name='capture', spec='DDCaptureTrace', sched=('DDCaptureMC', 'DDCaptureMC_sched1.cfg'), n=(500, 5000))]),
 'C14': dict(
    models=[('DDLatticeMC', 'DDLatticeMC.cfg')],
    families=[dict(name='lattice', spec='DDLatticeTrace', corrupt=negate('le', 3), n=(8000, 100000))]),
 'C15': dict(
    models=[('DDDiffMC', 'DDDiffMC.cfg')],
    families=[dict(name='diff', spec='DDDiffTrace', corrupt=negate('iszero', 2), n=(4800, 60000))]),
 'C16': dict(
    models=[('DDBatchMC', 'DDBatchMC_one.cfg')],
    families=[dict(name='batcher', spec='DDBatchTrace', corrupt=flip('seal', 5), n=(2500, 40000))]),
 'C17': dict(
    models=[('DDBatchMC', 'DDBatchMC_two.cfg')],
    families=[dict(name='cursor', spec='DDBatchTrace', corrupt=flip_cur, n=(2000, 30000))]),
 'C18': dict(
    models=[('DDInputMC', 'DDInputMC_one.cfg'), ('DDInputMC', 'DDInputMC_two.cfg')],
    families=[dict(name='session', spec='DDInputTrace', corrupt=flip('out', 2), n=(6000, 100000)),
              dict(name='session', spec='DDInputTrace', sched=('DDInputMC', 'DDInputMC_sched.cfg'), n=(1000, 10000))]),
 'C19': dict(
    models=[('DDFlowMC', 'DDFlowMC_iter.cfg')],
    families=[dict(FLOW, name='dyn', n=(2000, 30000)), dict(FLOW, name='dyn', sched=ANY, n=(400, 6000))]),
 'C20': dict(
    models=[('DDFlowMC', 'DDFlowMC_join.cfg')],
    families=[dict(FLOW, name='col', n=(2500, 30000)), dict(FLOW, name='col', sched=ANY, n=(400, 6000))]),
 'C21': dict(
    models=[('DDFlowMC', 'DDFlowMC_join.cfg')],
    families=[dict(FLOW, name='dogs', n=(2500, 40000)), dict(FLOW, name='dogs', sched=ANY, n=(400, 6000))]),
 'C22': dict(
    models=[('DDAlgoMC', 'DDAlgoMC.cfg')],
    families=[dict(FLOW, name='algo', n=(2500, 40000)), dict(FLOW, name='algo', sched=ANY, n=(400, 6000))]),
 'C23': dict(
    models=[('DDInterpMC', 'DDInterpMC.cfg')],
    families=[dict(FLOW, name='interp', n=(1500, 20000)), dict(FLOW, name='interp', sched=TOT, n=(400, 6000))]),
 'C24': dict(
    models=[('DDServerMC', 'DDServerMC.cfg')],
    families=[dict(name='server', spec='DDServerTrace', corrupt=flip_peek, n=(1000, 12000)),
              dict(name='server', spec='DDServerTrace', sched=('DDServerMC', 'DDServer_sched.cfg'), n=(300, 3000))]),
 'C25': dict(
    models=[('DDExplainMC', 'DDExplainMC.cfg')],
    families=[dict(name='explain', spec='DDExplainTrace', corrupt=undemand, n=(1200, 15000))]),
}
