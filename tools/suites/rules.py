"""The rules as functions: the currency rules evaluated on generated arguments near every threshold, every answer judged by TLC against spec/RulesTrace.tla."""
import vlib

FIELDS = {'reward.emission': 'C05', 'reward': 'C05', 'maxsize': 'C05 C09', 'miner.unlock': 'C07 C12', 'miner': 'C05 C12', 'interest': 'C06 C05', 'fee': 'C05 C06', 'deposit': 'C06 C05', 'difficulty': 'C15',
          'params.upgrade': 'C09', 'params.window': 'C15', 'params.time': 'C15', 'version': 'C09', 'overflow.keys': 'C01', 'overflow.deposits': 'C01 C06', 'overflow': 'C05 C01', 'decompose': 'C05 C12',
          'checkpoint': 'C08', 'fusion': 'C11', 'fusable': 'C11'}
# groups of the driver evaluated for each property
GROUPS = {'C01': ['amounts'], 'C05': ['reward', 'interest', 'amounts', 'deposit'], 'C06': ['interest', 'deposit'], 'C07': ['reward'], 'C08': ['checkpoint'], 'C09': ['version', 'reward'], 'C11': ['fusion'],
          'C12': ['reward', 'amounts'], 'C15': ['difficulty', 'version']}
COUNT = {'difficulty': 1500, 'checkpoint': 1500, 'reward': 1500, 'interest': 2500, 'deposit': 6000, 'version': 6000, 'amounts': 2500, 'fusion': 2500}


def attribute(field):
    f = field
    while f not in FIELDS and '.' in f:
        f = f.rpartition('.')[0]
    return FIELDS.get(f, '').split()


def run(ctx, exe):
    jobs = []
    base = int(ctx.prop[1:]) * 100000 + ctx.seed * 1000
    for g in GROUPS.get(ctx.prop, []):
        for k in range(40 if ctx.thorough() else 4):
            p = ['main', 'test', 'custom', 'custom'][k % 4]
            jobs.append({'name': 'rules.%s.%s%d' % (g, p, k), 'cmd': [exe, str(base + k), '{dir}', p, str(COUNT[g]), g]})
    vlib.trace_jobs(ctx, jobs, 'RulesTrace', 'RulesTrace.cfg', attribute=attribute, heap='2g', tlc_timeout=500, timeout=200)
