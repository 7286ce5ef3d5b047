"""C01-C15: generated histories executed by the real cn::core, every answer judged by TLC against spec/NodeTrace.tla."""
import build, vlib
from suites import rules

# why the specification refuses what the code accepted -> properties broken
WHY = {'spent': 'C01', 'missing': 'C01', 'signature': 'C01', 'type': 'C01', 'conflict': 'C01', 'locked': 'C07', 'term': 'C06', 'outputs': 'C05 C06', 'overspend': 'C05',
       'semantic': 'C01 C05 C06', 'ttl': '', 'size': 'C05 C09', 'penalty': 'C05', 'reward': 'C05', 'recent': '', 'known': '', 'version': 'C09', 'txversion': 'C09',
       'future': 'C15', 'median': 'C15', 'work': 'C15', 'overflow': 'C15', 'checkpoint': 'C08', 'depth': 'C08', 'height': 'C08', 'coinbase': 'C07 C05 C06', 'txs': 'C01 C11',
       'detached': 'C04 C08', 'split': 'C04 C08', 'lacks': 'C04', 'torn': 'C03', 'unknown': '', 'parent': 'C04', 'limit': 'C05'}
# what is special about an object the code refused and the specification accepts
SPECIAL = {'any': '', 'deposit': 'C06 C05', 'unlock': 'C07', 'respend': 'C01', 'upgrade': 'C09 C15', 'reward': 'C05', 'checkpoint': 'C08', 'next': '', 'branch': 'C15', 'template': 'C12', 'time': 'C15'}
STATE = {'size': 'C02 C04', 'tail': 'C02 C04', 'difficulty': 'C15 C02', 'coins': 'C02 C05', 'txcount': 'C02', 'alts': 'C04', 'pool': 'C11', 'poolinfo': 'C11'}
DEEP = {'rows': 'C02', 'b': 'C02', 'ok': 'C02', 'sz': 'C02 C05', 'coins': 'C02 C05', 'ntx': 'C02', 'ts': 'C02', 'd': 'C02 C15', 'dep': 'C02 C06', 'int': 'C02 C06', 'spent': 'C02 C01',
        'tx.h': 'C02', 'tx.b': 'C02', 'tx.g': 'C02', 'tx.got': 'C02 C11', 'mouts': 'C02 C01 C06', 'outs': 'C02 C01', 'pids': 'C02 C11', 'orphans': 'C02 C04', 'have': 'C02 C04'}


def props(field):
    head, _, rest = field.partition(':')
    op, _, what = head.partition('.')
    if head.startswith('deep@'):
        after, _, x = field[5:].partition('.')
        return DEEP.get(x, 'C02') + {'restart': ' C10', 'refused': ' C03', 'switch': ' C04', 'rollback': ''}.get(after, '')
    if what == 'accepted' or what == 'flags':
        return WHY.get(rest, '') + (' C11' if op == 'tx' else ' C03') + (' C12' if rest in ('parent', 'txs', 'limit') and op == 'tmpl' else '')
    if what == 'refused':
        return SPECIAL.get(rest, '') + (' C11' if op == 'tx' else ' C04')
    if what == 'junk':
        return 'C11 C03' if op == 'tx' else 'C03 C04'
    if op == 'tx' and what == 'relay':
        return 'C11 C09'
    if what == 'refusal':
        return 'C03 ' + STATE.get(rest, '')
    if op == 'restart':
        return 'C10 C08' if rest in ('size', 'tail') else 'C10'
    if what == 'after':
        return STATE.get(rest, '') + (' C04 C03' if op == 'blk' and rest == 'pool' else '')
    if op == 'messages' or op == 'observers':
        return 'C14'
    if op == 'tmpl':
        return 'C12 ' + (WHY.get(rest, '') if what == 'block' else 'C15' if what == 'difficulty' else '')
    if op == 'roll':
        return 'C02'
    if op == 'query':
        return 'C13' + {'time': ' C02', 'ptime': ' C11', 'random': ' C07', 'sizes': ' C02', 'row': ' C02 C05 C15', 'gtx': ' C02', 'top': ' C02 C11', 'onetx': ' C11'}.get(what, '')
    return ''


def attribute(field):
    return props(field).split()


PROFILES = {  # histories per property in one quick round
    'C01': 'mixed early lwma1 lwma3 mixed restart size early',
    'C02': 'mixed restart early lwma1 checkpoint lwma3 mixed size',
    'C03': 'mixed early lwma1 size checkpoint lwma3 mixed early',
    'C04': 'mixed early lwma1 lwma3 zawy mixed lwma1 checkpoint',
    'C05': 'size size mixed early size lwma1 mixed early',
    'C06': 'mixed early lwma1 restart lwma3 mixed size early',
    'C07': 'mixed early lwma1 lwma3 mixed restart size early',
    'C08': 'checkpoint checkpoint mixed checkpoint early checkpoint checkpoint lwma1',
    'C09': 'mixed early zawy lwma3 mixed early mixed lwma3',
    'C10': 'restart restart checkpoint restart restart mixed restart checkpoint',
    'C11': 'mixed early lwma1 restart mixed size lwma3 early',
    'C12': 'size mixed early lwma1 size zawy checkpoint mixed',
    'C13': 'mixed early lwma1 restart mixed checkpoint lwma3 size',
    'C14': 'mixed early lwma1 checkpoint lwma3 mixed size restart',
    'C15': 'zawy lwma3 lwma1 long early mixed zawy lwma3'}


def run(ctx):
    exe, out = build.run(['chain', 'rules'] if ctx.prop in rules.GROUPS else ['chain'])
    ctx.outdirs.append(out)
    th = ctx.thorough()
    ctx.model('NodeMC', 'NodeMC_big.cfg' if th else 'NodeMC.cfg', 'a small node, every order of blocks, transactions, restarts and crashes', timeout=3000 if th else 400)
    jobs = []
    n = 200 if th else 16
    prof = PROFILES[ctx.prop].split()
    base = int(ctx.prop[1:]) * 100000 + ctx.seed * 1000
    for k in range(n):
        p = prof[k % len(prof)]
        jobs.append({'name': '%s%d' % (p, k), 'cmd': [exe['chain'], str(base + k), '{dir}', p, '250' if th and k % 4 == 0 and p != 'size' else '90' if p == 'size' else '130', ctx.prop]})
    vlib.trace_jobs(ctx, jobs, 'NodeTrace', 'NodeTrace.cfg', attribute=attribute, heap='2g', tlc_timeout=500, timeout=200, exit_props={5: ['C10', 'C08']})
    rules.run(ctx, exe.get('rules'))
