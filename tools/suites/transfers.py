"""W01: generated histories of a TransfersContainer, every answer judged by TLC against spec/TransfersTrace.tla."""
import build, vlib


def run(ctx):
    exe, out = build.run(['transfers'])
    ctx.outdirs.append(out)
    th = ctx.thorough()
    ctx.model('TransfersMC', 'TransfersMC_big.cfg' if th else 'TransfersMC.cfg', 'two payments with one key image, a spend, a deposit and its withdrawal: every history of steps', timeout=2400 if th else 300)
    jobs = [{'name': 'h%d' % k, 'cmd': [exe['transfers'], str(ctx.seed * 100000 + k), '{dir}', '300']} for k in range(1500 if th else 150)]
    vlib.trace_jobs(ctx, jobs, 'TransfersTrace', 'TransfersTrace.cfg', attribute=lambda f: ['W01'], heap='2g', tlc_timeout=300, timeout=100)
