"""W02: a synchroniser between a stand-in node and stand-in consumers, judged by TLC against spec/SyncTrace.tla."""
import build, vlib


def run(ctx):
    exe, out = build.run(['sync'])
    ctx.outdirs.append(out)
    th = ctx.thorough()
    ctx.model('SyncMC', 'SyncMC_big.cfg' if th else 'SyncMC.cfg', 'the synchronisation loop of two consumers: changes of the node and failures at every step; it comes to rest', timeout=2400 if th else 300)
    jobs = [{'name': 's%d' % k, 'cmd': [exe['sync'], str(ctx.seed * 100000 + k), '{dir}', '120']} for k in range(3000 if th else 160)]
    vlib.trace_jobs(ctx, jobs, 'SyncTrace', 'SyncTrace.cfg', attribute=lambda f: ['W02'], heap='2g', tlc_timeout=300, timeout=250)
