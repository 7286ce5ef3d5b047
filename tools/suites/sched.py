"""S01: contexts on a real Dispatcher, judged by TLC against spec/SchedTrace.tla."""
import build, vlib


def run(ctx):
    exe, out = build.run(['sched'])
    ctx.outdirs.append(out)
    th = ctx.thorough()
    ctx.model('SchedMC', 'SchedMC_big.cfg' if th else 'SchedMC.cfg', 'a few contexts with a lock, an event, a group, sleeps and interrupts: everything they can do, in every order', timeout=2400 if th else 300)
    jobs = [{'name': 's%d' % k, 'cmd': [exe['sched'], str(ctx.seed * 100000 + k), '{dir}', '60']} for k in range(3000 if th else 150)]
    vlib.trace_jobs(ctx, jobs, 'SchedTrace', 'SchedTrace.cfg', attribute=lambda f: ['S01'], heap='2g', tlc_timeout=300, timeout=40)
