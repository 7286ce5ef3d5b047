"""S02: BlockingQueue, GroupClose and ObserverManager under deterministic threads, judged by TLC against spec/QueueTrace.tla."""
import build, vlib


def run(ctx):
    exe, out = build.run(['queues'])
    ctx.outdirs.append(out)
    th = ctx.thorough()
    ctx.model('QueueMC', 'QueueMC_big.cfg' if th else 'QueueMC.cfg', 'the queue with its lock and conditions: every schedule of producers, consumers and closers, wake-ups for no reason included', timeout=2400 if th else 300)
    jobs = [{'name': 'q%d' % k, 'cmd': [exe['queues'], str(ctx.seed * 100000 + k), '{dir}', '400']} for k in range(2000 if th else 80)]
    vlib.trace_jobs(ctx, jobs, 'QueueTrace', 'QueueTrace.cfg', attribute=lambda f: ['S02'], heap='2g', tlc_timeout=300, timeout=250)
