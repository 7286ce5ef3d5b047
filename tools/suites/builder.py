"""T01: generated building, signing and copying steps on transaction objects, judged by TLC against spec/BuilderTrace.tla."""
import build, vlib


def run(ctx):
    exe, out = build.run(['builder'])
    ctx.outdirs.append(out)
    th = ctx.thorough()
    ctx.model('BuilderMC', 'BuilderMC_big.cfg' if th else 'BuilderMC.cfg', 'a transaction object with its parsed extra and cached hash: every order of steps', timeout=2400 if th else 300)
    jobs = [{'name': 'b%d' % k, 'cmd': [exe['builder'], str(ctx.seed * 100000 + k), '{dir}', '120']} for k in range(2000 if th else 140)]
    vlib.trace_jobs(ctx, jobs, 'BuilderTrace', 'BuilderTrace.cfg', attribute=lambda f: ['T01'], heap='2g', tlc_timeout=300, timeout=100)
