"""S03: generated histories of file-backed vectors with crash points and failing calls, judged by TLC against spec/FilesTrace.tla and spec/SwappedTrace.tla."""
import build, vlib


def run(ctx):
    exe, out = build.run(['files'])
    ctx.outdirs.append(out)
    th = ctx.thorough()
    x = '_big' if th else ''
    ctx.model('FilesMC', 'FilesMC%s.cfg' % x, 'atomic update of a mapped file: every failing step and crash')
    ctx.model('FilesMC', 'FilesMC2%s.cfg' % x, 'item file and index file: every order of operations, crashes and restarts')
    n = 600 if th else 48
    jobs = [{'name': 'm%d' % k, 'cmd': [exe['files'], str(ctx.seed * 100000 + k), '{dir}', 'fmv', '200']} for k in range(n)]
    vlib.trace_jobs(ctx, jobs, 'FilesTrace', 'FilesTrace.cfg', attribute=lambda f: ['S03'], heap='2g', tlc_timeout=300, timeout=200)
    jobs = [{'name': 'i%d' % k, 'cmd': [exe['files'], str(ctx.seed * 100000 + k), '{dir}', 'swap', '300']} for k in range(n)]
    vlib.trace_jobs(ctx, jobs, 'SwappedTrace', 'SwappedTrace.cfg', attribute=lambda f: ['S03'], heap='2g', tlc_timeout=300, timeout=200)
