import build, vlib


def run(ctx):
    exe, out = build.run(['peers'])
    ctx.outdirs.append(out)
    th = ctx.thorough()
    ctx.model('PeersMC', 'PeersMC_big.cfg' if th else 'PeersMC.cfg', 'peer lists, exhaustive with tiny limits')
    jobs = []
    for k in range(40 if th else 7):
        jobs.append({'name': 's%d' % k, 'cmd': [exe['peers'], str(ctx.seed * 1000 + k), '{dir}', 'small', '2500' if th else '900']})
    for k in range(8 if th else 1):
        jobs.append({'name': 'b%d' % k, 'cmd': [exe['peers'], str(ctx.seed * 1000 + 500 + k), '{dir}', 'big', '900' if th else '150']})
    jobs.reverse()
    vlib.trace_jobs(ctx, jobs, 'PeersTrace', 'PeersTrace.cfg')
