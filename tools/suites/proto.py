"""N02: a protocol handler between a stand-in core and stand-in peers, judged by TLC against spec/ProtoTrace.tla."""
import build, vlib


def run(ctx):
    exe, out = build.run(['proto'])
    ctx.outdirs.append(out)
    th = ctx.thorough()
    ctx.model('ProtoMC', 'ProtoMC_big.cfg' if th else 'ProtoMC.cfg', 'an honest peer whose chain grows and a liar: every order of messages and every interleaving of their handling; the node comes to the honest chain', timeout=2400 if th else 300)
    jobs = [{'name': 'p%d' % k, 'cmd': [exe['proto'], str(ctx.seed * 100000 + k), '{dir}', '400']} for k in range(3000 if th else 160)]
    vlib.trace_jobs(ctx, jobs, 'ProtoTrace', 'ProtoTrace.cfg', attribute=lambda f: ['N02'], heap='2g', tlc_timeout=300, timeout=100)
