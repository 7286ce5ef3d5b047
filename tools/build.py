#!/usr/bin/env python3
"""Builds harness drivers from /verif/harness against /repo's current working tree.

Objects go to a fresh directory (never trusted by mtime); compilation goes through ccache (content
hashed) when it is installed, so a rebuild of unchanged sources is nearly free."""
import os, sys, glob, shutil, subprocess, tempfile, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

LIBS = {
    'Common': ['Common'], 'crypto': ['crypto'], 'CryptoNoteCore': ['CryptoNoteCore'],
    'P2P': ['CryptoNoteProtocol', 'P2p'], 'Http': ['HTTP'], 'Logging': ['Logging'],
    'Serialization': ['Serialization'], 'System': ['System', 'Platform/Linux/System'],
    'Rpc': ['Rpc'], 'Transfers': ['Transfers'], 'Wallet': ['Wallet', 'WalletLegacy'],
    'BlockchainExplorer': ['BlockchainExplorer'], 'InProcessNode': ['InProcessNode'],
    'Mnemonics': ['Mnemonics'], 'NodeRpcProxy': ['NodeRpcProxy'],
    'PaymentGate': ['PaymentGate'], 'JsonRpcServer': ['JsonRpcServer'],
}


# driver -> (sources in /verif/harness, libs)
from drivers import DRIVERS  # noqa: E402

DEFS = ['-DHAVE_ROTR', '-DMINIUPNP_STATICLIB', '-DMINIUPNPC_SET_SOCKET_TIMEOUT', '-D_DEFAULT_SOURCE', '-D_GNU_SOURCE', '-DNDEBUG']
COMMON = ['-maes', '-march=x86-64', '-O2', '-w']


def run(drivers, san=None, quiet=True):
    """Returns {driver: path}."""
    os.makedirs(BUILD, exist_ok=True)
    out = tempfile.mkdtemp(prefix='obj.', dir=BUILD)
    inc = ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + REPO + '/external', '-I' + out + '/version',
           '-I' + REPO + '/src/Platform/Linux', '-I' + REPO + '/external/parallel_hashmap']
    env = dict(os.environ)
    cc = ''
    if shutil.which('ccache') and not os.environ.get('VERIF_NO_CCACHE'):
        cc = 'ccache '
        env.update(CCACHE_DIR=os.path.join(BUILD, 'ccache'), CCACHE_MAXSIZE='3G', CCACHE_NOHASHDIR='1',
                   CCACHE_BASEDIR=out, CCACHE_COMPILERCHECK='content',
                   CCACHE_SLOPPINESS='include_file_mtime,include_file_ctime,time_macros', CCACHE_COMPRESS='1')
        for k in ('CCACHE_DISABLE', 'CCACHE_READONLY'):
            env.pop(k, None)
    os.makedirs(out + '/version')
    with open(out + '/version/version.h', 'w') as f:
        f.write('''#define BUILD_COMMIT_ID "verif"
#define PROJECT_VERSION "0"
#define PROJECT_VERSION_BUILD_NO "0"
#define PROJECT_VERSION_LONG "0-verif"
#define CCX_RELEASE_VERSION "Conceal v"
#define CCX_WALLET_RELEASE_VERSION "Conceal Wallet v"
#define CCX_PAYMENT_SERVICE_RELEASE_VERSION "Conceal PaymentService v"
''')
    sanf = ['-fsanitize=' + san, '-g1', '-fno-omit-frame-pointer'] if san else []
    n = ['ninja_required_version = 1.3',
         'rule cxx', '  command = %sg++ %s -pthread -std=$std -MD -MF $out.d -o $out -c $in' % (cc, ' '.join(DEFS + inc + COMMON + sanf)),
         '  depfile = $out.d', '  deps = gcc',
         'rule cc', '  command = %sgcc %s -std=c11 -MD -MF $out.d -o $out -c $in' % (cc, ' '.join(DEFS + inc + COMMON + sanf)),
         '  depfile = $out.d', '  deps = gcc',
         'rule ar', '  command = rm -f $out && ar crT $out $in',
         'rule link', '  command = g++ -pthread %s -o $out $in $ldflags -Wl,--start-group $libs -Wl,--end-group -lboost_system -lboost_filesystem -lboost_thread -lboost_date_time -lboost_chrono -lboost_regex -lboost_serialization -lboost_program_options -lrt -lresolv -ldl' % ' '.join(sanf)]
    need = set()
    for d in drivers:
        need.update(DRIVERS[d]['libs'])
    libpath = {}
    for lib in sorted(need):
        objs = []
        if True:
            srcs = []
            for d in LIBS[lib]:
                for r, _, fs in os.walk(os.path.join(REPO, 'src', d)):
                    srcs += [os.path.join(r, f) for f in fs if f.endswith(('.cpp', '.c'))]
        for s in sorted(srcs):
            o = '%s/%s/%s.o' % (out, lib, os.path.relpath(s, REPO).replace('/', '__'))
            objs.append(o)
            n.append('build %s: %s %s' % (o, 'cxx' if s.endswith('.cpp') else 'cc', s))
            if s.endswith('.cpp'):
                n.append('  std = gnu++11')
        a = '%s/lib%s.a' % (out, lib)
        libpath[lib] = a
        n.append('build %s: ar %s' % (a, ' '.join(objs)))
    done = set()
    res = {}
    for d in drivers:
        objs = []
        for s in DRIVERS[d]['src']:
            s = os.path.join(VERIF, 'harness', s)
            o = '%s/h/%s.o' % (out, os.path.basename(s))
            objs.append(o)
            if o not in done:
                done.add(o)
                n.append('build %s: cxx %s' % (o, s))
                n.append('  std = gnu++17')
        res[d] = '%s/%s' % (out, d)
        ls = [libpath[x] for x in DRIVERS[d]['libs']]
        n.append('build %s: link %s | %s' % (res[d], ' '.join(objs), ' '.join(ls)))
        n.append('  libs = ' + ' '.join(ls))
        n.append('  ldflags = ' + ' '.join(DRIVERS[d].get('ldflags', [])))
    with open(out + '/build.ninja', 'w') as f:
        f.write('\n'.join(n) + '\n')
    p = subprocess.run(['ninja', '-C', out] + [res[d] for d in drivers], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(p.stdout[-6000:])
        shutil.rmtree(out, ignore_errors=True)
        raise SystemExit(3)
    return res, out


if __name__ == '__main__':
    import time
    t = time.time()
    ds = sys.argv[1:] or sorted(DRIVERS)
    keep = '--keep' in ds
    ds = [d for d in ds if not d.startswith('--') and d != 'setup'] or sorted(DRIVERS)
    r, out = run(ds)
    if keep:
        for d in r:
            print(d, r[d])
    else:
        shutil.rmtree(out)
    print('build ok %.1fs' % (time.time() - t))
