import json
import fw, deploy
import props_net as N
import props_sys as Y
import orch, daemons, plots, cli, baselines

CHECKS = {
    'C01': (N.c01, 'exploration'), 'C02': (N.c02, 'exploration'), 'C03': (N.c03, 'exploration'),
    'C04': (N.c04, 'exploration'), 'C05': (N.c05, 'exploration'), 'C06': (N.c06, 'exploration'),
    'C07': (N.c07, 'fault_enumeration'), 'C08': (N.c08, 'exploration'), 'C09': (N.c09, 'exploration'),
    'C10': (N.c10, 'exploration'), 'C11': (N.c11, 'exploration'), 'C18': (N.c18, 'exploration'), 'C22': (N.c22, 'exploration'),
    'C12': (Y.c12, 'exploration'), 'C13': (Y.c13, 'exploration'), 'C14': (Y.c14, 'fault_enumeration'),
    'C15': (Y.c15, 'fault_enumeration'), 'C16': (Y.c16, 'exploration'), 'C17': (Y.c17, 'exploration'),
    'C19': (orch.c19, 'exploration'), 'C20': (Y.c20, 'exploration'), 'C21': (daemons.c21, 'exploration'),
    'C23': (plots.c23, 'exploration'), 'C24': (cli.c24, 'exploration'), 'C25': (baselines.c25, 'exploration'),
}


def replay(path):
    j = json.load(open(path))
    print('recorded:', j['what'])
    ctx = fw.Ctx(j['property'], 'quick', 1, 'exploration')
    try:
        if j['kind'] == 'deploy':
            sp = deploy.Spec(**{k: v for k, v in j['spec'].items()})
            r = ctx.run_one(sp)
            print('exit codes', r.rc)
            print('hang', r.hang, 'inconclusive', r.inconclusive)
            for n, e in r.err.items():
                if e.strip():
                    print('--', n, e[-1500:])
            for v in r.viol:
                print(v)
            return 1 if (r.viol or r.hang or not r.ok()) else 0
        if j['kind'] == 'unit':
            ctx.unit(j['name'], j['variant'], j['args'], env=j.get('env'))
            return 1 if ctx.viol else 0
        if j['kind'] == 'orch' and 'steps' in j:
            s = orch.Session(ctx, j['seed'], j['steps'], ctx.bins('san')['gen_config'])
            r = s.run()
            print(r)
            return 1 if isinstance(r, str) else 0
        if j['kind'] == 'cli':
            s = cli.Cli(ctx, j['seed'], j['steps'], ctx.bins('san')['gen_config'])
            r = s.run()
            print(r)
            return 1 if isinstance(r, str) else 0
        if j['kind'] == 'read':
            r = cli.reader(ctx, j['seed'])
            print(r)
            return 1 if r else 0
        if j['kind'] == 'baseline' and 'job' in j:
            r, case = baselines.one(ctx, baselines.compile_all(ctx), j['job'])
            print(case, r)
            return 1 if r else 0
        if j['kind'] == 'fleet':
            import build
            b = build.Builder()
            t = b.tool('vtool')
            b.close()
            r = daemons.Fleet(ctx, j['seed'], t, ctx.bins('san')).run()
            print(r)
            return 1 if r else 0
        if j['kind'] == 'example':
            r = daemons.Example(ctx, j['seed'], ctx.bins('san')).run()
            print(r)
            return 1 if r else 0
        if j['kind'] == 'local':
            r = daemons.Local(ctx, j['seed']).run()
            print(r)
            return 1 if r else 0
        if j['kind'] == 'plots':
            bad, _ = plots.one(ctx, j['how'], j['seed'])
            print(bad)
            return 1 if bad else 0
        if j['kind'] == 'daemonpair':
            import build
            b = build.Builder()
            t = b.tool('vtool')
            b.close()
            r, _ = daemons.pair(ctx, j['seed'], j['kinds'], j['jobs'], t)
            print(r)
            return 1 if r else 0
        if j['kind'] == 'daemon':
            import build
            b = build.Builder()
            s = daemons.Session(ctx, j['seed'], j['daemon'], j['jobs'], b.tool('vtool'))
            b.close()
            r = s.run()
            print('\n'.join(s.trace))
            print(r)
            return 1 if r else 0
        print(json.dumps(j, indent=1))
        return 1
    finally:
        import shutil
        shutil.rmtree(ctx.workdir, ignore_errors=True)
