"""What each check runs.

A group is one way of recording histories of the real code:
  bin   driver (harness/<bin>); '+race' builds it with the race detector
  mod   the specification that decides the recorded histories
  args  arguments of the driver; env: environment
  quick, thorough: number of runs (each with its own seed)
"""
FORCED = {'FROZEN_CONCURRENCY': '-30', 'GOMAXPROCS': '128'}
MILD = {'FROZEN_CONCURRENCY': '-2', 'GOMAXPROCS': '16'}
OFF = {'FROZEN_CONCURRENCY': 'off'}
ONE = {'GOMAXPROCS': '1', 'FROZEN_CONCURRENCY': '-30'}


def store(profile, quick, thorough, eps=16, steps=60, name=None, env=None, extra=(), bin='store'):
    return dict(name=name or profile, bin=bin, mod='StoreTrace', args=['-profile', profile, '-eps', str(eps), '-steps', str(steps)] + list(extra),
                quick=quick, thorough=thorough, env=env or {})


def big(profile, quick, thorough, size, eps=2, steps=40, name=None, env=None, bin='store'):
    return dict(name=name or 'big-%s-%d' % (profile, size), bin=bin, mod='StoreTrace', quick=quick, thorough=thorough, env=env or {},
                args=['-mode', 'big', '-profile', profile, '-eps', str(eps), '-steps', str(steps), '-size', str(size)])


def grp(name, bin, mod, quick, thorough, *args, env=None):
    return dict(name=name, bin=bin, mod=mod, args=[str(a) for a in args], quick=quick, thorough=thorough, env=env or {})


def tries(what, quick, thorough, keys, vals=1, fan=2, levels=2, parts=1, sample=1, env=None, name=None, bin='store'):
    """Every trie of so many keys, generated by TLC, and every call on each and on each pair."""
    gen = dict(module='GenTrie', tag='TRIE', cfg='SPECIFICATION Spec\nVIEW View\nINVARIANT Emit\nCHECK_DEADLOCK FALSE',
               constants=(('Fan', fan), ('Levels', levels), ('Keys', keys), ('Vals', vals), ('Destructive', 'TRUE' if what == 'builders' else 'FALSE')))
    return dict(name=name or 'tries-%s-%d%d%d%d' % (what, keys, vals, fan, levels), bin=bin, mod='StoreTrace', gen=gen, parts=parts, quick=quick, thorough=thorough, env=env or {},
                args=['-mode', 'tries', '-profile', what, '-sample', str(sample)])


def tryints(quick, thorough, keys, parts):
    gen = dict(module='GenInts', tag='TRIE', cfg='SPECIFICATION Spec\nVIEW View\nINVARIANTS Emit Canonical Counts Refines\nCHECK_DEADLOCK FALSE', constants=(('Keys', keys),))
    return dict(name='tries-ints-%d' % keys, bin='ints', mod='StoreTrace', gen=gen, parts=parts, quick=quick, thorough=thorough, env={}, args=['-mode', 'tries'])


def exprs(depth, thin, quick, thorough, parts, sample=1, after=6, bin='lazyset'):
    return dict(name='exprs-%d' % depth, bin=bin, mod='LazyTrace', gen=genlazy(depth, thin), parts=parts, quick=quick, thorough=thorough, env={},
                args=['-mode', 'exprs', '-sample', str(sample), '-after', str(after)])


def genlazy(depth, thin):
    return dict(module='GenLazy', tag='LAZY', cfg='SPECIFICATION Spec\nINVARIANTS Typed Emit\nCHECK_DEADLOCK FALSE', constants=(('Depth', depth), ('Thin', 'TRUE' if thin else 'FALSE')))


def memo(depth, thin, quick, thorough, parts, each):
    gen2 = dict(module='LazyMemo', tag='MEMO', cfg='SPECIFICATION Spec\nVIEW View\nINVARIANTS Denotes Distinct Complete Emit\nCHECK_DEADLOCK FALSE',
                constants=(('Src', 'Src1'), ('Its', '{0, 1}'), ('Atomic', 'TRUE')))
    return dict(name='memo-%d' % depth, bin='lazyset', mod='LazyTrace', gen=genlazy(depth, thin), gen2=gen2, parts=parts, quick=quick, thorough=thorough, env={},
                args=['-mode', 'memo', '-sample', str(each)])


def smallrel(quick, thorough, vals, parts):
    gen = dict(module='GenRel', tag='REL', cfg='SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE', constants=(('Vals', vals),))
    return dict(name='rel-small-%d' % vals, bin='rel', mod='RelTrace', gen=gen, parts=parts, quick=quick, thorough=thorough, env={}, args=['-mode', 'small'])


def model(module, cfg=None, tiers=('quick', 'thorough'), **kw):
    return dict(module=module, cfg=cfg or module, tiers=tiers, **kw)


PLANS = {
    'C01': dict(models=[model('Heap', cfg='Heap3', tiers=('quick',)), model('Heap', tiers=('thorough',)), model('MCStore', cfg='MCStore2', tiers=('quick',)), model('MCStore', tiers=('thorough',))],
                groups=[store('persist', 40, 900), store('collide', 16, 300), big('persist', 4, 60, 3000),
                        tries('chains', 4, 8, 4, parts=4), tries('mapchains', 4, 8, 3, vals=2, parts=4), tries('chains', 0, 24, 5, parts=24), tries('chains', 0, 12, 4, fan=3, parts=12),
                        tries('mapchains', 0, 24, 4, vals=2, parts=24, sample=2), tryints(4, 12, 4, 12), tries('builders', 2, 2, 4, parts=2)]),
    'C02': dict(models=[model('MCTrie', cfg='MCTrie3', tiers=('quick',)), model('MCTrie', tiers=('thorough',)), model('MCTrie', cfg='MCTrieWide', tiers=('thorough',), workers=3)],
                groups=[store('sets', 44, 1000), big('sets', 8, 120, 3000, eps=4), big('sets', 4, 60, 300, eps=8), big('sets', 0, 12, 300000, eps=1),
                        tries('sets', 4, 4, 4, parts=4), tries('sets', 0, 24, 5, parts=24), tries('sets', 0, 12, 4, fan=3, parts=12),
                        tries('sets', 0, 12, 4, levels=3, parts=12), store('sets', 4, 60, name='sets-fanout4', bin='store+b4')]),
    'C03': dict(models=[model('MCTrie', cfg='MCTrieMap2', tiers=('quick',)), model('MCTrie', cfg='MCTrieMap', tiers=('thorough',), workers=3)],
                groups=[store('maps', 44, 1000), big('maps', 8, 120, 3000, eps=4), big('maps', 4, 60, 300, eps=8), big('maps', 0, 12, 300000, eps=1),
                        tries('maps', 4, 4, 3, vals=2, parts=4), tries('maps', 0, 24, 4, vals=2, parts=24, sample=4), tries('maps', 0, 12, 4, fan=3, parts=12),
                        store('maps', 4, 60, name='maps-fanout4', bin='store+b4')]),
    'C04': dict(groups=[store('equality', 40, 1000), big('equality', 8, 120, 2000, eps=4), grp('ints-eq', 'ints', 'StoreTrace', 8, 80), tryints(0, 12, 4, 12),
                        tries('sets', 4, 4, 4, parts=4), tries('maps', 0, 4, 3, vals=2, parts=4), tries('sets', 0, 24, 5, parts=24)]),
    'C05': dict(groups=[store('views', 48, 1100), grp('ints-views', 'ints', 'StoreTrace', 8, 80)]),
    'C06': dict(models=[model('Heap', cfg='Heap3', tiers=('quick',)), model('Heap', tiers=('thorough',))],
                groups=[store('builders', 48, 1100, steps=80), big('builders', 8, 120, 3000, eps=4),
                        tries('builders', 2, 2, 4, parts=2), tries('builders', 0, 12, 5, parts=12), tries('builders', 0, 12, 4, fan=3, parts=12)]),
    'C07': dict(models=[model('Fork', tiers=('quick',)), model('Fork', cfg='Fork3', tiers=('thorough',))],
                groups=[store('fan', 20, 500, name='fan-forced', env=FORCED), big('fan', 8, 100, 3000, eps=4, name='big-fan-forced', env=FORCED),
                        big('fan', 8, 100, 280000, eps=1, steps=30, name='big-fan'), big('fan', 2, 20, 280000, eps=1, steps=30, name='big-fan-mild', env=MILD), store('fan', 8, 150, name='fan-mild', env=MILD),
                        store('fan', 8, 150, name='fan-off', env=OFF), store('fan', 8, 150, name='fan-one', env=ONE),
                        tries('sets', 4, 4, 4, parts=4, name='tries-forced', env=FORCED), tries('maps', 0, 4, 3, vals=2, parts=4, name='tries-maps-forced', env=FORCED),
                        tries('sets', 0, 24, 5, parts=24, name='tries5-forced', env=FORCED)]),
    'C08': dict(groups=[store('select', 52, 1200), big('select', 8, 120, 3000, eps=4)]),
    'C09': dict(groups=[grp('ints', 'ints', 'StoreTrace', 48, 1100), tryints(12, 24, 4, 12), tryints(0, 48, 5, 48), grp('ints-big', 'ints', 'StoreTrace', 6, 80, '-mode', 'big', '-eps', 4)]),
    'C10': dict(groups=[grp('lazy', 'lazyset', 'LazyTrace', 56, 1200), exprs(2, False, 24, 24, 24), exprs(3, True, 8, 48, 48, after=5)]),
    'C11': dict(models=[model('LazyMemo')],
                groups=[grp('lazy-iters', 'lazyset', 'LazyTrace', 48, 1100, '-iters'),
                        grp('lazy-conc', 'lazyset', 'LazyTrace', 16, 200, '-mode', 'conc', '-iters', '-eps', 10, '-steps', 60),
                        memo(2, False, 8, 16, 8, 40), memo(3, True, 4, 16, 8, 40), exprs(2, False, 8, 24, 24)]),
    'C12': dict(models=[model('MCRel', cfg='MCRel2', tiers=('quick',)), model('MCRel', tiers=('thorough',), workers=3)],
                groups=[grp('rel', 'rel', 'RelTrace', 48, 1000), smallrel(24, 48, 2, 24)]),
    'C13': dict(groups=[store('fold', 44, 1000), big('fold', 6, 80, 3000, eps=4), big('fold', 0, 12, 300000, eps=1), store('fold', 8, 100, name='fold-forced', env=FORCED),
                        grp('bits', 'store', 'StoreTrace', 8, 60, '-mode', 'bits')]),
    'C14': dict(models=[model('MCTrie', cfg='MCTrie3', tiers=('quick',)), model('MCTrie', cfg='MCTrieDeep', tiers=('thorough',), workers=3)],
                groups=[store('collide', 48, 1100), tries('sets', 4, 4, 4, parts=4), tries('maps', 2, 4, 3, vals=2, parts=4), tries('sets', 0, 24, 5, parts=24),
                        tries('maps', 0, 12, 4, vals=2, parts=24, sample=4), store('collide', 4, 60, name='collide-fanout4', bin='store+b4')]),
    'C15': dict(models=[model('MCStore', cfg='MCStore2', tiers=('quick',)), model('MCStore', tiers=('thorough',))],
                groups=[store('iters', 44, 1000, steps=80), big('iters', 6, 80, 3000, eps=4), grp('ints-iters', 'ints', 'StoreTrace', 8, 80)]),
    'C16': dict(groups=[store('conc', 16, 250, eps=6, steps=50, extra=['-mode', 'conc'], bin='store+race', name='conc-store'),
                        store('fan', 10, 200, eps=8, steps=40, bin='store+race', name='race-fan', env=FORCED),
                        store('fan', 8, 100, eps=3, steps=40, bin='store+race', extra=['-mode', 'conc'], name='race-concfan', env=FORCED),
                        big('fan', 4, 40, 1200, bin='store+race', name='race-big', env=FORCED), big('fan', 0, 4, 280000, eps=1, steps=20, bin='store+race', name='race-huge'),
                        grp('conc-lazy', 'lazyset+race', 'LazyTrace', 12, 200, '-mode', 'conc', '-eps', 10, '-steps', 60),
                        grp('conc-ints', 'ints+race', 'StoreTrace', 10, 150, '-mode', 'conc', '-eps', 10, '-steps', 40)]),
}
TITLES = {}


def findings():
    import os, re
    out = []
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.txt')) as f:
        for line in f:
            m = re.match(r'finding: property=(\w+) shows="([^"]*)" (.*)', line)
            if m:
                out.append(dict(property=m.group(1), shows=m.group(2), what=m.group(3)))
    return out


FINDINGS = findings()
