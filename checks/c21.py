"""The filter server: programs and fifos that are told about every product (sysfilterlist, filterdevdir)."""
import os, stat
import net, pipe, sbn, srv
from pbt import Outcome, hx, unhx

PAGE = 4096
IDS = [b'SDUS53', b'FXUS61', b'TIGE01', b'NOUS42', b'HTMW30']
STAS = [b'KWBC', b'TJSJ', b'KNES', b'PHFO']
SCRIPT = '''#!/bin/sh
exec 3>>%s
echo open >&3
while IFS= read -r l
do
  [ "$l" ] || { echo end >&3; exit; }
  printf 'L %%s\\n' "$l" >&3
  case " %s " in *" ${l%%%% *} "*) echo dead $$ $PPID >&3; exit;; esac
done
echo end >&3
'''
TOUCH = '#!/bin/sh\necho ran >> %s\nexec cat > /dev/null\n'


class Check:
    pid = 'C21'
    title = 'Every filter is told about every product, in order, whatever the other filters do'
    parts = ['core']
    drivers = ['d_filt']
    quick, thorough = 1200, 40000
    rule = ('a case counts as non-trivial when at least two filters were told about products and one of these happened: a '
            'program ended and was started again, a reader of a fifo went away or did not read, filters were reloaded')
    assumptions = ['a filter that is a program reads its input', 'paths of filters have no characters special to a shell']

    # ---- generation

    def gen(self, src):
        n = src.size(3, 8, 20)
        prods = []
        for q in range(n):
            prods.append(dict(seq=src.wpick((4, 100 + q * 7), (1, 2147483640 + q), (1, 3000000000 + q)), t=src.draw(10),
                              c=src.draw(130), k=src.draw(256), ch=src.wpick((3, 0), (1, src.draw(8))), i=src.draw(5),
                              s=src.draw(4), time=src.draw(320000), n=src.wpick((4, src.int(1, 300)), (1, src.int(5000, 9000)))))
        pipes = []
        for _ in range(src.wpick((1, 0), (5, src.int(1, 3)), (1, src.int(4, 6)))):
            pipes.append(dict(where=src.wpick((3, 'list'), (3, 'dev'), (1, 'both'), (1, 'twice'), (2, 'spare')),
                              die=sorted({src.draw(n) for _ in range(src.wpick((3, 0), (3, 1), (2, 2)))})))
        fifos = [dict(open=src.bool(0.7), where=src.wpick((5, 'dev'), (1, 'spare'))) for _ in range(src.wpick((2, 0), (3, 1), (3, src.int(2, 3))))]
        ev = []
        for q in range(n):
            for _ in range(src.wpick((3, 0), (2, 1), (1, 2))):
                w = src.wpick((3 if fifos else 0, 'fifo'), (3, 'reload'), (1, 'state'))
                if w == 'fifo':
                    ev.append((src.wpick((2, 'open'), (2, 'close'), (2, 'read')), src.draw(len(fifos))))
                elif w == 'reload':
                    ev.append(('reload', [src.draw(12) for _ in range(src.draw(3))]))
                else:
                    ev.append(('state',))
            ev.append(('prod', q))
            if src.bool(0.2):
                ev.append(('sync',))
        if fifos and src.bool(0.25):
            # more than a fifo takes
            ev += [('prod', q) for q in range(n)] * src.int(2, 5)
        return dict(prods=prods, pipes=pipes, fifos=fifos, ev=ev, seps=[src.pick([':', ' ', '\t', ': ', '::']) for _ in range(12)],
                    missing=src.bool(0.2), decoys=[x for x in range(5) if src.bool(0.25)], nodir=src.bool(0.05),
                    spool=src.wpick((3, 1), (1, 2), (1, 3)), late=src.bool(0.3))

    # ---- a run

    def run(self, case, ctx):
        d = ctx.dir()
        dev, spare = d + '/dev', d + '/spare'
        os.makedirs(d + '/bin')
        os.mkdir(spare)
        if not case['nodir']:
            os.mkdir(dev)
        seqs, count = {}, 0
        ev = []
        # every product that is sent has a sequence number of its own
        for e in case['ev']:
            if e[0] == 'prod':
                p = dict(case['prods'][e[1]], ord=e[1])
                if e[1] in seqs:
                    p['seq'] = 1500000000 + count
                seqs[e[1]] = p['seq']
                count += 1
                ev.append(('prod', p))
            else:
                ev.append(e)

        def script(path, log, die=()):
            with open(path, 'w') as f:
                f.write(SCRIPT % (log, ' '.join(map(str, die))))
            os.chmod(path, 0o755)

        canary = d + '/bin/canary'
        script(canary, d + '/log/canary')
        lst, F = [canary], {}           # F: key -> filter
        for i, p in enumerate(case['pipes']):
            w = p['where']
            if case['nodir'] and w in ('dev', 'both', 'spare'):
                w = 'list'
            name = 'p%d' % i + 'x' * (i % 2)
            home = {'dev': dev, 'both': dev, 'spare': spare}.get(w, d + '/bin')
            die = [seqs[q] for q in p['die'] if q in seqs]
            script(home + '/' + name, d + '/log/' + name, die)
            path = (dev if home == spare else home) + '/' + name
            if w in ('list', 'both', 'twice'):
                lst += [path] * (2 if w == 'twice' else 1)
            F['p%d' % i] = dict(kind='pipe', path=path, name=name, die=set(die), listed=w not in ('spare',), inlist=w in ('list', 'both', 'twice'),
                                there=w != 'spare', up=None, log=d + '/log/' + name, want=[], deaths=0, sent=0, err=0)
        if not case['nodir']:
            for i, p in enumerate(case['fifos']):
                os.mkfifo((dev if p['where'] == 'dev' else spare) + '/f%d' % i)
                F['f%d' % i] = dict(kind='fifo', path=dev + '/f%d' % i, name='f%d' % i, there=p['where'] == 'dev', entry=False, fd=False,
                                    reader=False, buf=[], want=[], sent=0, err=0)
            dec = case['decoys']
            if 0 in dec:
                open(dev + '/README', 'w').write(TOUCH % (d + '/log/decoy'))
                os.chmod(dev + '/README', 0o644)
            if 1 in dec:
                os.mkdir(dev + '/a.d')
                open(dev + '/a.d/x', 'w').write(TOUCH % (d + '/log/decoy'))
                os.chmod(dev + '/a.d/x', 0o755)
            if 2 in dec:
                open(dev + '/g', 'w').write(TOUCH % (d + '/log/decoy'))
                os.chmod(dev + '/g', 0o611)
            if 3 in dec:
                os.symlink(d + '/bin/nothing', dev + '/dangling')
            if 4 in dec:
                script(spare + '/target', d + '/log/target')
                os.symlink(spare + '/target', dev + '/link')
                F['link'] = dict(kind='pipe', path=dev + '/link', name='link', die=set(), listed=True, inlist=False, there=True, up=None,
                                 log=d + '/log/target', want=[], deaths=0, sent=0, err=0, still=True)
        F['canary'] = dict(kind='pipe', path=canary, name='canary', die=set(), listed=True, inlist=True, there=True, up=None,
                           log=d + '/log/canary', want=[], deaths=0, sent=0, err=0)
        if case['missing']:
            lst.insert(1 if len(lst) > 1 else 0, d + '/bin/missing')
        if not case['late']:
            pass
        else:
            lst.append(lst.pop(0))      # the canary is told last
        sysl = ''
        for i, x in enumerate(lst):
            sysl += (case['seps'][i % len(case['seps'])] if i else '') + x
        tmo = 15
        settings = dict(sysfilterlist=sysl, filterdevdir=dev, fifo_write_timeout_ms=tmo, filterserver_statefile=d + '/log/fstate',
                        queue_read_timeout_ms=3, spooltype=case['spool'], mspoolbdb_nslots=256)
        r = pipe.Run(ctx, settings, d)
        r.prog.pop()
        m = sbn.Model(spool=r.spool)
        self.tags = set()
        size = net.ENV + 27 + srv.nbs2_pathsize(r.spool)
        for k, f in enumerate(case['fifos']):
            if 'f%d' % k in F and f['open'] and F['f%d' % k]['there']:
                r.op('rdopen', k, hx((dev + '/f%d' % k).encode()))
                F['f%d' % k]['reader'] = True
        r.op('filtstart')
        canlog = hx((d + '/log/canary').encode())
        states = []
        opens = [0]
        self.last = None

        def report():
            """The server has nothing left to do, and its counts start again."""
            r.op('state', 9000)
            w = {}
            for f in F.values():
                on = f['up'] is not None if f['kind'] == 'pipe' else f['entry']
                if on:
                    w[f['path']] = (f['sent'], f['err'])
                f['sent'] = f['err'] = 0
            states.append((w, self.sent))
            self.sent = 0

        def sync():
            if self.last is not None:
                r.op('lines', canlog, hx(b'L %d ' % self.last), 1, 15000)
            self.last = None
            report()

        def load():
            for f in F.values():
                if f['kind'] == 'pipe':
                    if f['up'] == 'up':
                        f['want'].append('end')
                    f['up'] = None
                    if f['inlist'] and f['there'] or f['there'] and not case['nodir'] and f['path'].startswith(dev):
                        f['up'] = 'up'
                        f['want'].append('open')
                else:
                    if f['there'] or f['entry']:
                        if not f['fd']:
                            f['fd'] = f['reader'] and f['there']
                        f['entry'] = f['fd']
            opens[0] += 1
            r.op('lines', canlog, hx(b'open'), opens[0], 15000)

        self.sent = 0
        load()
        report()
        for e in ev:
            if e[0] == 'prod':
                p = e[1]
                hdr = IDS[p['i']] + b' ' + STAS[p['s']] + b' %06d\r\r\n' % p['time']
                na = len(m.sann)
                for fr in srv.simple(p['seq'], hdr, b'x' * p['n'], ptype=p['t'], pcat=p['c'], pcode=p['k']):
                    r.frame(p['ch'], fr)
                    m.feed(p['ch'], fr)
                for a in m.sann[na:]:
                    self.announce(F, a, m, case, size)
                    self.last = a[0]
                    self.sent += 1
                    for f in F.values():
                        if f['kind'] == 'pipe' and f['up'] == 'dying':
                            f['up'] = 'dead'
                            f['deaths'] += 1
                            r.op('gone', hx(f['log'].encode()), f['deaths'], 15000)
                            self.tags.add('program ended')
            elif e[0] == 'sync':
                sync()
            elif e[0] == 'state':
                sync()
                self.tags.add('state')
            elif e[0] in ('open', 'close', 'read'):
                f = F.get('f%d' % e[1])
                if f is None or f['reader'] == (e[0] == 'open') or e[0] == 'open' and not f['there']:
                    continue
                sync()
                if e[0] == 'open':
                    r.op('rdopen', e[1], hx(f['path'].encode()))
                    f['reader'] = True
                else:
                    r.op('rd', e[1])
                    f['want'].append(b''.join(f['buf']))
                    f['buf'] = []
                    if e[0] == 'close':
                        r.op('rdclose', e[1])
                        f['reader'] = False
                        self.tags.add('reader gone')
            else:
                sync()
                if not case['nodir']:
                    keys = [x for x in sorted(F) if not F[x].get('still') and F[x]['path'].startswith(dev)]
                    for c in e[1]:
                        if not keys:
                            break
                        f = F[keys[c % len(keys)]]
                        if f['kind'] == 'fifo' and f['fd'] and not f['reader']:
                            continue
                        if f['kind'] == 'fifo' and f['fd']:
                            self.tags.add('fifo moved')
                        a, b = dev + '/' + f['name'], spare + '/' + f['name']
                        if not f['there']:
                            a, b = b, a
                        r.op('mv', hx(a.encode()), hx(b.encode()))
                        f['there'] = not f['there']
                        if f['kind'] == 'pipe' and f['inlist'] and not f['there']:
                            # stays listed, but there is no such program now
                            r.op('mv', hx(b.encode()), hx(a.encode()))
                            f['there'] = True
                r.op('reload')
                load()
                report()
                self.tags.add('reload')
        sync()
        for k in range(len(case['fifos'])):
            f = F.get('f%d' % k)
            if f and f['reader']:
                r.op('rd', k)
                f['want'].append(b''.join(f['buf']))
        r.op('filtstop')
        for f in F.values():
            if f['kind'] == 'pipe' and f['up'] == 'up':
                f['want'].append('end')
        o = r.run('d_filt')
        out = Outcome()
        out.bad = o.bad or self.judge(case, d, o, F, states)
        out.nontrivial = sum(any(w not in ('open', 'end', b'') for w in f['want']) for f in F.values()) >= 2 and bool(self.tags - {'state'})
        out.tags = sorted(self.tags) + ['spooltype %d' % case['spool'], 'pipes %d' % len(case['pipes']), 'fifos %d' % len(case['fifos'])]
        return out

    def announce(self, F, a, m, case, size):
        """One product, told to every filter."""
        line = '%d %d %d %d %d %s %s' % a
        if case['spool'] != 1:
            line += ' %d' % len(m.files[a[6]])
        for f in F.values():
            if f['kind'] == 'pipe':
                if f['up'] is None:
                    continue
                f['sent'] += 1
                if f['up'] == 'dead':           # the server learns of it with this product
                    f['err'] += 1
                    f['up'] = 'down'
                    continue
                if f['up'] == 'down':
                    f['up'] = 'up'
                    f['want'].append('open')
                f['want'].append('L ' + line)
                if a[0] in f['die']:
                    f['want'].append('dead')
                    f['up'] = 'dying'
            elif f['entry']:
                f['sent'] += 1
                if not f['fd'] and f['reader'] and f['there']:
                    f['fd'] = True
                if f['fd'] and f['reader']:
                    if len(f['buf']) <= PAGE // size:         # 2 pages, the second for one only
                        f['buf'].append(net.nbs2(a[0], a[5].encode('latin1'), a[6].encode('latin1'), *a[1:5], pathsize=size - net.ENV - 27))
                        continue
                    self.tags.add('fifo full')
                f['fd'] = False
                f['err'] += 1

    def judge(self, case, d, o, F, states):
        for t in ('lines', 'state', 'gone'):
            if ['0'] in o.res.get(t):
                l = [l[0] + ' ' + ' '.join(l[1:]) for l in o.res.lines]
                return {'lines': 'a program was not told about a product, or was not started at a (re)load',
                        'state': 'the filter server does not report its state when asked to',
                        'gone': 'a program was not told about a product'}[t]
        if not o.res.get('filtstop'):
            return 'the filter server did not end when asked to'
        if os.path.exists(d + '/log/decoy'):
            return 'a file of the directory of filters that is no filter was executed'
        rd = {}
        for k, h in o.res.get('rd'):
            rd.setdefault(k, []).append(unhx(h))
        for f in F.values():
            if f['kind'] == 'pipe':
                got = open(f['log']).read().split('\n')[:-1] if os.path.exists(f['log']) else []
                got = ['dead' if g.startswith('dead ') else g for g in got]
                if got != f['want']:
                    i = next((i for i in range(min(len(got), len(f['want']))) if got[i] != f['want'][i]), min(len(got), len(f['want'])))
                    return 'program %s: event %d of its life is %r, expected %r' % (
                        f['name'], i, got[i] if i < len(got) else 'nothing', f['want'][i] if i < len(f['want']) else 'nothing')
            else:
                got = rd.get(f['name'][1:], [])
                for i, (x, y) in enumerate(zip(got, f['want'])):
                    if x != y:
                        return 'fifo %s, read %d: expected %d bytes %s, found %d bytes %s' % (
                            f['name'], i, len(y), y[:60].hex(), len(x), x[:60].hex())
        blocks = []
        for l in open(d + '/log/fstate').read().split('\n')[:-1]:
            if l.startswith('- '):
                blocks.append([])
            else:
                w = l.split()
                blocks[-1].append((w[0], int(w[1]), int(w[2])))
        if len(blocks) != len(states):
            return '%d state reports were written, %d were asked for' % (len(blocks), len(states))
        for i, (b, (w, n)) in enumerate(zip(blocks, states)):
            g = {p: (s, e) for p, s, e in b if not p.endswith('/missing')}
            if len(b) != len({p for p, _, _ in b}):
                return 'state report %d lists a filter twice' % i
            if g != w:
                x = sorted(set(g.items()) ^ set(w.items()))[0][0]
                return 'state report %d: %s was told %s of %d (products, failures), reported %s' % (i, x, w.get(x), n, g.get(x))
            if any(p.endswith('/missing') and s != n for p, s, _ in b):
                return 'state report %d: the program that is not there was not told %d products' % (i, n)
        return None
