"""C15: loading graphs from files under I/O faults."""
import gc

from dsim.engine import Prop, cpu_budget, guarded, exc_text
from dsim.simfs import SimFS

from rosemary.graphs.graphs import load_dimacs_graph, load_graph, Graph


def gen_content(rng, dimacs):
    n = rng.int(1, rng.pick((4, 12, 300)))
    lines = []
    m = rng.pick((0, 1, 3, 10, 40)) if rng.chance(0.9) else 600
    for _ in range(m):
        u, v = rng.int(0, n), rng.int(0, n)
        lines.append(('e %d %d' if dimacs else '%d %d') % (u, v))
    if dimacs:
        out = []
        for k in range(rng.int(0, 3)):
            out.append(rng.pick(('c comment', 'p col %d %d' % (n, m), 'c gr\u00e4ph \u2014 \u4e2d\u6587', 'c', 'n 1 2')))
        lines = out + lines
        if lines and rng.chance(0.3):
            lines.insert(rng.below(len(lines)), rng.pick(('', 'c mid \u00e9', 'p edge')))
    if lines and rng.chance(0.15):
        k = rng.below(len(lines) + 1)
        lines.insert(k, rng.pick(('x y', '1', '1 2 3', 'e 1', 'e 1 2 3', 'e x 2', '1 x') if dimacs else
                                 ('x y', '1', '1 2 3', '', '1 x', '1.5 2')))
    eol = rng.weighted([('\n', 6), ('\r\n', 1)])
    text = eol.join(lines)
    if lines and rng.chance(0.7):
        text += eol
    return text


def gen_fault(rng, size):
    f = {}
    r = rng.random()
    if r < 0.12:
        f['open'] = rng.pick(('EACCES', 'EMFILE', 'ENFILE', 'EIO', 'ENOENT', 'EISDIR'))
        return f
    if rng.chance(0.7):
        f['chunks'] = [rng.int(1, rng.pick((1, 3, 17, 100))) for _ in range(rng.int(1, 4))]
    if rng.chance(0.5):
        f['buf'] = rng.pick((1, 2, 7, 64, 8192))
    if rng.chance(0.3):
        f['eio_read'] = rng.int(1, rng.pick((2, 5, 40)))
    if rng.chance(0.15):
        f['eintr'] = rng.int(1, rng.pick((2, 5, 40)))
    if rng.chance(0.15):
        f['kill_read'] = [rng.int(1, rng.pick((2, 5, 40))), rng.pick(('KeyboardInterrupt', 'MemoryError', 'SystemExit', 'TimeoutError'))]
    if rng.chance(0.3):
        f['torn'] = rng.int(0, size)
    return f


def lines_of(data):
    text = data.decode('utf-8').replace('\r\n', '\n').replace('\r', '\n')
    lines = text.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    return lines


def expected(data, dimacs):
    """The graph the bytes describe, or None when they are malformed."""
    try:
        lines = lines_of(data)
    except UnicodeDecodeError:
        return None
    adj = {}
    for line in lines:
        if not line.strip():        # a blank line describes nothing: refusing and ignoring it are both right
            continue
        fields = line.split(' ')
        if dimacs:
            if not line.startswith('e'):
                continue
            fields = fields[1:]
        try:
            u, v = [int(x) for x in fields]
        except ValueError:
            return None
        adj.setdefault(u, set()).add(v)
        adj.setdefault(v, set()).add(u)
    return adj


def load(fn, path):
    try:
        return guarded(fn, path)
    except (KeyboardInterrupt, SystemExit) as e:
        return 'exc', e


class C15(Prop):
    ID = 'C15'
    RUNS = {'quick': 15000, 'thorough': 400000}
    RULE = ('A run is a history of 2-7 loads from simulated files that are rewritten between loads '
            '(their modification times follow a simulated clock that stands still or jumps); the simulated '
            'device delivers short reads, interrupted reads, read errors, torn contents and refused opens; non-trivial means a fault '
            'was actually delivered.')
    STATE_MEASURE = 'distinct (loader, set of delivered faults, outcome, size class) tuples'
    REAL = ['load_graph, load_dimacs_graph, Graph, Python\'s buffered and text I/O layers']
    STUB = ['the disk, the clock of its modification times and the open/os.open calls (simulated device under the real '
            'BufferedReader/TextIOWrapper)']
    ASSUMPTIONS = ['files are UTF-8; a file that loses its tail is judged as the shorter file it has become']

    def gen(self, rng, index):
        ops = []
        clock = 10 ** 18
        for _ in range(rng.int(2, 7)):
            dimacs = rng.chance(0.5)
            text = gen_content(rng, dimacs)
            if ops and rng.chance(0.25):        # the previous file again, with one character changed: same size
                dimacs, text = ops[-1]['dimacs'], ops[-1]['text']
                at = [i for i, ch in enumerate(text) if ch.isdigit()]
                if at:
                    i = rng.pick(at)
                    text = text[:i] + rng.pick('123456789') + text[i + 1:]
            clock = clock + rng.pick((0, 0, 1, 10 ** 9, -10 ** 9))
            ops.append({'dimacs': dimacs, 'path': rng.pick('ab'), 'text': text, 'mtime': clock,
                        'fault': gen_fault(rng, len(text.encode())) if rng.chance(0.75) else {}})
            if rng.chance(0.12):
                ops[-1]['inner'] = {'at': rng.int(1, 4), 'dimacs': rng.chance(0.5)}
                ops[-1]['inner']['text'] = gen_content(rng, ops[-1]['inner']['dimacs'])
        return {'ops': ops}

    def execute(self, plan, ctx):
        hits = []

        def hit(kind):
            hits.append(kind)
            ctx.fault(kind)

        with SimFS(hit) as fs:
            for i, op in enumerate(plan['ops']):
                del hits[:]
                name = 'load_dimacs_graph' if op['dimacs'] else 'load_graph'
                fn = load_dimacs_graph if op['dimacs'] else load_graph
                data = op['text'].encode()
                torn = op['fault'].get('torn')
                if torn is not None and torn < len(data):
                    data = data[:torn]
                    hit('torn-file')
                fs.put(op['path'], data, op['fault'], op.get('mtime', 10 ** 18))
                reads = fs.reads
                if op.get('inner'):
                    fs.during = [op['inner']['at'], self.inner(fs, op['inner'], ctx, hit)]
                st, got = load(fn, op['path'])
                fs.during = None
                want = expected(data, op['dimacs'])
                killed = next((h for h in hits if h.startswith('kill')), '')
                failed = killed or any(h.startswith('E') for h in hits)
                ctx.count(name)
                ctx.steps += fs.reads - reads
                text = exc_text(got) if st == 'exc' else 'graph' if st == 'ok' else st
                ctx.event(name, op['fault'], sorted(set(hits)), st, text)
                ctx.state(name, sorted(set(hits)), st, min(6, len(data) // 40))
                where = ' (file %r, fault %r)' % (op['text'][:200], op['fault'])
                if st == 'hang':
                    ctx.violate('no-termination', name, where)
                    continue
                if failed:
                    if st != 'exc':
                        ctx.violate('fault-swallowed', name, '%s was delivered but a graph was returned' % (killed or 'an I/O error') + where)
                    elif not killed and not isinstance(got, OSError) and want is not None:
                        ctx.violate('fault-swallowed', name, 'an I/O error surfaced as %s%s' % (text, where))
                elif want is None:
                    if st != 'exc':
                        ctx.violate('malformed-accepted', name, 'a malformed file was loaded' + where)
                elif st == 'exc' and not op['dimacs'] and any(not x.strip() for x in lines_of(data)):
                    pass
                elif st == 'exc':
                    ctx.violate('exception', name, text + where)
                else:
                    try:
                        adj = {u: set(got[u]) for u in got}
                        ones = all(w == 1 for u in got for w in got[u].values())
                    except Exception as e:
                        adj, ones = repr(e), False
                    if adj != want or not ones:
                        ctx.violate('wrong-graph', name, 'loaded %r, expected %r%s' % (adj, want, where))
                if fs.open_now:
                    ctx.violate('handle-leak', name, '%d file(s) still open after the call%s' % (fs.open_now, where))
                got = None
                gc.collect()
                fs.open_now = 0

    @staticmethod
    def inner(fs, op, ctx, hit):
        """Loads another file while the outer load is reading."""
        def run():
            name = 'load_dimacs_graph' if op['dimacs'] else 'load_graph'
            data = op['text'].encode()
            fs.put('c', data, {}, 10 ** 18)
            ctx.fault('load-during-load')
            ctx.count(name)
            before = fs.open_now
            st, got = guarded(load_dimacs_graph if op['dimacs'] else load_graph, 'c')
            cpu_budget()
            want = expected(data, op['dimacs'])
            where = ' (file %r, loaded while another load was reading)' % op['text'][:200]
            if st == 'exc':
                if want is not None and (op['dimacs'] or all(x.strip() for x in lines_of(data))):
                    ctx.violate('exception', name, exc_text(got) + where)
            elif st == 'ok':
                if want is None:
                    ctx.violate('malformed-accepted', name, 'a malformed file was loaded' + where)
                else:
                    adj = {u: set(got[u]) for u in got}
                    if adj != want:
                        ctx.violate('wrong-graph', name, 'loaded %r, expected %r%s' % (adj, want, where))
            if fs.open_now > before:
                ctx.violate('handle-leak', name, '%d file(s) still open after the call%s' % (fs.open_now - before, where))
        return run

    def shrink_more(self, plan):
        for i, op in enumerate(plan['ops']):
            def put(new):
                ops = list(plan['ops'])
                ops[i] = new
                return dict(plan, ops=ops)
            if op.get('inner'):
                yield put({k: v for k, v in op.items() if k != 'inner'})
            for key in op['fault']:
                yield put(dict(op, fault={k: v for k, v in op['fault'].items() if k != key}))
            lines = op['text'].split('\n')
            if len(lines) > 1:
                for k in range(len(lines)):
                    yield put(dict(op, text='\n'.join(lines[:k] + lines[k + 1:])))


PROP = C15()
