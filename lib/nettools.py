"""C21: the lossy proxy and the source forwarder, run as real processes on the loopback network."""
import concurrent.futures as cf, hashlib, json, os, random, select, signal, socket, struct, subprocess, sys, tempfile, shutil, time
import vf

WAIT = 8.0


class Fail(Exception):
    pass


class Retry(Exception):
    pass


def udp_table():
    r = {}
    try:
        with open('/proc/net/udp') as f:
            for l in f.readlines()[1:]:
                p = l.split()
                r[int(p[1].split(':')[1], 16)] = (int(p[4].split(':')[1], 16), int(p[-1]))
    except (OSError, ValueError, IndexError):
        return None
    return r


def sock():
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    for o in (socket.SO_RCVBUF, socket.SO_SNDBUF):
        try: s.setsockopt(socket.SOL_SOCKET, o, 8 << 20)
        except OSError: pass
    s.bind(('127.0.0.1', 0)); s.settimeout(WAIT)
    return s


class Tool:
    def __init__(self, exe, before, after, d):
        """exe <port> 127.0.0.1 <...after>"""
        for attempt in range(6):
            t = sock(); self.port = t.getsockname()[1]; t.close()
            self.errf = open(os.path.join(d, 'err%d' % attempt), 'w+')
            env = dict(os.environ); env.update(vf.SAN_ENV)
            self.p = subprocess.Popen([exe, str(self.port)] + after, stdout=subprocess.DEVNULL, stderr=self.errf, env=env, start_new_session=True)
            end = time.time() + 10
            while time.time() < end:
                if self.p.poll() is not None: break
                t = udp_table()
                if t is None: time.sleep(1.5); return
                if self.port in t: return
                time.sleep(0.01)
            self.stop()
        raise Retry('the tool does not start: ' + self.err())

    def err(self):
        self.errf.seek(0); return self.errf.read()[-1500:]

    def alive(self):
        if self.p.poll() is not None:
            e = self.err(); l = vf.report_line('', e)
            raise Fail('the tool ended by itself (%s): %s' % (self.p.returncode, l or e[-300:]))

    def drained(self, extra=()):
        """Wait until the tool has read everything sent to it; tell if the kernel dropped anything."""
        end = time.time() + WAIT
        while True:
            t = udp_table()
            if t is None: time.sleep(0.02); return
            st = [t.get(p, (0, 0)) for p in (self.port,) + tuple(extra)]
            if any(x[1] for x in st): raise Retry('the kernel dropped datagrams')
            if not any(x[0] for x in st): return
            self.alive()
            if time.time() > end: raise Fail('the tool does not read what it is sent')
            time.sleep(0.0005)

    def stop(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        self.p.wait()


def recv(s, tool, what):
    end = time.time() + WAIT
    while True:
        s.settimeout(0.5)
        try:
            return s.recvfrom(70000)
        except socket.timeout:
            tool.alive()
            if time.time() > end: raise Fail('%s was never forwarded' % what)


def nothing(s, why):
    s.settimeout(0.05)
    try: d, _ = s.recvfrom(70000)
    except socket.timeout: return
    raise Fail('%d bytes were forwarded, %s' % (len(d), why))


def blob(r, big):
    n = r.choice([1, 2, 3, 7, 8, 16, 100, 1400, 1472, 4095, 4096, 4097, 5000, 65507]) if r.random() < 0.4 else r.randint(1, 3000)
    if big and r.random() < 0.2: n = r.randint(4000, 65507)
    m = r.random()
    return bytes(n) if m < 0.05 else b'\xff' * n if m < 0.1 else r.randbytes(n)


# ------------------------------------------------------------------------------ lossy proxy
def proxy_case(r, exe, d, c):
    n = r.randint(5, 120) if c % 25 else r.randint(600, 900); p = r.choice([0, 0.1, 0.5, 0.9, 1.0]); cnt = {}
    names = []; marks = []
    for k in (0, 1):
        m = [r.random() < p for _ in range(r.choice([0, 1, n // 2, n, n + 50]))]
        path = os.path.join(d, 'loss%d' % k); names.append(path); marks.append(m)
        with open(path, 'w') as f:
            odd = r.random() < 0.3 # only the first character of a line counts: anything but 0 is a loss
            f.write('\n'.join((r.choice(['1', '2', '10', '1 0', 'x']) if x else r.choice(['0', '01', '0 1', '0x'])) if odd else '1' if x else '0' for x in m) + ('\n' if m and r.random() < 0.7 else ''))
    A, B = sock(), sock(); tool = None
    try:
        tool = Tool(exe, [], ['127.0.0.1', str(B.getsockname()[1]), 'file'] + names, d)
        to = ('127.0.0.1', tool.port); back = None; idx = [0, 0]; n_tot = 0; lost_run = [0, 0]; trace = []
        while n_tot < n:
            if back is not None and n_tot % 40 == 39 and r.random() < 0.3: # another client takes over: answers go to the latest one
                b = b'hello again'; lost = idx[0] < len(marks[0]) and marks[0][idx[0]]; idx[0] += 1; n_tot += 1
                A2 = sock(); A2.sendto(b, to); trace.append('new client')
                if lost: tool.drained((back[1],))
                else:
                    got, back = recv(B, tool, 'the first datagram of a second client')
                    if got != b: raise Fail('the first datagram of a second client: %d other bytes were forwarded' % len(got))
                nothing(A, 'to a client that sent nothing new'); A.close(); A = A2; cnt['clients_changed'] = cnt.get('clients_changed', 0) + 1
            k = 0 if back is None or r.random() < 0.6 else 1
            if r.random() < 0.03 and back is not None: # an empty datagram: nothing to forward, and no line used
                A.sendto(b'', to) if r.random() < 0.5 else B.sendto(b'', back); tool.drained((back[1],)); cnt['empty'] = cnt.get('empty', 0) + 1
            b = blob(r, c % 3 == 0); i = idx[k]; idx[k] += 1; n_tot += 1
            lost = i < len(marks[k]) and marks[k][i]
            src, dst, addr = (A, B, to) if k == 0 else (B, A, back)
            src.sendto(b, addr)
            trace.append('%s%d%s' % ('<>'[k == 0], len(b), 'x' if lost else ''))
            what = 'datagram %d (%d bytes) %s' % (i + 1, len(b), 'towards the destination' if k == 0 else 'back')
            if lost:
                tool.drained((back[1],) if back else ()); cnt['lost'] = cnt.get('lost', 0) + 1
            else:
                got, frm = recv(dst, tool, what)
                if got != b: raise Fail('%s: %d other bytes were forwarded in its place (first difference at %d)' % (what, len(got), next((j for j in range(min(len(got), len(b))) if got[j] != b[j]), min(len(got), len(b)))))
                if k == 0: back = frm
                cnt['forwarded'] = cnt.get('forwarded', 0) + 1; cnt['bytes'] = cnt.get('bytes', 0) + len(b)
                if i >= len(marks[k]): cnt['after_file_end'] = cnt.get('after_file_end', 0) + 1
        time.sleep(0.02)
        nothing(B, 'more than was sent or a datagram marked as lost'); nothing(A, 'more than was sent back or a datagram marked as lost'); tool.alive(); tool.drained()
        return cnt, trace
    finally:
        if tool: tool.stop()
        A.close(); B.close()


def random_mode_case(r, exe, d, c):
    """uniform and burst: which ones are lost is random; the rest must be an unmodified subsequence."""
    n = r.randint(60, 200); cnt = {}
    par = ['uniform'] + [str(r.randint(5, 90)) for _ in range(2)] if r.random() < 0.5 else ['burst'] + [str(r.randint(20, 95)) for _ in range(4)]
    A, B = sock(), sock(); tool = None
    try:
        tool = Tool(exe, [], ['127.0.0.1', str(B.getsockname()[1])] + par, d)
        to = ('127.0.0.1', tool.port); back = None; sent = [[], []]; got = [[], []]; trace = par[:1]
        for i in range(n):
            k = 0 if back is None or r.random() < 0.5 else 1
            b = struct.pack('>I', i) + blob(r, False)[:2000]; sent[k].append(b)
            (A if k == 0 else B).sendto(b, to if k == 0 else back); tool.drained((back[1],) if back else ())
            for s, g in ((B, got[0]), (A, got[1])):
                while select.select([s], [], [], 0)[0]:
                    x, frm = s.recvfrom(70000); g.append(x)
                    if s is B: back = frm
        time.sleep(0.05)
        for s, g in ((B, got[0]), (A, got[1])):
            while select.select([s], [], [], 0.05)[0]: g.append(s.recvfrom(70000)[0])
        for k in (0, 1):
            it = iter(sent[k])
            for j, x in enumerate(got[k]):
                if not any(x == y for y in it): raise Fail('%s mode: forwarded datagram %d (%d bytes) is not one that was sent, or not in order, or a duplicate' % (par[0], j, len(x)))
            cnt['forwarded'] = cnt.get('forwarded', 0) + len(got[k]); cnt['lost'] = cnt.get('lost', 0) + len(sent[k]) - len(got[k]); trace.append('%d/%d' % (len(got[k]), len(sent[k])))
        tool.alive(); cnt['random_mode_datagrams'] = n
        return cnt, trace
    finally:
        if tool: tool.stop()
        A.close(); B.close()


def rate_case(r, exe, d, c):
    """uniform and burst: the share of datagrams lost over a long stream, one way only."""
    n = 8000; cnt = {}
    fine = c % 40 == 7 # near the ends the share is measured to half a percent
    if fine: n = 24000
    if c % 2: p = r.choice([1, 2, 98, 99]) if fine else r.randint(5, 90); par = ['uniform', str(p), '50']; exp = p / 100.; inflation = 1
    else:
        g, b = r.randint(40, 95), r.randint(10, 90); par = ['burst', str(g), str(b), '50', '50']
        x, y = (101 - g) / 100., (101 - b) / 100.; exp = x / (x + y); inflation = (2 - x - y) / (x + y) # of the variance: consecutive losses are correlated
    A, B = sock(), sock(); tool = None; got = 0
    try:
        tool = Tool(exe, [], ['127.0.0.1', str(B.getsockname()[1])] + par, d); to = ('127.0.0.1', tool.port); last = -1
        for i in range(n):
            A.sendto(struct.pack('>I', i), to)
            if i % 40 == 39 or i == n - 1:
                tool.drained()
                if i == n - 1: time.sleep(0.1)
                while select.select([B], [], [], 0)[0]:
                    x = struct.unpack('>I', B.recv(100))[0]; got += 1
                    if x <= last: raise Fail('%s: datagram %d forwarded after %d' % (par, x, last))
                    last = x
        share = 1 - got / n; cnt['streams_measured'] = 1
        if abs(share - exp) > (0.001 if fine else 0.003) + 5 * (exp * (1 - exp) * max(inflation, 1) / n) ** 0.5: raise Fail('%s: %.1f %% of %d datagrams were lost instead of about %.1f %%' % (' '.join(par), 100 * share, n, 100 * exp))
        tool.alive(); return cnt, par + ['%.3f' % share]
    finally:
        if tool: tool.stop()
        A.close(); B.close()


def duplex_case(r, exe, d, c):
    """Traffic both ways at once: the tool finds datagrams waiting on both sides."""
    A, B = sock(), sock(); tool = None; cnt = {}; trace = []; marks = []; names = []
    for k in (0, 1):
        m = [False] + [r.random() < 0.2 for _ in range(r.choice([0, 40, 400]))]; marks.append(m)
        path = os.path.join(d, 'loss%d' % k); names.append(path)
        with open(path, 'w') as f: f.write(''.join('01'[x] + '\n' for x in m))
    try:
        tool = Tool(exe, [], ['127.0.0.1', str(B.getsockname()[1]), 'file'] + names, d); to = ('127.0.0.1', tool.port)
        A.sendto(b'first', to); got, back = recv(B, tool, 'the first datagram'); idx = [1, 0]
        if got != b'first': raise Fail('the first datagram: other bytes were forwarded')
        for rnd in range(12):
            exp = [[], []]; os.kill(tool.p.pid, signal.SIGSTOP)
            try:
                todo = [0] * r.randint(1, 12) + [1] * r.randint(1, 12); r.shuffle(todo)
                for k in todo:
                    b = struct.pack('>BI', k, idx[k]) + r.randbytes(r.choice([1, 10, 100, 1400, 9000]))
                    lost = idx[k] < len(marks[k]) and marks[k][idx[k]]; idx[k] += 1
                    (A if k == 0 else B).sendto(b, to if k == 0 else back)
                    if not lost: exp[k].append(b)
                    cnt['lost' if lost else 'forwarded'] = cnt.get('lost' if lost else 'forwarded', 0) + 1
            finally: os.kill(tool.p.pid, signal.SIGCONT)
            trace.append('%d>%d<' % (todo.count(0), todo.count(1)))
            for k, s in ((0, B), (1, A)):
                for j, b in enumerate(exp[k]):
                    got, _ = recv(s, tool, 'round %d, datagram %d %s' % (rnd, j, 'towards the destination' if k == 0 else 'back'))
                    if got != b: raise Fail('traffic both ways, round %d: datagram %d of %d bytes %s came out as %d other bytes' % (rnd, j, len(b), 'towards the destination' if k == 0 else 'back', len(got)))
            tool.drained((back[1],))
        nothing(B, 'more than was sent'); nothing(A, 'more than was sent back'); tool.alive(); cnt['duplex_rounds'] = 12
        return cnt, trace
    finally:
        if tool: tool.stop()
        A.close(); B.close()


def long_proxy_case(r, exe, d, c):
    """Many datagrams through one process, which also lives long enough for its periodic report."""
    A, B = sock(), sock(); tool = None; cnt = {}; n = 9000; names = [os.path.join(d, 'loss%d' % k) for k in (0, 1)]
    for x in names: open(x, 'w').close()
    try:
        t0 = time.time(); tool = Tool(exe, [], ['127.0.0.1', str(B.getsockname()[1]), 'file'] + names, d); to = ('127.0.0.1', tool.port); back = None
        for i in range(0, n, 30):
            for j in range(30): A.sendto(struct.pack('>I', i + j) + bytes(j), to)
            for j in range(30):
                got, back = recv(B, tool, 'datagram %d' % (i + j))
                if got != struct.pack('>I', i + j) + bytes(j): raise Fail('datagram %d of a long stream: %d other bytes were forwarded' % (i + j, len(got)))
            if i % 3 == 0:
                for j in range(30): B.sendto(struct.pack('>I', i + j) + bytes(j), back)
                for j in range(30):
                    got, _ = recv(A, tool, 'datagram %d back' % (i + j))
                    if got != struct.pack('>I', i + j) + bytes(j): raise Fail('datagram %d back in a long stream: %d other bytes were forwarded' % (i + j, len(got)))
        while time.time() < t0 + 6: time.sleep(0.1); tool.alive()
        A.sendto(b'still there', to); got, _ = recv(B, tool, 'a datagram after some seconds')
        if got != b'still there': raise Fail('a datagram after some seconds: other bytes were forwarded')
        B.sendto(b'yes', back); got, _ = recv(A, tool, 'a datagram back after some seconds')
        if got != b'yes': raise Fail('a datagram back after some seconds: other bytes were forwarded')
        nothing(B, 'more than was sent'); tool.alive(); return {'forwarded': 2 * n + 2, 'long_streams': 1}, ['%d datagrams both ways' % n]
    finally:
        if tool: tool.stop()
        A.close(); B.close()


# ------------------------------------------------------------------------------ source forwarder
def source(r, sym, i=None): return struct.pack('>BIH', 2, r.getrandbits(32) if i is None else i, len(sym)) + sym


def forwarder_case(r, exe, d, c):
    A, B = sock(), sock(); tool = None; cnt = {}; trace = []
    try:
        tool = Tool(exe, [], ['127.0.0.1', str(B.getsockname()[1])], d); to = ('127.0.0.1', tool.port)
        for i in range(r.randint(10, 120)):
            sym = blob(r, c % 3 == 0)[:65500]; k = r.random(); expect = None
            if i == 0: k = 0
            if k < 0.45: p, expect, kind = source(r, sym), sym, 'source'
            elif k < 0.55: sym = sym[:60000]; p, expect, kind = source(r, sym) + r.randbytes(r.randint(1, 200)), sym, 'source+extra'
            elif k < 0.65: x = source(r, sym); p, kind = x[:r.randint(1, len(x) - 1)], 'truncated'
            elif k < 0.72: p, kind = source(r, sym)[:r.randint(1, 7)], 'header'
            elif k < 0.78: p, kind = struct.pack('>BIH', 2, 5, r.randint(len(sym[:500]) + 1, 65535)) + sym[:500], 'overlong'
            elif k < 0.86: p, kind = struct.pack('>BIH', 1, i, min(len(sym), 1000)) + sym[:1000] + struct.pack('>HII', 1, 3, 77), 'repair'
            elif k < 0.94: p, kind = struct.pack('>BHHI', 0, 4, 1, 9), 'ack'
            else: p, kind = bytes([r.choice([3, 4, 0x12, 0x82, 0xff, 0x32])]) + sym[:3000], 'unknown'
            A.sendto(p, to); cnt[kind] = cnt.get(kind, 0) + 1; trace.append('%s:%d' % (kind, len(p)))
            if expect is None: tool.drained()
            else:
                got, _ = recv(B, tool, 'the data of source %d (%d bytes)' % (i, len(sym)))
                if got != expect: raise Fail('source %d (%s) of %d bytes: %d other bytes were emitted (previous datagrams: %s)' % (i, kind, len(sym), len(got), trace[-4:]))
                cnt['sources_forwarded'] = cnt.get('sources_forwarded', 0) + 1
        time.sleep(0.02); nothing(B, 'though only sources have to be'); tool.alive()
        last = source(r, b'the end' + sym[:50]); A.sendto(last, to); got, _ = recv(B, tool, 'the last source')
        if got != last[7:]: raise Fail('something else than the last source was emitted: %r' % got[:40])
        return cnt, trace
    finally:
        if tool: tool.stop()
        A.close(); B.close()


def long_forwarder_case(r, exe, d, c):
    A, B = sock(), sock(); tool = None; n = 9000
    try:
        tool = Tool(exe, [], ['127.0.0.1', str(B.getsockname()[1])], d); to = ('127.0.0.1', tool.port)
        for i in range(0, n, 30):
            for j in range(30):
                A.sendto(source(r, struct.pack('>I', i + j) + bytes(j), i + j), to)
                if r.random() < 0.1: A.sendto(struct.pack('>BHHI', 0, 4, 1, 9), to)
            for j in range(30):
                got, _ = recv(B, tool, 'the data of source %d' % (i + j))
                if got != struct.pack('>I', i + j) + bytes(j): raise Fail('source %d of a long stream: %d other bytes were emitted' % (i + j, len(got)))
        nothing(B, 'more than was sent'); tool.alive(); return {'sources_forwarded': n, 'long_streams': 1}, ['%d sources' % n]
    finally:
        if tool: tool.stop()
        A.close(); B.close()


def one_case(seed, c, proxy, fwd):
    fn, exe = (long_proxy_case, proxy) if c % 125 == 1 else (long_forwarder_case, fwd) if c % 125 == 3 else (duplex_case, proxy) if c % 20 == 6 else ((rate_case, proxy) if c % 20 in (7, 12) else (proxy_case, proxy) if c % 5 < 2 else (random_mode_case, proxy) if c % 5 == 2 else (forwarder_case, fwd))
    last = None; fails = []
    for attempt in range(3):
        d = tempfile.mkdtemp(prefix='vf-c21-')
        try:
            cnt, trace = fn(random.Random('%d.%d' % (seed, c)), exe, d, c)
            return ('ok', fn.__name__, cnt, trace, fails)
        except Fail as e:
            fails.append(str(e)); last = ('viol', fn.__name__, str(e), None, fails)
            # reported if it happens again in fresh processes
            if len(fails) == 2: return last
        except (Retry, OSError) as e:
            last = ('retry', fn.__name__, str(e), None, fails); time.sleep(0.3)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return last


def run(ctx, proxy, fwd, ncases):
    res = ctx.result; bad = None; unclear = []
    with cf.ThreadPoolExecutor(6) as ex:
        for c, r in enumerate(ex.map(lambda c: one_case(ctx.seed, c, proxy, fwd), range(ncases))):
            if r[0] == 'ok':
                res.evaluations += 1; res.nontrivial += 1; res.distinct.add(hashlib.sha256(('%s %s' % (r[1], r[3])).encode()).hexdigest()[:16])
                for k, v in r[2].items(): res.counters[r[1][:-5] + '_' + k] = res.counters.get(r[1][:-5] + '_' + k, 0) + v
                if len(res.samples) < 6 and c % 3 == 0: res.samples.append('case %d %s: %s' % (c, r[1], ' '.join(r[3])[:300]))
                if r[4]: res.notes.append('case %d had to be run again: %s' % (c, r[4][0][:200]))
            elif r[0] == 'viol':
                if bad is None: bad = (c, r)
            else: unclear.append('case %d: %s' % (c, r[2]))
    if bad:
        c, r = bad
        me = os.path.abspath(__file__)
        raise vf.Violation('%s: %s' % (r[1], r[2]), vf.write_replay('C21', [sys.executable, me, str(ctx.seed), str(c), proxy, fwd], '%s: %s' % (r[1], r[2])))
    if len(unclear) > ncases // 5: raise vf.Inconclusive('; '.join(unclear[:3]))
    res.notes += unclear


if __name__ == '__main__':
    r = one_case(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]); print(r[1], r[2]); sys.exit(1 if r[0] == 'viol' else 0)
