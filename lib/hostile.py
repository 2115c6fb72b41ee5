"""A client that speaks the protocol with well-formed framing but hostile content.
argv[1]: JSON with port, P, D, stage, N, s, pks, seed, modes"""
import ctypes, json, random, socket, struct, sys, time

PR = 2**31 - 1
so = ctypes.CDLL('libsodium.so.23')
so.sodium_init()


def seal(msg, pk):
    out = ctypes.create_string_buffer(len(msg) + 48)
    so.crypto_box_seal(out, msg, ctypes.c_ulonglong(len(msg)), pk)
    return out.raw


def recvn(c, n):
    d = b''
    while len(d) < n:
        x = c.recv(min(65536, n - len(d)))
        if not x:
            raise EOFError
        d += x
    return d


def main():
    a = json.loads(sys.argv[1])
    R = random.Random(a['seed'])
    P, N, D, stage, modes = a['P'], a['N'], a['D'], a['stage'], a['modes']
    pks = [bytes.fromhex(k) for k in a['pks']]
    for _ in range(2000):
        try:
            c = socket.create_connection(('127.0.0.1', a['port']))
            break
        except OSError:
            time.sleep(0.005)
    else:
        return
    c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    wild = [0, 1, N - 1 if N else 0, N, N + 1, D, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 7 << 32]
    wtag = lambda: R.choice(wild) if R.random() < .5 else R.getrandbits(64)
    tags = []
    try:
        c.sendall(struct.pack('<I', N))
        recvn(c, 1)
        secrets = []
        if stage != 'online':
            blob = b''
            for i in range(N):
                tag = (a['s'] << 32) | i
                inner = b''
                ts = [tag] * (P + 1)
                if 'tags' in modes:
                    ts = [wtag() for _ in range(P + 1)]
                if 'dup' in modes and R.random() < .5 and tags:
                    ts = [R.choice(tags)] * (P + 1)
                if 'chain' in modes:
                    ts = [tag] + [wtag() for _ in range(P)]
                sh = []
                for p in range(P):
                    x, y = R.randrange(PR), R.randrange(1, PR)
                    if 'shares' in modes:
                        x = R.choice([0, PR, PR - 1, 2**32 - 1, R.getrandbits(32)])
                        y = R.choice([0, 1, PR, PR - 1, 2**32 - 1, R.getrandbits(32)])
                    sh.append((x, y))
                for p in range(P - 1, -1, -1):
                    m = struct.pack('<QQII', ts[p], ts[p + 1], *sh[p]) + R.randbytes(52) + inner
                    if 'garbage' in modes and R.random() < .1:
                        m = R.randbytes(len(m))
                    inner = seal(m, pks[p])
                if 'cipher' in modes and R.random() < .3:
                    b = bytearray(inner)
                    b[R.randrange(len(b))] ^= 1 << R.randrange(8)
                    inner = bytes(b)
                blob += inner
                tags.append(ts[0])
                secrets.append(sh)
            c.sendall(blob)
            recvn(c, 1)
        if stage != 'offline':
            blob = b''
            for i in range(N):
                tag = tags[i] if tags else 0
                row = R.randrange(D)
                if 'rows' in modes:
                    row = R.choice([D, D + 1, PR - 1, 2**31, R.randrange(D, PR)])
                tally = row
                if secrets and 'shares' not in modes:
                    for x, y in reversed(secrets[i]):
                        tally = (tally - x) * pow(y, -1, PR) % PR
                elif secrets:
                    tally = R.getrandbits(32)
                if 'tally' in modes:
                    tally = R.choice([0, PR, PR + 1, 2**32 - 1, R.getrandbits(32)])
                if 'unknown' in modes and R.random() < .6:
                    tag = wtag()
                if 'repeat' in modes and tags and R.random() < .6:
                    tag = R.choice(tags)
                blob += struct.pack('<QI', tag, tally & 0xffffffff)
            c.sendall(blob)
            recvn(c, 52 * N)
    except (OSError, EOFError):
        pass
    if 'linger' in modes:
        time.sleep(0.2)
    c.close()


main()
