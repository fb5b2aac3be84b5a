# Starts the server given, with a mock resolver behind it, and runs the case given.
import os, socket, struct, subprocess, sys, threading, time
TTL = [300]
MANY = [1] # records in each answer
def nm(s): return b''.join(bytes([len(l)]) + l.encode() for l in s.split('.') if l) + b'\0'
def rr(n, ty, ttl): rd = {1: b'\1\2\3\4', 28: b'\1' * 16, 16: b'\1x', 52: b'\3\1\1\5\6'}[ty]; return nm(n) + struct.pack('>HHIH', ty, 1, ttl, len(rd)) + rd
def proof(n, ty): return rr(n, ty, TTL[0]) * MANY[0]
def recv(s, n):
    b = b''
    while len(b) < n:
        c = s.recv(n - len(b))
        if not c: raise EOFError
        b += c
    return b
def serve(s):
    try:
        while True:
            q = recv(s, struct.unpack('>H', recv(s, 2))[0])
            p = 12; labels = []
            while q[p]: labels.append(q[p + 1:p + 1 + q[p]].decode()); p += 1 + q[p]
            n = '.'.join(labels) + '.'; ty = struct.unpack('>H', q[p + 1:p + 3])[0]
            a = struct.pack('>HHHHHH', 0, 0x81a0, 1, MANY[0], 0, 0) + nm(n) + struct.pack('>HH', ty, 1) + (b'\xc0\x0c' + rr(n, ty, TTL[0])[len(nm(n)):]) * MANY[0]
            s.sendall(struct.pack('>H', len(a)) + a)
    except (EOFError, OSError): pass
L = socket.create_server(('127.0.0.1', 0))
def accept():
    while True: threading.Thread(target=serve, args=(L.accept()[0],), daemon=True).start()
threading.Thread(target=accept, daemon=True).start()
f = socket.create_server(('127.0.0.1', 0)); port = f.getsockname()[1]; f.close()
srv = subprocess.Popen([sys.argv[1]], env=dict(os.environ, RESOLVER='127.0.0.1:%d' % L.getsockname()[1], BIND='127.0.0.1:%d' % port), stderr=subprocess.DEVNULL)
def connect():
    for _ in range(100):
        try: return socket.create_connection(('127.0.0.1', port), 10)
        except OSError: time.sleep(0.05)
    raise SystemExit('the server does not start')
def ask(pieces):
    s = connect(); s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); s.settimeout(8)
    for i, p in enumerate(pieces):
        if i: time.sleep(0.3)
        s.sendall(p)
    b = b''
    try:
        while True:
            c = s.recv(65536)
            if not c: break
            b += c
    except OSError as e: return None, {}, repr(e)
    if b'\r\n\r\n' not in b: return None, {}, b
    h, body = b.split(b'\r\n\r\n', 1)
    h = h.decode().split('\r\n')
    return int(h[0].split(' ')[1]), {k.lower(): v for k, v in (x.split(': ', 1) for x in h[1:])}, body
try: exec(open(sys.argv[2]).read())
finally: srv.kill()
