# Helper of the demonstrations: the Python binding with the library built in /repo, and a small PDF reader.
import os, sys, re, zlib, tempfile, shutil, atexit
os.environ['CAPYPDF_SO_OVERRIDE'] = '/repo/_build/src'
sys.path.insert(0, '/repo/python'); sys.dont_write_bytecode = True
import capypdf
DIR = tempfile.mkdtemp(); atexit.register(shutil.rmtree, DIR, True)
OUT = os.path.join(DIR, 'out.pdf')
FONT = '/repo/testdata/fonts/NotoSans-Regular.ttf'
def props(w=200, h=200, **k):
    d = capypdf.DocumentProperties(); p = capypdf.PageProperties()
    p.set_pagebox(capypdf.PageBox.Media, 0, 0, w, h); d.set_default_page_properties(p)
    return d
def gen(d=None): return capypdf.Generator(OUT, d or props())
class Doc:
    def __init__(self, path=OUT):
        self.b = open(path, 'rb').read(); self.o = {}; self.s = {}
        for m in re.finditer(rb'(?:^|[\r\n])(\d+) 0 obj\b', self.b):
            n = int(m[1]); e = self.b.find(b'endobj', m.end()); t = self.b[m.end():e]
            k = re.search(rb'\bstream\r?\n', t)
            if k:
                L = re.search(rb'/Length\s+(\d+)', t[:k.start()]); st = m.end() + k.end()
                data = self.b[st:st + int(L[1])]
                if b'FlateDecode' in t[:k.start()]: data = zlib.decompress(data)
                self.s[n] = data; t = t[:k.start()]
            self.o[n] = t
        for n, t in list(self.o.items()):
            if re.search(rb'/Type\s*/ObjStm', t):
                N = int(re.search(rb'/N\s+(\d+)', t)[1]); F = int(re.search(rb'/First\s+(\d+)', t)[1])
                h = [int(x) for x in self.s[n][:F].split()]
                for i in range(N):
                    e = F + h[2 * i + 3] if i + 1 < N else None
                    self.o[h[2 * i]] = self.s[n][F + h[2 * i + 1]:e]
    def find(self, pat): return [n for n in sorted(self.o) if re.search(pat, self.o[n], re.S)]
    def named(self, text): # objects that contain a text string
        h = b'<FEFF' + text.encode('utf-16-be').hex().upper().encode() + b'>'; e = re.escape(text.encode())
        return [n for n in sorted(self.o) if h in self.o[n] or re.search(rb'\((?:\xef\xbb\xbf)?' + e + rb'\)', self.o[n])]
    def ref(self, t, key):
        m = re.search(key + rb'\s+(\d+) 0 R', t, re.S); return int(m[1]) if m else None
    def pages(self):
        def walk(n):
            t = self.o[n]
            if re.search(rb'/Type\s*/Pages\b', t):
                k = re.search(rb'/Kids\s*\[(.*?)\]', t, re.S)[1]
                return [p for m in re.finditer(rb'(\d+) 0 R', k) for p in walk(int(m[1]))]
            return [n]
        cat = self.find(rb'/Type\s*/Catalog')[0]
        return walk(self.ref(self.o[cat], rb'/Pages'))
    def content(self, i): return self.s[self.ref(self.o[self.pages()[i]], rb'/Contents')]
def expect(c, what):
    if not c: print('FAILED: ' + what); sys.exit(1)
