"""Record layout of the classes a proof enumerates the members of: a generated header listing every non-padding member."""
import re
import subprocess

SIZE = {'_Bool': 1, 'bool': 1, 'char': 1, 'int8_t': 1, 'uint8_t': 1, 'signed char': 1, 'unsigned char': 1, 'int16_t': 2, 'uint16_t': 2,
        'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'unsigned': 4, 'int32_t': 4, 'uint32_t': 4, 'float': 4,
        'long': 8, 'unsigned long': 8, 'int64_t': 8, 'uint64_t': 8, 'double': 8, 'size_t': 8, 'long long': 8, 'unsigned long long': 8}


class Layouts:
    def __init__(self, text):
        self.rec = {}
        self.size = {}
        for t in text.split('*** Dumping AST Record Layout')[1:]:
            rows = []
            for l in t.splitlines():
                m = re.match(r'\s+(\d+)(:[\d-]+)? \|(\s+)(.*)', l)
                if m:
                    rows.append((int(m[1]), m[2], len(m[3]), m[4].strip()))
            m = re.search(r'\[sizeof=(\d+)', t)
            if rows and m:
                n = re.sub(r'^(class|struct|union) ', '', re.sub(r' \((empty|base|primary base)\)', '', rows[0][3]))
                self.rec[n] = rows[1:] if len(rows) > 1 else []
                self.size[n] = int(m[1])

    def find(self, ty):
        ty = re.sub(r'^(class|struct|union|enum) ', '', ty)
        if ty in self.rec:
            return ty
        c = [n for n in self.rec if n.endswith('::' + ty)]
        return c[0] if len(c) == 1 else None

    def leaves(self, name, off=0, path=''):
        """[(offset, size, path)], pointers and padding left out; None where a type is not understood"""
        rows = self.rec[name]
        out = []
        stack = []
        for i, (o, bits, depth, text) in enumerate(rows):
            while stack and stack[-1][0] >= depth:
                stack.pop()
            if text.endswith('(empty)') or 'vtable pointer' in text:
                continue
            m = re.match(r'(.*?)\s*([A-Za-z_]\w*)?$', text)
            base = text.endswith('base)')
            member = '' if base else text.rsplit(' ', 1)[-1]
            ty = text if base else text.rsplit(' ', 1)[0]
            here = '.'.join([s[1] for s in stack if s[1]] + ([member] if member else []))
            if i + 1 < len(rows) and rows[i + 1][2] > depth:
                stack.append((depth, member))
                continue
            if '*' in ty or bits:
                continue
            ty = re.sub(r'\bconst ', '', ty)
            m = re.match(r'(.*?)((\[\d+\])*)$', ty)
            n = 1
            for d in re.findall(r'\[(\d+)\]', m[2]):
                n *= int(d)
            el = m[1].strip()
            full = path + here
            if el in SIZE:
                out.append((off + o, SIZE[el] * n, full))
                continue
            r = self.find(el)
            if r is not None:
                for k in range(n):
                    out += self.leaves(r, off + o + k * self.size[r], '%s%s.' % (full, '[%d]' % k if m[2] else ''))
            # enumerations and types without a record of their own are left out
        return out


def header(cls, clang, flags, spec):
    p = subprocess.run([clang] + flags + ['-fsyntax-only', '-DECLVC_LAYOUT', '-Xclang', '-fdump-record-layouts', spec], capture_output=True, text=True)
    if p.returncode:
        return None, p.stderr
    L = Layouts(p.stdout)
    s = '#pragma once\nstruct vc_member { unsigned off, size; const char *name; };\n'
    for c in cls:
        if c not in L.rec:
            return None, 'no layout of class ' + c
        s += 'static const vc_member %s_members[] = {\n' % re.sub(r'\W', '_', c)
        s += ''.join('{%d, %d, "%s"},\n' % x for x in sorted(set(L.leaves(c)))) + '};\n'
    return s, None
