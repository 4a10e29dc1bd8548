"""Schemas of the harnesses: one description yields the .proto text and the C++ bridge."""
NUM = {'double': ('T_DOUBLE', 'double'), 'float': ('T_FLOAT', 'float'), 'int32': ('T_I32', 'int32_t'), 'int64': ('T_I64', 'int64_t'),
       'uint32': ('T_U32', 'uint32_t'), 'uint64': ('T_U64', 'uint64_t'), 'sint32': ('T_I32', 'int32_t'), 'sint64': ('T_I64', 'int64_t'),
       'fixed32': ('T_U32', 'uint32_t'), 'fixed64': ('T_U64', 'uint64_t'), 'sfixed32': ('T_I32', 'int32_t'), 'sfixed64': ('T_I64', 'int64_t'),
       'bool': ('T_BOOL', 'bool'), 'string': ('T_STRING', None), 'bytes': ('T_BYTES', None)}
SCALARS = list(NUM)


class F:
    def __init__(self, name, type, num, repeated=False, transient=False, json=None, optional=False):
        self.name, self.type, self.num, self.repeated, self.transient, self.json, self.optional = name, type, num, repeated, transient, json, optional

    def proto(self):
        o = []
        if self.transient: o.append('transient = true')
        if self.json is not None: o.append('name = "%s"' % self.json)
        return '%s%s%s %s = %d%s;' % ('repeated ' if self.repeated else '', 'optional ' if self.optional else '', self.type, self.name, self.num, ' [' + ', '.join(o) + ']' if o else '')


class M:
    def __init__(self, name, fields): self.name, self.fields = name, fields


class Schema:
    """options: number_names, obfuscate_strings, cpp_use_lists -> bool"""
    def __init__(self, name, messages, package='', options=None):
        self.name, self.messages, self.package, self.options = name, messages, package, dict(options or {})

    def proto(self):
        o = ['syntax = "proto3";']
        if self.package: o.append('package %s;' % self.package)
        for k, v in self.options.items(): o.append('option %s = %s;' % (k, 'true' if v else 'false'))
        for m in self.messages: o.append('message %s {\n%s}' % (m.name, ''.join('  %s\n' % f.proto() for f in m.fields)))
        return '\n'.join(o) + '\n'

    def cpp(self, m): return '::' + '::'.join((self.package.split('.') if self.package else []) + [m])

    def jname(self, f):
        if self.options.get('number_names'): return str(f.num)
        return f.json if f.json is not None else f.name

    def bridge(self):
        """C++ code, to be included after the generated header and before bridge.hh's templates are used"""
        o = []
        ns = self.package.split('.') if self.package else []
        names = {m.name for m in self.messages}
        order, done = [], set()
        byname = {m.name: m for m in self.messages}
        def add(m):
            if m.name in done: return
            done.add(m.name)
            for f in m.fields:
                if f.type in byname: add(byname[f.type])
            order.append(m)
        for m in self.messages: add(m)
        o += ['namespace %s {' % n for n in ns]
        for m in order:
            T = self.cpp(m.name)
            o.append('inline const ref::MsgD &desc_of(const %s*)\n{\n    static const ref::MsgD d = { "%s", {' % (T, m.name))
            for f in m.fields:
                ty = NUM[f.type][0] if f.type in NUM else 'T_MSG'
                r = '&desc_of((const %s*) nullptr)' % self.cpp(f.type) if f.type in byname else 'nullptr'
                j = '"' + ''.join('\\x%02x""' % b if b >= 0x80 or b < 0x20 else ('\\' + chr(b) if b in b'"\\?' else chr(b)) for b in self.jname(f).encode()) + '"'
                o.append('        { "%s", %s, ref::%s, %s, %s, %s },' % (f.name, j, ty, str(f.repeated).lower(), str(f.transient).lower(), r))
            o.append('    } };\n    return d;\n}')
            o.append('template<typename F> void visit(%s &m, F &&f)\n{\n    (void) m; (void) f;' % T)
            for i, f in enumerate(m.fields): o.append('    f(%d, m.%s);' % (i, f.name))
            o.append('}')
        o += ['}' for n in ns]
        return '\n'.join(o) + '\n'


def all_kinds(**kw):
    """Every scalar type, single and repeated, bytes, messages, nesting and a transient field."""
    inner = M('Inner', [F('n', 'int32', 1), F('s', 'string', 2), F('b', 'bytes', 3), F('l', 'bool', 4, repeated=True)])
    mid = M('Mid', [F('i', 'Inner', 1), F('r', 'Inner', 2, repeated=True), F('d', 'double', 3)])
    fs, k = [], 1
    for t in SCALARS:
        fs.append(F('f_' + t, t, k)); k += 1
    for t in SCALARS:
        fs.append(F('r_' + t, t, k, repeated=True)); k += 1
    fs += [F('m', 'Mid', k), F('rm', 'Mid', k + 1, repeated=True), F('t', 'string', k + 2, transient=True), F('tm', 'Inner', k + 3, transient=True)]
    return [inner, mid, M('All', fs)]
