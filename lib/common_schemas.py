from schema import *


def value_messages():
    """Messages used by the checks about values: every kind, presence patterns, nesting, many fields, names."""
    ms = all_kinds()
    pres = M('Pres', [F('i', 'int32', 1), F('d', 'double', 2), F('b', 'bool', 3), F('s', 'string', 4), F('y', 'bytes', 5), F('rs', 'string', 6, repeated=True), F('m', 'Inner', 7),
                      F('rm', 'Inner', 8, repeated=True), F('t', 'string', 9, transient=True), F('u', 'uint64', 10)])
    chain = [M('L0', [F('v', 'string', 1)])]
    for k in range(1, 7): chain.append(M('L%d' % k, [F('a', 'L%d' % (k - 1), 1), F('b', 'L%d' % (k - 1), 2, repeated=True), F('c', 'int32', 3)]))
    deep = [M('X0', [F('k', 'int32', 1), F('v', 'string', 2)])]
    for k in range(1, 41): deep.append(M('X%d' % k, [F('k', 'X%d' % (k - 1), 1, repeated=k % 3 == 0), F('v', ['string', 'bytes', 'int64', 'double'][k % 4], 2)]))
    wide = M('Wide', [F('w%d' % k, SCALARS[k % 15], k + 1, repeated=k % 5 == 4) for k in range(64)])
    names = M('Names', [F('first', 'int32', 536870911, json='second'), F('second', 'int32', 18999, json='first'), F('sp', 'string', 20000, json='with space / $1$ %s'), F('uni', 'string', 4, json='\u00e9\u20ac\U0001f600'),
                        F('q', 'string', 5, json='what??/now??'), F('_x', 'bool', 6), F('x1', 'bool', 7, optional=True), F('e', 'string', 8, json='')])
    return ms + [pres] + chain + [wide, names] + deep


def option_schemas():
    out = []
    for k in range(8):
        o = {}
        if k & 1: o['number_names'] = True
        if k & 2: o['obfuscate_strings'] = True
        if k & 4: o['cpp_use_lists'] = True
        out.append(Schema('opt%d' % k, value_messages(), package=['', 'a', 'a.b', 'x_1.y2.z', 'q', 'a.b.c.d', '', 'w.w'][k], options=o))
    return out


def doc_schema(options=None, package='doc', name='docs'):
    sub = M('Sub', [F('n', 'int32', 1), F('t', 'string', 2)])
    doc = M('Doc', [F('i', 'int32', 1), F('s', 'string', 2), F('l', 'int32', 3, repeated=True), F('m', 'Sub', 4), F('r', 'Sub', 5, repeated=True), F('y', 'bytes', 6), F('d', 'double', 7), F('b', 'bool', 8),
                    F('ls', 'string', 9, repeated=True), F('ly', 'bytes', 10, repeated=True), F('h', 'string', 11, transient=True), F('hm', 'Sub', 12, transient=True)])
    deep = [M('D0', [F('v', 'int32', 1)])]
    for k in range(1, 4): deep.append(M('D%d' % k, [F('k', 'D%d' % (k - 1), 1), F('r', 'D%d' % (k - 1), 2, repeated=True), F('v', 'int32', 3)]))
    top = M('Deep', [F('k', 'D3', 1), F('r', 'D3', 2, repeated=True)])
    long = M('Long', [F('a' * 63 + 'b', 'int32', 1), F('a' * 64, 'string', 2), F('abcdefgh' * 32, 'int32', 3, repeated=True), F('field_with_a_long_name', 'Sub', 4), F('field_with_a_long_nam3', 'bytes', 5), F('q' * 1000, 'double', 6)])
    ms = all_kinds() + [sub, doc] + deep + [top, M('None', []), long]
    if options and options.get('number_names'):
        # one number for each name, in all messages: the harness renames the members of its documents
        num = {}
        for m in ms:
            for f in m.fields: f.num = num.setdefault(f.name, [7, 70, 18999, 536870911, 65536][len(num)] if len(num) < 5 else 100 + len(num) * 9)
    return Schema(name, ms, package=package, options=options)
