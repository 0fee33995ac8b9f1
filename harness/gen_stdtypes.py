"""Random histories for spec/StdTypes.tla: chains of operations that start at
standard values and go on with what they give."""

ROCKS = ('int float complex bool none str bytes message timedelta datetime date time tzinfo utc dict_keys '
         'dict_values dict_items object provides implements').split()
KINDS = ('dict list tuple set frozenset decimal weakref function method builtin builtin_method wrapper class '
         'abc_class module list_iter tuple_iter dict_iter set_iter seq_iter generator odict_iter odict_keys '
         'odict_values odict_items islice count map_like '
         'groupby grouper cycle product repeat zip_longest accumulate tee takewhile dropwhile compress permutations combinations combinations_wr '
         'btree_items btree_iter interface ifmethod '
         'class_provides declaration').split()
READ = ('len iter next contains getitem slice add radd sub and or xor call str bool hash repr eq ne lt le gt ge '
        'req rlt').split()
ANY = ('setitem delitem setslice delslice iadd mul rmul imul rsub isub rand iand ror ior rxor ixor mod rmod imod '
       'floordiv rfloordiv ifloordiv truediv rtruediv itruediv divmod rdivmod pow rpow ipow neg pos abs invert int '
       'float index').split()
NAMES = ('index count get copy keys values items union intersection difference symmetric_difference issubset '
         '__name__ __class__ __iter__ __getitem__ __len__ __call__ __contains__ normalize as_tuple adjusted quantize '
         '__bases__ __mro__ __module__ names extends direct __iro__').split()
BAD = ('append extend insert pop remove reverse sort clear popitem setdefault update add discard '
       'difference_update intersection_update send throw close __setitem__ __delitem__ __dict__ __func__ __self__ '
       '__code__ __globals__ __init__ __reduce_ex__ nosuch').split()


def sweeps(rng):
    return [[{'op': 'new', 'id': 'a', 'kind': k, 'v': v}, {'op': 'sweep', 'id': 'a'}] for k in KINDS for v in (0, 1)] + [
        [{'op': 'new', 'id': 'a', 'kind': 'other', 'v': v}, {'op': 'sweep', 'id': 'a'}] for v in range(37)]


def history(rng, length):
    ep, hs = [], []
    for i in range(rng.choice((1, 2, 3))):
        k = rng.choice(KINDS[:6] * 4 + KINDS + ROCKS[:1] + ['other'] * 3)
        ep.append({'op': 'new', 'id': 'v%d' % i, 'kind': k, 'v': rng.randrange(10000)})
        hs.append('v%d' % i)
    for j in range(length):
        h = rng.choice(hs[-6:] + hs[:2])
        res = 'r%d' % j if rng.random() < .6 else ''
        r = rng.random()
        if r < .45:
            ep.append({'op': 'use', 'id': h, 'way': rng.choice(READ), 'arg': rng.randrange(5), 'res': res})
        elif r < .6:
            ep.append({'op': 'use', 'id': h, 'way': rng.choice(ANY), 'arg': rng.randrange(5), 'res': res})
        elif r < .8:
            ep.append({'op': 'get', 'id': h, 'name': rng.choice(NAMES), 'res': res})
        elif r < .88:
            ep.append({'op': 'get', 'id': h, 'name': rng.choice(BAD), 'res': res})
        elif r < .94:
            ep.append({'op': 'mutate', 'id': h, 'v': rng.randrange(1000)})
        elif r < .97:
            # a plain value with no sets of attributes at hand
            ep.append({'op': rng.choice(('set', 'del')), 'id': h, 'name': rng.choice(NAMES + BAD), 'res': ''})
        else:
            ep.append({'op': 'new', 'id': 'n%d' % j, 'kind': rng.choice(KINDS), 'v': rng.randrange(10000)})
            hs.append('n%d' % j)
            continue
        if res and ep[-1].get('res'):
            hs.append(res)
    return ep
