SCOPE = "short BCH codes (7,1) (7,3) (7,4) (15,4) (15,5) (15,7) (15,11) (23,12) with both Golay polynomials and (31,16): every message encoded, every error pattern up to the radius on every code word corrected, every received word; maximum likelihood decoding of the codes with up to four message bits for all soft values ((15,4) in the thorough tier), against a reference search whose invariant is proved for an arbitrary step; the Chase search of the larger codes against the contracts of the hard decoder and of the match"
REST = ['h_search_step', 't_15_4_soft'] + ['h_%s_soft' % c for c in ('7_1', '7_3', '7_4')]
REST += ['h_%s_%s' % (c, e) for c in ('7_4', '15_11', '15_7', '15_5', '23_12', '23_12_dual', '31_16', '7_1', '7_3', '15_4') for e in ('encode', 'correct', 'sound')]
UNITS = [dict(src='sbch.cc', entries=REST, opts=['--max-runs', '100000'])]
for c in ('15, 11, 19, 1', '15, 5, 1335, 3', '31, 16, 36783, 3'):
    UNITS.append(dict(src='sbch.cc', entries=['h_%s_chase' % '_'.join(c.split(', ')[:2])],
        replace=[(r'ShortBCHCodeDecoder<%s>::operator\(\)\(int\)' % c, 'hard_contract<Code<%s>>' % c),
                 (r'ShortBCHCodeDecoder<%s>::metric\(' % c, 'metric_contract<Code<%s>>' % c)]))
UNITS.append(dict(src='sbch.cc', entries=['h_15_metric', 'h_31_metric']))
SECS = 2
