SCOPE = "packed and reference BCH decoders: syndromes of every word of every length of (15,5) and (31,16) and of some lengths of (127,64); the correction algorithm for every pattern of errors and erasures within the capability of (15,5) and (15,7), every pattern of up to three errors of (31,16), samples of (127,64), and every binary syndrome of (15,5) and (15,7); the decoders around it against the contract of the algorithm for any word, with any count, locations and magnitudes"
PAT = ['h_15_5_e%df%d' % p for p in ((1, 0), (2, 0), (3, 0), (0, 1), (0, 2), (1, 1), (2, 1), (0, 3))]
PAT += ['h_15_7_e%df%d' % p for p in ((1, 0), (2, 0), (0, 1), (1, 1), (0, 2), (1, 2), (0, 3))]
PAT += ['h_31_16_e%df0' % e for e in (1, 2, 3)] + ['h_127_64_sampled', 'h_15_5_any', 'h_15_7_any']
FORK = ['BerlekampMassey']
UNITS = [dict(src='bchdec.cc', entries=PAT, fork=FORK, opts=['--max-runs', '100000'])]
UNITS.append(dict(src='bchdec.cc', entries=['t_65535_sampled', 't_15_5_e1f2', 't_15_7_e0f4'], fork=FORK, opts=['--max-runs', '100000'], tier='thorough'))
UNITS.append(dict(src='bchdec.cc', entries=['h_15_5_syndromes', 'h_31_16_syndromes', 'h_127_64_syndromes', 't_65535_syndromes']))
for cls, alg, name in (('6, 5, 4, 19l, unsigned char', '6, 1, CODE::GaloisField<4, 19, unsigned char>', '15_5'), ('4, 7, 4, 19l, unsigned char', '4, 1, CODE::GaloisField<4, 19, unsigned char>', '15_7')):
    UNITS.append(dict(src='bchdec.cc', entries=['h_%s_around' % name, 'h_%s_reference' % name],
        replace=[(r'ReedSolomonErrorCorrection<%s ?>::operator\(\)' % alg, 'Dec<%s>::contract' % cls)]))
SECS = 2
