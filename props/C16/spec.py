SCOPE = "Reed-Solomon decoders: syndromes of every word of every length over GF(8), GF(16), some lengths over GF(256) and GF(65536); the correction algorithm for every pattern of errors and erasures within the capability of the codes with 2 to 4 roots over GF(8) and GF(16) and first roots 0, 1, 2 and 5, every single error and some places of up to two errors and three erasures of (255,239), two erasures of (65535,65527), and every syndrome of the small codes; the decoder around it against the contract of the algorithm; the quadratic solver of every value of seven fields"
CORE = ['h_15_11_' + e for e in ('e1', 'e2', 'f1', 'f1e1', 'f2', 'f3', 'f4', 'any')]
CORE += ['h_7_3_' + e for e in ('e1', 'e2', 'f1', 'f1e1', 'f2', 'f2e1', 'f3', 'f4', 'any')]
CORE += ['h_15_13_' + e for e in ('e1', 'f1', 'f2', 'any')]
CORE += ['h_15_12_' + e for e in ('e1', 'f1e1', 'f2', 'f3', 'any')]
FORK = ['BerlekampMassey']
UNITS = [dict(src='rsdec.cc', entries=CORE, fork=FORK, opts=['--max-runs', '100000'])]
UNITS.append(dict(src='rsdec.cc', entries=['h_255_239_e1', 'h_255_239_e2', 'h_255_239_f1', 'h_255_239_f2', 'h_255_239_f3', 'h_65535_f2'], fork=FORK, opts=['--max-runs', '100000']))
UNITS.append(dict(src='rsdec.cc', entries=['t_15_11_f2e1', 't_15_9_e3'], fork=FORK, opts=['--max-runs', '100000'], tier='thorough'))
UNITS.append(dict(src='rsdec.cc', entries=['h_artin_schreier_' + f for f in ('3', '4', '5', '7', '8', '16', '16_dvb')]))
UNITS.append(dict(src='rsdec.cc', entries=['h_15_11_syndromes', 'h_7_3_syndromes', 'h_255_239_syndromes', 'h_65535_syndromes', 't_255_239_syndromes']))
for name, cls, entries in (('A', '4, 1, 4, 19, unsigned char', ['h_15_11_around', 'h_15_11_around_f']), ('B', '4, 0, 3, 11, unsigned char', ['h_7_3_around']), ('H', '6, 1, 8, 285, unsigned char', ['h_255_249_around'])):
    nr, fcr, m, poly, t = cls.split(', ')
    UNITS.append(dict(src='rsdec.cc', entries=entries,
        replace=[(r'ReedSolomonErrorCorrection<%s, %s, CODE::GaloisField<%s, %s, %s> ?>::operator\(\)' % (nr, fcr, m, poly, t), 'Dec<%s>::contract' % cls)]))
SECS = 2
