SCOPE = "Cauchy prime field erasure coding over 257 and 65537: the accumulation steps for all values, factors and sums that can come up; the search for a substitute for all values of short blocks and of blocks crowded with values; encoder and decoder around contracts of the steps; every coefficient of encoding over 257 and the coefficients of decoding for any two identifiers and samples of up to 24 (64 in the thorough tier); whole codings for all data of one or two blocks and all values of one of many blocks"
import re, os
E = sorted(set(re.findall(r'VF_ENTRY\(([ht]_[0-9a-z_]+)\)', open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cpf.cc')).read())))
UNITS = [dict(src='cpf.cc', entries=[e for e in E if not e.endswith('_')] + ['h_257_steps', 'h_65537_steps'])]
for f, c, e in (('unsigned int, 257u', 'unsigned char, 255', 'h_257_around'), ('unsigned long, 65537ul', 'unsigned short, 1024', 'h_65537_around')):
    cls = r'CauchyPrimeFieldErasureCoding<CODE::PrimeField<%s> ?, %s>' % (f, c)
    UNITS.append(dict(src='cpf.cc', entries=[e], replace=[(cls + r'::mac\(', 'Cpf<%s, %s>::mac_contract' % (f, c)), (cls + r'::mac_sub\(', 'Cpf<%s, %s>::sub_contract' % (f, c)), (cls + r'::find_unused\(', 'Cpf<%s, %s>::unused_contract' % (f, c))]))
SECS = 2
