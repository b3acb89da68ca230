COMMON = ' Assumes the clang -O0 translation (strict IEEE instead of -ffast-math) and the verifier itself; template parameters are those of the listed instantiations.'
prop('C01', 'CRC equals the polynomial remainder for any data and bit width',
     'For every generator polynomial in use, initial state and sequence of bits, bytes and wider words, the checksum is the remainder the defining bit-serial division gives, with bits taken least significant first; feeding wider words equals feeding their bytes in order, and resetting restores the initial state exactly.',
     'every register state, every input bit, byte and word, every history of calls', 'the CRC test checks a few published check values; register states, wide words and resets are not quantified over',
     ['crc.hh'], [('byte-wise table and bit-serial update', 'CRC')], note='Every obligation discharged for the instantiations in props/C01.' + COMMON, over=('inputs', 'histories'))
prop('C02', 'Bit addressing reads and writes exactly the addressed bit',
     'Reading, setting and toggling a bit of a byte array in big or little endian order affects and reports exactly the addressed bit, for every position, array content and value; every other bit keeps its value.',
     'every bit position and every array content', 'nothing tests these helpers directly; codecs use only some positions',
     ['bitman.hh'], [('bit masks', 'bitman.hh')], note='Proved for a symbolic position in a buffer of symbolic bytes.' + COMMON)
prop('C03', 'Bit streams return what was written, at any offset and width',
     'A value written to a bit stream with a given width is read back unchanged from the same place, consecutive writes and reads advance by exactly the bits moved, and bits outside the written range keep their values, for every offset, width and content.',
     'every bit offset, width, value and buffer content; sequences of operations', 'the class is not exercised by any test',
     ['bitstream.hh'], [('shift and mask transfer', 'bitstream.hh')], note='All offsets and widths by case split, values and contents symbolic.' + COMMON, over=('inputs', 'histories'))
prop('C04', 'Xorshift generators follow their recurrences with full period',
     'Every step of each xorshift generator is the published recurrence and returns the documented output, reset restores the default seed, and the state sequence returns to its start only after the full period of all nonzero states (where the generator is documented to have it).',
     'every generator state', 'no test looks at the generators; a period of 2^32-1 up to 2^160-1 cannot be sampled',
     ['xorshift.hh'], [('shift/xor recurrences', 'xorshift.hh')], note='Steps proved for all states; periods by matrix order over GF(2) extracted from the verified step.' + COMMON, over=('inputs', 'histories'))
prop('C05', 'Maximum length sequences follow the register polynomial',
     'The generator of a maximum length sequence emits the linear feedback shift register sequence of its polynomial from any register state, visits every nonzero state exactly once per period, and reset restores the initial state.',
     'every register state, every polynomial in use', 'the MLS test sums one period for some polynomials',
     ['mls.hh'], [('LFSR step', 'MLS')], note='All register states symbolic; periods by enumeration or matrix order.' + COMMON, over=('inputs', 'histories'))
prop('C06', 'Galois field arithmetic satisfies the field it names',
     'Sums, products, quotients, reciprocals, fused multiply-adds, discrete logarithms and exponentials of field elements, in value and index form and in the table-free reference form, are those of GF(2^M) with the given polynomial, for all operands.',
     'every pair of operands and every table entry', 'the field test samples the larger fields against a reference that shares the code base',
     ['galois_field.hh'], [('log/exp tables', 'GF::Tables'), ('operators on values and indices', 'galois_field.hh')], note='Every table entry and operand pair for degrees 2..8, 10, 12, 16; reference reciprocals of degree 24 and 32 are bounded.' + COMMON)
prop('C07', 'Prime field arithmetic is arithmetic modulo the prime',
     'Sums, differences, negations, products, quotients, powers and reciprocals of reduced elements are those of the integers modulo the prime, deferred operations agree with the integers, and reduction maps any carrier value to its residue.',
     'every pair of operands', 'the prime field test is exhaustive for one small prime and does not cover deferred operations, compound assignment, power or wide carriers',
     ['prime_field.hh'], [('reduce after integer operation', 'prime_field.hh')], note='All operands for seven primes; division in GF(65537) for a sample of divisors with every dividend.' + COMMON)
prop('C08', 'Reed-Solomon encoding yields a code word of the defining roots',
     'For every message of every allowed length, the message followed by the computed parity symbols is a polynomial that vanishes at each of the consecutive generator powers that define the code, the message is left unchanged, and the previous parity content does not matter.',
     'every message of every covered length', 'the encoder tests compare two or three fixed messages',
     ['reed_solomon_encoder.hh', 'galois_field.hh'], [('generator polynomial and division shift register', 'ReedSolomonEncoder')], note='All lengths for codes over GF(8) and GF(16); lengths up to 49 and the full length over GF(256); short lengths over GF(65536).' + COMMON)
prop('C09', 'BCH encoding yields a multiple of the generator polynomial',
     'For every message of every allowed length, in packed and in value form, the message followed by the computed parity bits is a multiple of the generator polynomial, the product of the given minimal polynomials; the message is left unchanged and the previous content of the parity buffer does not matter.',
     'every message of every covered length', 'the encoder tests compare two fixed messages',
     ['bose_chaudhuri_hocquenghem_encoder.hh', 'bitman.hh'], [('generator from minimal polynomials, shift register division', 'BoseChaudhuriHocquenghemEncoder'), ('reference on field values', 'Reference::BoseChaudhuriHocquenghemEncoder')],
     note='All messages, generated for six codes; very long codes by windows of the message.' + COMMON)
prop('C10', 'Interleavers and shuffles are permutations undone by their inverses',
     'Every interleaver, shuffle and bit reversal moves each element of the array to exactly one place, loses and duplicates none, and the matching inverse restores the original array, for every content and element type.',
     'every array content', 'no test covers the interleavers and permutations',
     ['permute.hh', 'interleave.hh', 'xorshift.hh'], [('Fisher-Yates with a generator', 'permute.hh'), ('row-column and block interleavers', 'interleave.hh')],
     note='All contents, for the listed shapes and sizes.' + COMMON)
prop('C11', 'Rotating a vector moves each lane by the given amount in every build',
     'Rotating the first n lanes of a vector by any amount moves each of them cyclically by exactly that amount and leaves the remaining lanes as specified, identically in the AVX2, SSE4.1, NEON and plain builds, for every content.',
     'every lane content, width and amount', 'only the LDPC decoder uses rotations, with few widths, in one build',
     ['rotate.hh', 'simd.hh'], [('lane permutation table', 'vrot'), ('rotation between widths', 'rotate.hh')],
     note='Proved for every width and amount of eight vector types in four builds; the NEON code cannot run here and is proved only.' + COMMON)
prop('C12', 'Exclusive reduction combines all elements but its own',
     'After an exclusive reduction every output element is the combination, by the given associative and commutative operation, of all the other input elements, for every length and content.',
     'every content; every associative and commutative operation', 'no test covers the helper directly',
     ['exclusive_reduce.hh'], [('forward-backward partial results', 'exclusive_reduce')],
     note='The free commutative operation stands for every operation; lengths 2 to 64 and two long ones.' + COMMON)
prop('C13', 'Sorting orders every input and is a permutation of it',
     'The insertion, merge and vector sorts return the elements of the input in order, each as often as before, equal elements in their old order where the sort is stable, and index carrying forms return the matching indices.',
     'every array content including equal elements', 'the sort test draws random arrays of distinct sizes',
     ['sort.hh', 'simd_sort.hh', 'simd.hh'], [('insertion runs and merging', 'MergeSort'), ('vector sort', 'vsort')],
     note='All contents for the listed lengths; longer arrays are bounded exploration.' + COMMON)
prop('C14', 'Hadamard and simplex decoding is maximum likelihood',
     'The encoders map a message to the signs of its inner products with the positions, and the soft decoders return exactly the message whose code word matches the soft values best, or -1 when two match equally well, for all soft values.',
     'every message and every vector of soft values', 'the tests decode random noisy words of a few sizes',
     ['hadamard_encoder.hh', 'hadamard_decoder.hh', 'simplex_encoder.hh', 'simplex_decoder.hh'], [('fast Hadamard transform and search', 'HadamardDecoder'), ('the same with one position less', 'SimplexDecoder')],
     note='All soft values for dimensions 2 to 7.' + COMMON)
prop('C15', 'Short BCH codes correct up to their radius and pick the best code word',
     'The encoder yields the systematic multiple of the generator; the hard decoder corrects every pattern up to the radius, never rejects a code word and returns only code words within the radius; the soft decoder of small codes is maximum likelihood, and that of larger codes returns the best of the code words it finds, never worse than the hard decision.',
     'every message, every error pattern, every received word, every vector of soft values', 'the tests send random words with random noise',
     ['short_bch_code_encoder.hh', 'short_bch_code_decoder.hh'], [('syndrome table', 'ShortBCHCodeDecoder'), ('maximum likelihood and Chase search', 'ShortBCHCodeDecoder::operator()')],
     note='All words of ten codes; soft decoding of all soft values, the Chase search against contracts of the hard decoder and of the match.' + COMMON)
prop('C16', 'Reed-Solomon decoding corrects errors and erasures and never invents words',
     'Every pattern of errors and erasures with twice the errors plus the erasures within the number of roots is corrected exactly, with the number of changed symbols returned; whatever the input, the result is either a code word or a failure, and then data and parity are left alone; shortened codes never touch symbols outside.',
     'every word, every length of shortened codes, every place and magnitude of errors and erasures', 'the tests decode random patterns for two codes and never look at uncorrectable words',
     ['reed_solomon_error_correction.hh', 'reed_solomon_decoder.hh'],
     [('syndromes', 'ReedSolomonDecoder::compute_syndromes'), ('error and erasure locator', 'RS::BerlekampMassey'), ('locations', 'RS::LocationFinder, RS::ArtinSchreier'), ('magnitudes', 'RS::Forney')],
     note='Complete for small codes over GF(8) and GF(16); single errors and samples of places for GF(256) and GF(65536), otherwise bounded exploration there.' + COMMON)
prop('C17', 'BCH decoding corrects errors and erasures and never invents words',
     'Every pattern of bit errors and erasures with twice the errors plus the erasures within the number of roots is corrected exactly, by the packed and the reference decoder; whatever the input, the result is a code word or a failure, and then the bits are left alone; shortened codes never touch bits outside, nor do the packed ones touch the padding.',
     'every word, every length, every place of errors and erasures', 'the tests decode random patterns and never look at uncorrectable words or stray bits',
     ['bose_chaudhuri_hocquenghem_decoder.hh', 'reed_solomon_error_correction.hh'],
     [('syndromes', 'BoseChaudhuriHocquenghemDecoder::compute_syndromes'), ('correction algorithm', 'ReedSolomonErrorCorrection'), ('bit flips', 'BoseChaudhuriHocquenghemDecoder::operator()')],
     note='Complete for (15,5) and (15,7), three errors of (31,16); the larger codes are sampled.' + COMMON)
prop('C18', 'Cauchy Reed-Solomon erasure coding recovers the data from any blocks',
     'Any blocks with different identifiers, as many as the data had, give back exactly the data, for every identifier the field allows, every block length and alignment; a block is the Cauchy combination of the data whatever kernel computes it, and nothing but the result is written.',
     'all data, every choice and order of identifiers, every length and alignment, every instruction set flavour', 'the tests recover random data from random identifiers with the one flavour they are built for',
     ['cauchy_reed_solomon_erasure_coding.hh'],
     [('coefficients', 'cauchy_matrix, inverse_cauchy_matrix'), ('kernels', 'mac_simd, multiply_accumulate'), ('coding', 'encode, decode')],
     note='Complete in the data; identifiers complete for small fields and counts, sampled otherwise.' + COMMON)
prop('C19', 'Cauchy prime field erasure coding recovers the data from any blocks',
     'Any blocks with different identifiers, as many as the data had, give back exactly the data together with their substitutes; the substitute of a block is never a value the block uses otherwise, so that the one value that does not fit its storage is recovered; deferred sums and products never overflow for any identifiers in range.',
     'all data, every choice and order of identifiers, every block length', 'the tests recover random data, in which the value that does not fit hardly ever comes up for the larger field',
     ['cauchy_prime_field_erasure_coding.hh', 'prime_field.hh'],
     [('coefficients', 'cauchy_matrix, inverse_cauchy_matrix'), ('steps', 'mac, mac_sub'), ('substitutes', 'find_unused'), ('coding', 'encode, decode')],
     note='Modular: steps, substitutes and coefficients on their own, the callers against their contracts.' + COMMON)
