"""Per-property configuration: harness files, per-entry options, stated bounds."""
HALF = 'components of magnitude up to 2^15-1 for 32-bit and 2^31-1 for 64-bit representations (half the width), denominators nonzero'
WIDE = '; and the full range (most negative value excluded) as far as the cross products of the components and the unreduced result fit'
CONF = {
 'C01': dict(bounds=HALF + WIDE + '; all 8 policies (+ and - over the full range of int and long: four of them in the quick tier, all in the thorough one); int, long, unsigned'),
}
CONF.update({k: dict(bounds=HALF + WIDE + '; all 8 policies') for k in ('C02', 'C03', 'C04', 'C05')})
CONF['C06'] = dict(bounds=HALF + WIDE + '; the four reduced-output policies')
CONF['C09'] = dict(bounds='trunc, ceil, floor: the full range; round: half the width, and a quarter of the full range; all 8 policies for int and long')
CONF['C10'] = dict(bounds=HALF + '; and (long in the quick tier, int and more policies in the thorough one) the full range as far as the denominator and the numerator times the new denominator stay within a quarter of it')
CONF.update({k: dict(bounds='the full range (most negative value excluded), denominators nonzero') for k in ('C07', 'C08', 'C25')})
CONF['C08'] = dict(bounds=CONF['C08']['bounds'] + '; sign queries: every bit pattern')
CONF['C11'] = dict(bounds='every exponent from -64 to 64 with every base whose power fits (32- and 64-bit, signed and unsigned), '
                   'twelve exponents beyond up to both extremes of int with bases -1, 0, 1; every power of two that fits',
                   opts=[('H_(pow|ipow|extreme|agree).*', dict(nsamples=1))])
CONF['C12'] = dict(bounds='every float and double bit pattern whose value fits (one symbolic significand and sign per exponent), all NaN payloads and infinities, both zeros; '
                   'int, long and unsigned; policies fast and safe_reduced_io in full, four others in part',
                   theory='bit-vectors', opts=[('.*', dict(domain='bv'))])
CONF['C13'] = dict(bounds='all components up to the mantissa width (float 2^24, double 2^53, long double 2^62) and all components whose reduced form is; '
                   'round trip: every float whose value fits int; policies safe_reduced_io, fast, safe',
                   opts=[('H_trip.*', dict(domain='bv'))])
CONF['C14'] = dict(bounds='all byte strings of length 1-8, 10, 12 and 16 (recogniser) and 1-4, 6 and 8 (rejected text converts to an undefined fraction); thorough: up to 32 bytes',
                   theory='bit-vectors', opts=[('.*', dict(domain='bv', exec=dict(use_feasible=True))), ('._scan_(16|24|32)', dict(weight=9)), ('._scan_12', dict(weight=5))])
CONF['C15'] = dict(bounds='all digit values for the literal shapes listed in the harness (up to 19 decimal or 16 hexadecimal digits, decimal exponents within +-18, binary within +-58, '
                   'separators, both letter cases, with and without a radix point), subject to the value fitting; three of the shapes also through the literal operator _dec',
                   theory='non-linear integer arithmetic for decimal, bit-vectors for hexadecimal literals',
                   opts=[('.*', dict(nsamples=1)), ('.*_hex.*', dict(domain='bv')), ('.*_e', dict(weight=3)), ('.*i64.*_e', dict(weight=6))])
CONF['C16'] = dict(bounds='whole parts and fraction components up to half the width, denominators nonzero; and components beyond 32 bits (up to 2^40-1) for 64-bit parts, up to 2^30 for 32-bit parts (fraction components bounded by half the whole part\'s width where that is narrower); '
                   'all 8 policies for int; long, unsigned and mixed int/long representations for some',
                   opts=[('H_(ctor|neg)_.*_o?', dict(weight=2)), ('H_ctor_(i32_(fast|safe)_reduced_o|i64_safe_reduced_io)', dict(weight=5))])
CONF['C17'] = dict(bounds='policy fast: whole parts up to 2^30-1 and 2^61-1 where an integer is added (32 and 64 bits), else 2^15-1, 2^61-1 with int and 2^24-1 with long fractions, fraction components up to 2^15-1 (int, unsigned, mixed int/long) or 2^24-1 (long); '
                   'mixed<int, int> with fractions of long up to 2^34-1 and with mixed<long, int>; every policy: int with whole parts and fraction components up to 3 in magnitude; policies safe (and, for two mixed numbers, safe_reduced_o): whole parts and numerators up to 2^15-1 over six listed pairs of denominators',
                   opts=[('.*_s32_.*', dict(domain='bv', weight=3, group_asserts=True, t1=60, t2=60)), ('H_(mf|fm)_(i|l|w).*', dict(t1=2, t2=2, small=(), weight=3)), ('H_m._i64.*', dict(weight=4)), ('H_mm_g32_safe_reduced_o', dict(weight=4))])
CONF['C18'] = dict(bounds='all components but the most negative one: pairs of equal value in any two forms, undefined and raw fractions; mixed numbers: components up to half the width', opts=[('.*', dict(uniq=True))])
CONF['C19'] = dict(bounds='int components up to 2^15-1 with long components up to 2^40-1, both orders, fraction and integer operands: exact for policy fast, equal to the operation in the common representation for safe, safe_reduced_io and three more; right operand aliasing the left one; conversions: every bit pattern; '
                   'std::ratio: the twelve listed instances')
CONF['C20'] = dict(bounds='integer over literal: every integer of the type over every literal that fits it (signed and unsigned, 32 and 64 bits); fraction over literal: every fraction and literal (most negative component excluded) whose denominator times the literal fits, all 8 policies for int')
def _streams():
    O, I, B = '_ZNSols', '_ZNSirs', '_ZNKSt9basic_iosIcSt11char_traitsIcEE'
    m = {O + 's': 'os', O + 't': 'ot', O + 'i': 'oi', O + 'j': 'oj', O + 'l': 'ol', O + 'm': 'om', O + 'x': 'ol', O + 'y': 'om'}
    m = {k.replace('ols', 'olsE'): v for k, v in m.items()}
    m.update({'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc': 'ostr', '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c': 'oc',
      '_ZNSo3putEc': 'oc', '_ZNSo5writeEPKcl': 'owrite', '_ZNSo5flushEv': 'oflush',
      '_ZNSirsERi': 'ii', '_ZNSirsERj': 'ij', '_ZNSirsERl': 'il', '_ZNSirsERm': 'im', '_ZNSirsERx': 'il', '_ZNSirsERy': 'im',
      '_ZStrsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_RS3_': 'ic', '_ZNSi3getEv': 'get', '_ZNSi3getERc': 'getc', '_ZNSi4peekEv': 'peek',
      '_ZNSi5ungetEv': 'unget', '_ZNSi7putbackEc': 'putback', '_ZNSi6ignoreEv': 'ignore0', '_ZNSi6ignoreEl': 'ignore1', '_ZNSi6ignoreEli': 'ignore',
      '_ZNSirsEPFRSiS_E': 'oman', '_ZStwsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_': 'ws', '_ZSt2wsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_': 'ws',
      B + '4failEv': 'fail', B + 'ntEv': 'fail', B + 'cvbEv': 'ok', B + '4goodEv': 'good', B + '3eofEv': 'eof',
      '_ZNSt9basic_iosIcSt11char_traitsIcEE8setstateESt12_Ios_Iostate': 'setstate', '_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate': 'clear'})
    return {k: 'svm_' + v for k, v in m.items()}
CONF['C21'] = dict(bounds='every bit pattern of both components (int, long, long long, unsigned, unsigned long); one fraction, and two in sequence separated by a space or a newline; all 8 policies for int',
                   assumptions=['the standard library writes a number as its decimal text and reads that text back as the same number (default stream format)'],
                   opts=[('.*', dict(exec=dict(redirect=_streams())))])
CONF['C23'] = dict(bounds='every numerator and every positive denominator of the type (int, unsigned, long, long long, unsigned long; all 8 policies for int)')
def _fix(*ds): return [{2: (b, b), 3: (d, d)} for b, d in ds]
CONF['C24'] = dict(bounds='every int and unsigned (and, for a part of the policies in the quick tier, long) operand except the most negative value, subject to the rescaled operands (for input-reducing policies: the reduced operands rescaled) and the result fitting; the four safe policies',
                   opts=[('H_(plus|minus|mod)_ff_i32_safe_reduced_(o|io|i)', dict(weight=9)), ('H_.*_ff_i(32|64)_safe', dict(weight=4)), ('H_cmp_ff_i32.*', dict(weight=5)),
                         ('._.*_ff_(i|u)32_.*', dict(hints=_fix((65536, 98304), (1 << 30, 1 << 30), (2147483646, 1073741823), (6, 4)))),
                         ('._.*_ff_i32_.*', dict(hints=_fix((65536, -98304), (-65537, 65537), (1 << 30, 1 << 30), (2147483646, 1073741823), (6, 4)))),
                         ('._.*_ff_i64_.*', dict(hints=_fix((1 << 33, -3 << 32), (1 << 62, 1 << 62), (6, 4))))])
CONF['C22'] = dict(bounds='tick counts up to 2^40 (as far as ticks times the unit factor stay below 2^62), fractional ticks with denominators up to 2^20; int representations as far as they fit; default policy (two pairs of units: all 8 policies); '
                   'the listed pairs of units from nanoseconds to hours and two odd ones; clock readings in the same ranges', opts=[('H_arith_.*', dict(weight=3)), ('H_arith_(odd_fps|ms_mn).*', dict(weight=9))])
CONF['C26'] = dict(bounds='every bit pattern of every component (int and long: all 8 policies; unsigned, unsigned long, long long: one each); mixed numbers from every integer')
