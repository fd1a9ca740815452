PROPS = []
def P(id, title, statement, text, why, files, mech, note=None, na=None, over=('inputs',), state=None, level='proof', technique=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    assert len(title) <= 80, title
    if na: d['na'] = na
    else: d['note'] = note; d['level'] = level
    if technique: d['technique'] = technique
    PROPS.append(d)
WHY = 'The quantifier is over every bit pattern of every format (2^32 to 2^256 operand combinations); the existing tests sample a few dozen tabulated cases per function and almost no non-canonical encodings.'
P('P01', 'Classification and sign operations read every encoding exactly',
  'For every bit pattern of _Decimal32, _Decimal64 and _Decimal128, canonical or not, isnan, isinf, isfinite, issignaling, isnormal, signbit and fpclassify report the class, normality and sign of the datum the BID encoding defines (a non-canonical coefficient is zero). fabs clears and copysign copies the sign bit and changes no other bit. None of them touches memory it does not own or crashes.',
  'every operand bit pattern of the three formats', WHY,
  ['ieee754r/isnand32.c', 'ieee754r/isinfd32.c', 'ieee754r/isfinited32.c', 'ieee754r/isnormald32.c', 'ieee754r/fpclassifyd32.c', 'ieee754r/signbitd32.c', 'ieee754r/issignalingd32.c', 'ieee754r/fabsd32.c', 'ieee754r/copysignd32.c', 'libdecnumber/bid/bid2dpd_dpd2bid.c', 'libdecnumber/bid/decimal32.c', 'libdecnumber/bid/decimal64.c', 'libdecnumber/bid/decimal128.c'],
  [('class functions', 'ieee754r/is*d32.c and their d64/d128 instantiations'), ('decNumber codec', 'libdecnumber/bid/decimal*.c decimalNToNumber/FromNumber')],
  'All functions proved, with the codec bodies proved against the contracts the callers use.')
P('P02', 'Comparisons implement the numerical order of decimals',
  'For every pair of operands of a format, the results of the ==, !=, <, <=, >, >= and unordered comparisons are those of the exact numerical order of the represented values: members of a cohort are equal, zeros of either sign are equal, infinities are extreme, NaNs are unordered (only != and unordered hold). isgreater, isgreaterequal, isless, islessequal, islessgreater and isunordered agree with the same order.',
  'every pair of operand bit patterns of each format', WHY,
  ['base-math/eqsd2.c', 'base-math/ltsd2.c', 'libbid/bid64_compare.c', 'libbid/bid128_compare.c', 'ieee754r/isgreaterd32.c', 'ieee754r/islessd32.c', 'libdecnumber/decNumber.c'],
  [('operators', 'base-math/{eq,ne,lt,le,gt,ge,unord}{sd,dd,td}2.c over libbid/bid64_compare.c, bid128_compare.c'), ('macros', 'ieee754r/is{greater,less}*d32.c over decNumberCompare')],
  'All functions proved; decNumberCompare proved for 7-digit operands and assumed (with a bounded stand-in over the decimal64/128 callers) for longer ones.')
NOTEB = 'Where the verifier finishes within the time of the check the functions are proved (evidence: functions_under_contract); the others have a bounded stand-in, which evaluates the same postcondition on directed inputs run through the built library and counts as no proof (evidence: bounded_standins).'
P('P03', 'Addition and subtraction are correctly rounded in every rounding mode',
  'For every pair of operands of one format (_Decimal32, _Decimal64, _Decimal128) and each of the five decimal rounding modes, + and - (__bid_add*3, __bid_sub*3) return the exact sum or difference rounded once to the format in that mode, with the representable exponent closest to the preferred one when the result is exact, the IEEE sign for zero results, infinities by sign, and a quiet NaN for inf-inf and for NaN operands. For _Decimal32 and _Decimal64 the operation raises FE_OVERFLOW exactly when the rounded magnitude exceeds the format, FE_INVALID for inf-inf and signaling NaNs and never otherwise, and FE_INEXACT or FE_UNDERFLOW whenever the result was rounded.',
  'every pair of operand bit patterns of each format, and every rounding mode', WHY,
  ['base-math/addsd3.c', 'sysdeps/soft-dfp/adddd3.c', 'libbid/_addsub_dd.c', 'libbid/bid64_add.c', 'libbid/bid128_add.c', 'libbid/bid_inline_add.h', 'libbid/bid_round.c', 'libbid/bid_internal.h'],
  [('addition', 'libbid/_addsub_{sd,dd,td}.c over bid64_add.c and bid128_add.c'), ('rounding and packing', 'libbid/bid_internal.h get_BID64, get_BID128')], NOTEB, over=('inputs',))
P('P04', 'Multiplication is correctly rounded in every rounding mode',
  'For every pair of operands of one format and each of the five decimal rounding modes, * (__bid_mul*3) returns the exact product rounded once to the format in that mode, with the sign the exclusive or of the signs, the representable exponent closest to the sum of the exponents when the result is exact, infinity for infinite operands and a quiet NaN for inf*0 and NaN operands. For _Decimal32 and _Decimal64 it raises FE_OVERFLOW exactly when the rounded magnitude exceeds the format, FE_INVALID for inf*0 and signaling NaNs and never otherwise, and FE_INEXACT or FE_UNDERFLOW whenever the result was rounded.',
  'every pair of operand bit patterns of each format, and every rounding mode', WHY,
  ['base-math/mulsd3.c', 'libbid/_mul_sd.c', 'libbid/bid64_mul.c', 'libbid/bid128_mul.c', 'libbid/bid128_fma.c', 'libbid/bid_internal.h'],
  [('multiplication', 'libbid/_mul_{sd,dd,td}.c over bid64_mul.c and bid128_mul.c'), ('_Decimal32 result', 'libbid/bid32_to_bid64.c __bid64_to_bid32')], NOTEB)
P('P05', 'Division is correctly rounded in every rounding mode',
  'For every pair of operands of one format and each of the five decimal rounding modes, / (__bid_div*3) returns the exact quotient rounded once to the format in that mode, with the exclusive or of the signs and the representable exponent closest to the difference of the exponents when the quotient is exact; x/0 is a signed infinity and 0/0, inf/inf and NaN operands give a quiet NaN. For _Decimal32 and _Decimal64 it raises FE_DIVBYZERO exactly for finite non-zero x/0, FE_INVALID for 0/0, inf/inf and signaling NaNs and never otherwise, FE_OVERFLOW exactly when the rounded magnitude exceeds the format, and FE_INEXACT or FE_UNDERFLOW whenever the result was rounded.',
  'every pair of operand bit patterns of each format, and every rounding mode', WHY,
  ['base-math/divsd3.c', 'libbid/_div_sd.c', 'libbid/bid64_div.c', 'libbid/bid128_div.c', 'libbid/bid_div_macros.h', 'libbid/bid_internal.h'],
  [('division', 'libbid/_div_{sd,dd,td}.c over bid64_div.c and bid128_div.c')], NOTEB)
P('P06', 'fma rounds x*y+z exactly once in the current rounding mode',
  'For every three operands of a format and each of the five decimal rounding modes, fmad32, fmad64 and fmad128 return the exact x*y+z rounded once to the format in that mode, with the IEEE sign for zero results and no overflow of the intermediate product. inf*0 and inf-inf return a quiet NaN, raise FE_INVALID and set errno to EDOM; other NaN operands give a quiet NaN.',
  'every triple of operand bit patterns of each format, and every rounding mode', WHY,
  ['ieee754r/fmad32.c', 'libdecnumber/decNumber.c', 'libdecnumber/bid/decimal128.c'],
  [('fma', 'ieee754r/fmad32.c over decNumberFMA'), ('addition and rounding', 'libdecnumber/decNumber.c decAddOp, decSetCoeff, decFinalize')], NOTEB)
P('P07', 'quantize, samequantum, quantum and llquantexp follow IEEE 754-2008',
  'For every pair of operands and every rounding mode, quantizedN returns the value of x rounded in that mode to the exponent of y, with exactly that exponent, a NaN exactly when the rounded coefficient does not fit or one operand only is infinite or a NaN is involved. samequantum is true exactly for equal exponents, two NaNs or two infinities; quantum returns one at the exponent of x; llquantexp returns the exponent, or LLONG_MIN with EDOM for infinities and NaNs.',
  'every pair of operand bit patterns of each format, and every rounding mode', WHY,
  ['ieee754r/quantized32.c', 'ieee754r/samequantumd32.c', 'ieee754r/quantumd32.c', 'ieee754r/llquantexpd32.c', 'libdecnumber/decNumber.c', 'libdecnumber/bid/decimal64.c'],
  [('quantize', 'ieee754r/quantized32.c over decNumberQuantize (decQuantizeOp)')], NOTEB)
P('P08', 'Rounding to an integral value is exact in the direction asked for',
  'For every operand of every format ceil, floor, trunc, round (halves away from zero), roundeven (halves to even), and nearbyint and rint (in the current decimal rounding mode) return the integral value their direction selects, with the sign of the operand, unchanged for operands already integral, infinities unchanged and NaN for NaN. rint raises FE_INEXACT exactly when the value changed; none raises overflow, underflow or division by zero.',
  'every operand bit pattern of each format, and every rounding mode', WHY,
  ['ieee754r/truncd32.c', 'ieee754r/ceild32.c', 'ieee754r/floord32.c', 'ieee754r/roundd32.c', 'ieee754r/roundevend32.c', 'ieee754r/rintd32.c', 'ieee754r/nearbyintd32.c', 'libdecnumber/decNumber.c'],
  [('integral value', 'ieee754r/*d32.c over decNumberToIntegralValue')], NOTEB)
P('P09', 'Conversions to integers give the selected integer or signal invalid',
  'For every finite operand whose rounded value fits the integer type, the conversions to signed and unsigned 32, 64 and 128-bit integers (__bid_fix*, truncating), lround and llround (halves away from zero) and lrint and llrint (current decimal mode) return exactly that integer. lround, llround, lrint and llrint raise FE_INVALID and set EDOM exactly when the operand is not finite or its rounded value does not fit, and lrint and llrint raise FE_INEXACT when the value changed.',
  'every operand bit pattern of each format, and every rounding mode', WHY,
  ['libbid/_sd_to_si.c', 'libbid/bid64_to_int32.c', 'libbid/bid64_to_int64.c', 'libbid/bid64_to_uint64.c', 'libbid/bid128_to_int64.c', 'libbid/bid128_to_uint64.c', 'base-math/fixddti.c', 'base-math/fixunsddti.c', 'ieee754r/llroundd32.c', 'ieee754r/lrintd32.c'],
  [('fix', 'libbid/_*d_to_*i.c over bid64_to_*.c, bid128_to_*.c; base-math/fix*ti.c'), ('lround family', 'ieee754r/llroundd32.c')], NOTEB)
P('P10', 'Conversions from integers are correctly rounded',
  'For every signed and unsigned 32, 64 and 128-bit integer and each of the five decimal rounding modes, the conversion to _Decimal32, _Decimal64 or _Decimal128 (__bid_float*) returns the integer rounded once to the format in that mode, with exponent zero when it is exact and fits, and plus zero for zero.',
  'every integer of the six types, and every rounding mode', 'Each 64-bit type has 2^64 and each 128-bit type 2^128 values; the tests convert a few dozen.',
  ['libbid/bid_from_int.c', 'libbid/_di_to_sd.c', 'libbid/_udi_to_dd.c', 'base-math/floattisd.c', 'base-math/floatunstitd.c', 'libbid/bid_round.c', 'sysdeps/generic/convert_helpers.h'],
  [('32 and 64-bit', 'libbid/_*i_to_*d.c over bid_from_int.c'), ('128-bit', 'base-math/float*ti*d.c')], NOTEB)
P('P11', 'Conversions between the decimal formats are exact or rounded once',
  'For every operand, widening conversions (_Decimal32 to 64 and 128, 64 to 128) keep sign, coefficient and exponent exactly, and narrowing conversions (128 to 64 and 32, 64 to 32) return the value rounded once to the target in the current decimal rounding mode, overflow and subnormal results included. Infinities keep their sign, NaNs become quiet and keep their sign, and FE_INVALID is raised exactly for signaling NaNs.',
  'every operand bit pattern of each format, and every rounding mode', WHY,
  ['libbid/bid32_to_bid64.c', 'libbid/bid32_to_bid128.c', 'libbid/bid64_to_bid128.c', 'libbid/_dd_to_sd.c', 'libbid/_td_to_dd.c', 'libbid/_td_to_sd.c', 'libbid/bid_internal.h'],
  [('conversions', 'libbid/_*d_to_*d.c over bid32_to_bid64.c, bid32_to_bid128.c, bid64_to_bid128.c')], NOTEB)
P('P12', 'nextafter, nexttoward, nextup and nextdown return the adjacent number',
  'For every operand, nextup and nextdown return the least number greater and the greatest number less than x in the format, nextafter and nexttoward the neighbour of x in the direction of y (x itself, or a zero with the sign of y, when they are equal), through zero, subnormals, powers of ten, the largest number and the infinities, whatever the current rounding mode. NaN operands give a NaN.',
  'every operand bit pattern (pair) of each format, and every rounding mode', WHY,
  ['ieee754r/nextafterd32.c', 'ieee754r/nexttowardd32.c', 'ieee754r/nextupd32.c', 'ieee754r/nextdownd32.c'],
  [('neighbours', 'ieee754r/next*d32.c')], NOTEB)
P('P13', 'Scaling and exponent extraction are exact powers of ten',
  'For every operand and every int or long n, ldexp, scalbn and scalbln return x*10^n correctly rounded (half-even) with ERANGE on overflow; frexp returns a fraction in [0.1,1) and the exponent with x = fraction*10^exponent; modf splits x exactly into an integral and a fractional part of its sign. logb, ilogb and llogb return the exponent of the leading digit of every finite non-zero operand, subnormals included, and the documented values with EDOM or ERANGE for zeros, infinities and NaNs.',
  'every operand bit pattern of each format and every integer scale', WHY,
  ['ieee754r/ldexpd32.c', 'ieee754r/scalbnd32.c', 'ieee754r/scalblnd32.c', 'ieee754r/frexpd32.c', 'ieee754r/logbd32.c', 'ieee754r/ilogbd32.c', 'ieee754r/llogbd32.c', 'ieee754r/modfd32.c', 'sysdeps/soft-dfp/bid/numdigits.h', 'sysdeps/bid/bid-private.c'],
  [('scaling', 'ieee754r/ldexpd32.c, scalb*d32.c over decNumber'), ('digits', 'sysdeps/soft-dfp/bid/numdigits.h over __get_digits_d*')], NOTEB)
P('P14', 'fmin, fmax, fminmag, fmaxmag and fdim select by the exact order',
  'For every pair of operands, fmin and fmax return the lesser and the greater operand by exact numerical value, fminmag and fmaxmag the one of lesser and greater magnitude (ties as fmin and fmax), and the number when the other operand is a quiet NaN. fdim returns x-y rounded half-even when x > y, +0 when x <= y, and NaN for NaN operands.',
  'every pair of operand bit patterns of each format', WHY,
  ['ieee754r/fmind32.c', 'ieee754r/fmaxd32.c', 'ieee754r/fminmagd32.c', 'ieee754r/fmaxmagd32.c', 'ieee754r/fdimd32.c', 'libdecnumber/decNumber.c'],
  [('selection', 'ieee754r/f{min,max,minmag,maxmag}d32.c over decNumberMin/Max/Compare'), ('difference', 'ieee754r/fdimd32.c')], NOTEB)
P('P15', 'The decimal rounding mode changes only through fe_dec_setround',
  'Each thread has its own decimal rounding mode, which starts as FE_DEC_TONEAREST. fe_dec_setround(m) accepts exactly the five modes FE_DEC_TONEAREST (0), FE_DEC_TOWARDZERO, FE_DEC_UPWARD, FE_DEC_DOWNWARD and FE_DEC_TONEARESTFROMZERO (4): it returns 0 and m becomes the mode; for every other int it returns a non-zero value and leaves the mode alone. fe_dec_getround returns the mode, and the decNumber-based functions round in it. Every other library function returns with the mode it was called with, on every path, also when it switches the mode for its own computation.',
  'every int argument, every prior mode, every path of every function of the library', 'A forgotten restore on one return path, or a shared instead of a per-thread mode, changes the results of later unrelated calls; the tests set the mode themselves before each case and run in one thread.',
  ['sysdeps/soft-dfp/bid/fe_decround.c', 'sysdeps/generic/mapround.c', 'ieee754r/nextafterd32.c', 'ieee754r/nexttowardd32.c', 'sysdeps/generic/dfp_inline.h', 'libbid/bid_decimal_globals.c'],
  [('getter and setter', 'sysdeps/soft-dfp/bid/fe_decround.c'), ('decNumber mode', 'sysdeps/generic/mapround.c'), ('functions that switch the mode', 'ieee754r/nextafterd32.c, nexttowardd32.c and their callers; expd128 through dfp_inline.h')],
  'getter, setter and the decNumber map: postconditions proved for every int and mode. Frame condition: every function of every unit either provably has no access to the mode (no store, no escape of its address, no call to a function that may write it) or every abstract path of it is executed and must end in the entry mode.')
P('P17', 'sqrt is correctly rounded and has the preferred exponent when exact',
  'For every non-negative operand sqrtd32, sqrtd64 and sqrtd128 return the square root rounded half-even to the format, with the IEEE preferred exponent (half the exponent, rounded down) where an exact root allows it; zeros keep their sign and +infinity is unchanged. Negative operands give a quiet NaN with FE_INVALID and EDOM.',
  'every operand bit pattern of each format', WHY,
  ['ieee754r/sqrtd32.c', 'libdecnumber/decNumber.c'],
  [('square root', 'ieee754r/sqrtd32.c over decNumberSquareRoot')], NOTEB, level='other',
  technique='contracts evaluated on directed inputs through the built library (bounded stand-in: the iteration of decNumberSquareRoot is beyond the verifier)')
P('P18', 'fmod and remainder are exact for every quotient',
  'For every finite x and finite non-zero y, fmod returns x-n*y with n the quotient truncated, remainder x-n*y with n the quotient rounded to nearest, halves to even; both are exact however large the quotient, and zero results have the sign of x. Infinite x and zero y give a quiet NaN with EDOM (remainder also raises FE_INVALID), NaN operands a quiet NaN; remainder leaves errno alone otherwise and returns x for infinite y.',
  'every pair of operand bit patterns of each format', WHY,
  ['sysdeps/bid/fmodd32.c', 'ieee754r/remainderd32.c', 'libdecnumber/decNumber.c'],
  [('fmod', 'sysdeps/bid/fmodd32.c'), ('remainder', 'ieee754r/remainderd32.c over decNumberRemainderNear')], NOTEB, level='other',
  technique='contracts evaluated on directed inputs through the built library (bounded stand-in: the reduction loop runs up to 12000 times and decDivideOp is beyond the verifier)')
P('P19', 'strtod and wcstod round the value of the string once',
  'For every string, strtod32, strtod64, strtod128 and wcstod32, wcstod64, wcstod128 (C locale) convert the longest prefix that is a decimal number, INF, INFINITY, NAN or NAN(chars), set the end pointer just after it, and return the value rounded once to the format in the current decimal rounding mode, with the exponent as written when the digits fit and infinity or the largest number with ERANGE on overflow. A non-zero number whose leading format digits reach below the least exponent gives a zero of its sign with ERANGE; strings with no such prefix give +0 with the end pointer at the start.',
  'every string and every rounding mode', 'Strings are unbounded; the tests convert a few hundred short ones, nearly all exact and in the default rounding mode.',
  ['stdlib/strtod32.c', 'stdlib/strtod64.c', 'stdlib/strtod128.c', 'stdlib/wcstod32.c', 'libdecnumber/decNumber.c'],
  [('parsing and digit collection', 'stdlib/strtod32.c __strtodN_l_internal'), ('rounding', 'libdecnumber/decNumber.c decNumberFromString')], NOTEB, level='other', over=('inputs',),
  technique='contracts evaluated on directed strings through the built library (bounded stand-in: strings of unbounded length and the locale interfaces of glibc are beyond the verifier)')
P('P20', 'printf, strfrom and decoded show the value correctly rounded',
  'For every operand and each of the five decimal rounding modes, strfromdN and the printf conversions %Hx, %Dx and %DDx (x one of a, e, f, g and their capitals, with any flags, width and precision, for %a none or a positive one; C locale) produce the text ISO C prescribes: %e, %f and %g the value rounded once to the requested digits in the current mode, %a without precision the exact coefficient and exponent. They return the number of characters of the whole text, and strfromdN cuts it to the buffer. decodedN shows the exact sign, coefficient and exponent.',
  'every operand bit pattern, format string of these forms, and rounding mode', WHY,
  ['printf-hooks/printf_dfp.c', 'stdlib/strfromd32.c', 'sysdeps/bid/decode.c', 'sysdeps/bid/bid-private.c', 'sysdeps/soft-dfp/bid/numdigits.h'],
  [('formatting', 'printf-hooks/printf_dfp.c __printf_dfp over __get_digits_d*'), ('decoded', 'sysdeps/bid/decode.c')], NOTEB, level='other', over=('inputs',),
  technique='contracts evaluated on directed operands and formats through the built library (bounded stand-in: glibc streams are beyond the verifier)')

# per property: what the quick tier proves, what the thorough tier adds, what is bounded only
SCOPE = {
'P01': ('all 51 functions, every operand, with the codec bodies', '', ''),
'P02': ('all comparison operators and macros of the three formats, every operand; decNumberCompare for up to 7 digits', '', 'decNumberCompare on more digits (assumed by the decimal64/128 macros) through its callers'),
'P03': ('operands that are a NaN or an infinity, all functions and modes', 'addition and subtraction of decimal32 and decimal64, every operand, every mode', 'finite decimal128 operands (quick tier: all finite operands)'),
'P04': ('special and non-canonical operands of all formats, all modes', 'decimal32 every operand and mode; decimal64 every operand and mode for ideal biased exponents >= 0 or <= -18', 'decimal64 products that become subnormal, decimal128 (quick tier: all canonical finite operands)'),
'P05': ('operands that are a NaN or an infinity, all formats', '', 'finite operands (digit estimation by floating-point division is beyond the engine)'),
'P06': ('', '', 'all operands'),
'P07': ('quantized32, samequantum, quantum, llquantexp of all formats, codec bodies', 'quantized64', 'quantized128'),
'P08': ('the seven functions for decimal32 and decimal64, codec bodies', 'decimal128', 'decimal128 (quick tier)'),
'P09': ('__bid_fix{,uns}{sd,dd}{si,di}, lround, llround, lrint, llrint for decimal32, every operand; __bid_fix{,uns}td{si,di} for special and non-canonical operands and the large encoding', 'lround and llround for decimal64', '128-bit results, finite decimal128, lrintd64'),
'P10': ('32-bit integers to all formats, 64-bit integers to decimal64 and decimal128, every value', '64-bit integers to decimal32', '128-bit integers'),
'P11': ('widening, and decimal64 to decimal32, every operand in all modes; decimal128 narrowing of infinities and non-canonical operands', '', 'narrowing of finite decimal128'),
'P12': ('nextup and nextdown of decimal32 and decimal64', '', 'decimal128, nextafter, nexttoward'),
'P13': ('frexp of all formats; logb, ilogb, llogb of decimal32/64; scalbn, scalbln, modf of decimal32; codec bodies', 'ldexpd32', 'the other widths'),
'P14': ('fmin, fmax, fminmag, fmaxmag of all formats for special and non-canonical operands, fdim of decimal32/64 for NaN and infinity', 'fdim with non-canonical operands', 'canonical finite pairs'),
'P15': ('getter, setter and decNumber map for every int and mode; frame analysis of every function of every unit', '', ''),
'P17': ('special and non-canonical operands', '', 'canonical finite operands'),
'P18': ('', '', 'all operands'), 'P19': ('', '', 'all strings'), 'P20': ('', '', 'all operands and formats'),
}
def scope(p):
    a, b, c = SCOPE[p]
    return (('Proved: ' + a + '. ') if a else 'Nothing proved. ') + ('Thorough tier adds: ' + b + '. ' if b else '') + ('Bounded stand-in (same postcondition on directed inputs through the built library, never counted as proof): ' + c + '.' if c else 'No bounded stand-in is needed.')
for p in PROPS:
    if 'na' not in p:
        p['note'] = scope(p['id'])
        if p['id'] in ('P03', 'P04', 'P05', 'P06', 'P14'): p['level'] = 'other'      # quick tier: no finite operands
        if p['id'] == 'P06': p['technique'] = 'contract evaluated on directed operand triples through the built library (bounded stand-in: the multi-word multiplication and addition of decNumberFMA are beyond the verifier)'
P('P21', 'Conversions between binary and decimal floating point are correctly rounded',
  'For every float, double, long double and _Float128 and every _Decimal32, _Decimal64 and _Decimal128, the conversions between the binary and the decimal formats (__bid_extend*, __bid_trunc* with binary operands) return the value rounded once to the target format in its rounding mode, keep infinities and signs, and turn NaNs into quiet NaNs.',
  'every bit pattern of the source format, and every rounding mode', WHY, ['base-math/extendsddf.c', 'base-math/truncdfsd.c'], [('conversions', 'base-math/extend*, base-math/trunc* with binary operands, libgcc bid_binarydecimal')],
  na='Part of these conversions comes from bid_binarydecimal.c, which is not in /repo (libgcc\'s copy is linked): there is no source to put under contract. The others multiply and divide in binary floating point, whose rounding the verifier does not model.')
P('P22', 'Elementary functions are accurate to a unit or two in the last place',
  'For every operand in their domain, exp, log, pow, the trigonometric and hyperbolic functions and their inverses, hypot, cbrt, gamma and erf return a decimal within two units in the last place of the exact value, and signal domain and pole errors as ISO C and TR 24732 prescribe.',
  'every operand bit pattern of each format', WHY, ['ieee754r/expd32.c', 'ieee754r/logd32.c', 'ieee754r/sind32.c', 'ieee754r/powd32.c'], [('elementary functions', 'ieee754r/*d32.c series and Newton iterations over decimal arithmetic')],
  na='The postcondition is about transcendental functions and needs a rounding-error analysis of series and Newton iterations; no first-order solver the verifier can discharge to decides it, and the library documents no error bound to take as the contract.')
