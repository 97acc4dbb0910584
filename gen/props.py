P = []
def prop(**k): P.append(k)

AI = "abstract interpretation of SSA form, case-split by operand class"
TRUST = ("Trusted: go/types and go/ssa, the tool's transfer functions, the class-level contracts for the arithmetic helper package and the standard library. "
         "Anything the analysis cannot decide is reported as a violation, never skipped.")

prop(id="C06", title="NaN operands: propagation, sign, and signaling",
 statement="For every operation with at least one NaN operand the result is a quiet NaN that comes from the first signaling, else the first quiet NaN operand, with that operand's sign. InvalidOperation is signalled if an operand is a signaling NaN and not otherwise, and no other condition is raised.",
 over=["inputs","configurations"], quant="Every arithmetic or elementary operation, every combination of operand classes that includes a NaN, every valid Context, and every previous content of the result.",
 why="The GDA vectors sample a few NaN combinations of some of the operations in one or two Contexts; most elementary functions have none, and a wrong path shows up only for a particular mixture of classes.",
 files=["big.go","big_ctx.go","util.go"], mech=[("NaN screening at the head of every operation","big.go"),("operations of an explicit Context","big_ctx.go")],
 technique=AI,
 note="Each operation of the Context is interpreted for every tuple of operand classes with a NaN; every reachable outcome's form and condition set must be in the specification table. "+TRUST)

prop(id="C07", title="Zeros, infinities and signs give the tabulated result class and conditions",
 statement="For every operation and every combination of signed zeros, finite values and infinities, the class and sign of the result and the conditions raised are those that the General Decimal Arithmetic specification (or, for elementary functions, their mathematical limit) permits: no NaN or Infinity appears from nowhere, undefined cases give NaN with InvalidOperation, and division by zero gives a correctly signed Infinity with DivisionByZero.",
 over=["inputs","configurations"], quant="Every operation, every tuple of operand classes (zero, compact, big finite, infinite; both signs), every rounding mode, precision and scale limit, and every receiver.",
 why="The vectors cover a handful of tuples per operation; the outcome depends on the class tuple, the rounding mode and the Context's limits at once.",
 files=["big_ctx.go","big.go","util.go","context.go"], mech=[("special-case branches of the operations","big_ctx.go"),("overflow and underflow handling","big.go"),("rounding","context.go")],
 technique=AI,
 note="Decides the class, sign and condition set of the result, not its digits. Elementary functions are tabulated where an operand is special. "+TRUST)

prop(id="C08", title="An invalid Context always yields NaN with InvalidContext",
 statement="If any field of the Context an operation is given is out of range (precision, rounding mode, operating mode, or scale limits), the operation stores a quiet NaN in every result and raises InvalidContext, whatever the operands are. The receiver's own Context plays no part in the decision.",
 over=["inputs","configurations"], quant="Every operation of a Context, every invalid value of every field, arbitrary operands and receivers.",
 why="The tests try one or two invalid Contexts on a few operations.",
 files=["big_ctx.go","big.go","context.go"], mech=[("Context validation at the head of every operation","big_ctx.go"),("validity test","context.go")],
 technique=AI,
 note="Six classes of invalid Context per operation, all other fields and all operands unconstrained. "+TRUST)

prop(id="C11", title="Conditions are sticky, do not influence results, and imply each other",
 statement="An operation never clears a condition that was already raised on its result and its outcome does not depend on which ones were. Overflow is raised only together with Inexact and Rounded, Underflow only with Inexact, Rounded and Subnormal, Inexact only with Rounded, and DivisionUndefined only with InvalidOperation.",
 over=["inputs","histories","configurations"], quant="Every operation, every tuple of operand classes, every set of conditions left by earlier operations, every Context.",
 why="Tests start from fresh decimals; a condition that leaks between operations needs a particular history on the receiver.",
 files=["big_ctx.go","big.go","context.go"], mech=[("conditions accumulate on the result","big.go"),("rounding and overflow raise conditions","context.go")],
 technique=AI+", conditions tracked per path",
 note="Each operation is interpreted twice: with all conditions set beforehand (they must survive and the class table must hold) and with none (implications on each path). "+TRUST)

prop(id="C12", title="Panics: never in GDA mode; in Go mode exactly for NaN results",
 statement="In the GDA operating mode no operation panics for any operands and any valid Context. In the Go operating mode an operation panics, with the documented error type, if and only if its result is a NaN.",
 over=["inputs","configurations"], quant="Every operation, every tuple of operand classes, both operating modes, every valid Context, arbitrary receivers.",
 why="A runtime panic or a forgotten NaN report hides on a rarely used class tuple; the tests run almost only in GDA mode.",
 files=["big.go","big_ctx.go","context.go"], mech=[("NaN construction honours the operating mode","big.go"),("operations","big_ctx.go")],
 technique=AI,
 note="Covers explicit panics, nil dereferences, index errors and divisions in the repository's own code that the interpreter can reach; inside the standard library and the arithmetic helpers absence of panics is trusted. "+TRUST)

prop(id="C02", title="Results may alias operands",
 statement="An operation gives the same class of result whether its result is a fresh decimal or one of its operands, and with operands that are the same decimal. No operand is read after the result, which may be the same decimal, was written.",
 over=["inputs","programs"], quant="Every operation, every aliasing pattern between result and operands, every tuple of operand classes, every Context.",
 why="Aliasing multiplies every input by up to fifteen patterns; tests use a few of them on finite values.",
 files=["big_ctx.go","big.go"], mech=[("order of reads of operands and writes of the result","big_ctx.go"),("in-place mutation","big.go")],
 technique=AI+", with ownership roles on pointers",
 note="Two rules: the class table for the original operands holds under every pattern, and a load through an operand pointer never sees a field last written through the result pointer. Numerical equality itself is not decided. "+TRUST)

prop(id="C01", title="Operands are never modified",
 statement="No exported function or method changes an operand: neither the value, digits, Context or conditions of a decimal operand, nor a math/big number, byte slice or argument list passed as input. Only the result (and a destination that is documented to be filled) is written, unless the caller passes the same object as both.",
 over=["inputs","configurations"], quant="Every exported function and method of every package, every tuple of operand classes, every Context and receiver.",
 why="A write through shared digit storage needs an operand whose digits have spare capacity or a rarely taken branch; tests compare results and hardly ever look at the operands afterwards.",
 files=["big.go","big_ctx.go","format.go","util.go","math/math.go","misc/misc.go","sql/postgres/decimal.go"], mech=[("in-place arithmetic on temporaries","big_ctx.go"),("conversions","big.go"),("comparison without copies","big.go")],
 technique=AI+", with an owner on every object and on digit storage",
 note="Sweeps every exported function; a store to an object owned by an operand, or an in-place write of digits an operand owns, is a violation. For series with finite operands the operations they are composed of are replaced by their (separately checked) effect summary. "+TRUST)

prop(id="C03", title="Package-level values are never modified after initialisation",
 statement="No exported function changes anything reachable from a package-level variable (mathematical constants, small-number constants, tables of powers), except inside sync.Once or while holding the lock that guards it. A lock is released on every return. Operations on distinct decimals can therefore run concurrently.",
 over=["schedules","histories","inputs"], quant="Every exported function and method of every package, every tuple of operand classes; any interleaving of calls on distinct decimals.",
 why="A write to a shared constant corrupts later, unrelated operations, or races, only for particular histories and schedules.",
 files=["const.go","util.go","big_ctx.go","internal/arith/pow.go","internal/c/const.go"], mech=[("lazily parsed constants","const.go"),("table of big powers of ten","internal/arith/pow.go"),("constants as operands","big_ctx.go")],
 technique=AI+", with an owner on every object and on digit storage",
 note="A store to an object, or in-place write of digits, that may be reachable from a package-level variable outside Once.Do or a held mutex is a violation. Reads that race with guarded writes are decided only as far as the value is published through Once or an atomic. "+TRUST)

prop(id="C04", title="Results do not share storage with operands or constants",
 statement="After an operation the result's digits belong to the result alone: they are not shared with an operand, the caller's math/big number, a package-level constant, another result or a recycled temporary. The returned pointer is the result parameter (or, where there is none, a new object), and a returned slice or number does not expose a decimal's internals (Raw and Max/Min excepted).",
 over=["inputs","histories"], quant="Every exported function and method, every tuple of operand classes, every Context and receiver.",
 why="Sharing is invisible until one of the two is modified in place, which needs a later operation and enough spare capacity.",
 files=["big.go","big_ctx.go","decomposer.go","misc/misc.go"], mech=[("copying of digits","big.go"),("results of conversions","big.go"),("returned pointers","big_ctx.go")],
 technique=AI+", with an owner on digit storage",
 note="At every exit of every exported function the owners of the digits reachable from results are checked. "+TRUST)

prop(id="C05", title="Pooled temporaries: no use after Put, no leak of stale state",
 statement="A temporary decimal taken from the pool is put back at most once, is not read or written afterwards, is never a caller's decimal, a result or a constant, and does not share digits with one. No result, condition or decision depends on what a recycled temporary contained before.",
 over=["schedules","histories","inputs"], quant="Every exported function and method, every tuple of operand classes, every previous content of the pool, every interleaving with other goroutines using the pool.",
 why="Using a recycled decimal goes wrong only when another operation takes it meanwhile, or when its stale content matters.",
 files=["util.go","big_ctx.go","binary_spliting.go"], mech=[("the pool","util.go"),("temporaries of the operations","big_ctx.go")],
 technique=AI+", typestate of pooled objects and taint of their stale content",
 note="Pool objects carry an owned/put typestate; stale fields carry a taint that may not reach a branch or a result. "+TRUST)

prop(id="C09", title="Only the explicit or the receiver's Context governs; settings stay",
 statement="A method of a Context is governed by that Context, and a method of a decimal or a function of package math or misc by its receiver's: no result, condition or branch depends on the Context of an operand (or, where one is given explicitly, of the receiver). Such a method or function computes exactly what the operation of the same name computes for the same operands. No function changes the precision, scale limits, rounding mode, operating mode or traps of a decimal that it is given.",
 over=["inputs","configurations"], quant="Every exported function and method, every tuple of operand classes, all Contexts of operands and receiver.",
 why="The tests use one Context for every decimal in a call, so that a wrong choice among them cannot be seen.",
 files=["big.go","big_ctx.go","math/math.go","misc/misc.go","continued_frac.go"], mech=[("delegation to the receiver's Context","big.go"),("wrappers","math/math.go"),("operations","big_ctx.go")],
 technique=AI+", taint from the Contexts that do not govern; arguments of delegating calls compared symbolically",
 note="Exempt: Class, IsNormal and IsSubnormal, and conversions without a result such as Format, which are about the Context of the decimal itself; traps of a temporary are not tracked. "+TRUST)

prop(id="C25", title="Results do not depend on the receiver's previous value",
 statement="Every operation, setter, conversion, parser and decoder that sets its receiver determines the new value from its operands, arguments and Context alone: neither the result nor any decision on the way depends on the sign, digits, exponent or form that the receiver held before, unless the receiver is also an operand or the operation is defined in place.",
 over=["inputs","histories"], quant="Every exported function and method with a result, every tuple of operand classes, every previous value of the receiver (finite, compact or not, infinite, NaN).",
 why="Tests mostly use fresh receivers; a field that is not overwritten shows only on one that was used before for a value of another shape.",
 files=["big.go","big_ctx.go","scan.go","decomposer.go","sql/postgres/decimal.go"], mech=[("setters overwrite every field","big.go"),("parser resets its receiver","scan.go"),("operations","big_ctx.go")],
 technique=AI+", taint from the receiver's previous value",
 note="Only the fields that make up the value for the result's form count: the digits of a compact value or the exponent of an infinity may be stale. Exempt: operations in place, and Lentz and Wallis, whose result comes from the caller's Generator. "+TRUST)

prop(id="C14", title="Comparisons, extremes and predicates follow the documented order",
 statement="Cmp and CmpAbs order operands by numeric value or magnitude whatever their representation (compact or not, any exponent, signed zeros equal). CmpTotal orders -NaN < -sNaN < -Inf < finite < +Inf < +sNaN < +NaN, and equal values by sign, then exponent; CmpTotalAbs ignores signs. Max, Min, MaxAbs and MinAbs return the extreme operand. Sign, Signbit, IsFinite, IsInf, IsNaN, IsInt, Class, IsNormal and IsSubnormal classify by form and magnitude.",
 over=["inputs"], quant="Every pair of value classes: special values, signed zeros, intervals of coefficients, exponents and lengths whose order is fixed by the class; all coefficients of equal exponents.",
 why="The order is implemented by shortcuts for compact values, adjusted exponents, signs and shifts; each shortcut is taken by a combination of class, length and exponent of which tests sample a few.",
 files=["big.go","misc/misc.go"], mech=[("comparisons","big.go"),("predicates and classes","big.go"),("extremes","misc/misc.go")],
 technique=AI+" and interval of coefficient and exponent",
 note="Pairs of non-compact operands with different exponents are decided on constants and narrow intervals of up to 36 digits only. "+TRUST)

prop(id="C18", title="Copies and sign changes are exact and quiet",
 statement="Copy, Canonical, CopyAbs, CopyNeg, CopySign and SetSignbit, and their equivalents in misc, give a value with exactly the operand's kind, coefficient, exponent, number of digits and NaN payload, and the documented sign - also for zeros, infinities and NaNs, which may be signaling - without rounding, without changing the result's conditions, and for every aliasing of result and operands.",
 over=["inputs","histories"], quant="Every class of the operands (with symbolic coefficient, exponent, number of digits and payload), every sign, every aliasing, and every previous value of the result.",
 why="A field that is not copied, or a sign that is read after it was overwritten, shows only for NaN payloads, non-compact values, used receivers or aliased arguments.",
 files=["big.go","misc/misc.go"], mech=[("copies","big.go"),("sign operations","misc/misc.go")],
 technique=AI+", with value numbering of the copied fields",
 note="Fields are compared as symbolic expressions over the operand's initial fields. "+TRUST)

prop(id="C13", title="Rounding: the exact result, rounded once as the mode prescribes",
 statement="Add, Sub, Mul, Quo, FMA, Neg, Abs, Set, Round, Quantize, RoundToInt, Ceil and Floor give the exact mathematical result rounded once, in the direction that the rounding mode prescribes (all seven modes, ties, both signs, carries into a new digit), to the Context's precision (16 digits if it is 0) or to the requested exponent. Inexact and Rounded are raised if digits other than zero were discarded, and no condition but Rounded otherwise. The recorded number of digits is right.",
 over=["inputs","configurations"], quant="Every operation above, as a method of Context and of Big, every rounding mode and sign, compact and non-compact operands, every aliasing, and families of operand intervals that cover exact results, both sides of a tie, ties, and carries for short, 64-bit and longer coefficients.",
 why="A result is wrong only for operands on a particular side of a tie, for a particular parity, representation or aliasing; tests sample a few values per mode.",
 files=["big_ctx.go","util.go","internal/arith/arith.go"], mech=[("rounding of a quotient","big_ctx.go"),("rounding decision","context.go"),("shortcut for tiny operands","big_ctx.go")],
 technique="static analysis: abstract interpretation of the SSA form on intervals of 64-bit and big numbers; the images of the intervals are compared with the prescribed result",
 note="Operand intervals come from a fixed family (see DESIGN.md); intermediate numbers of more than 37 digits and precisions above 23 are not decided. Add, Sub, Mul, FMA, Neg, Abs and Set are checked in GDA mode, where they round. "+TRUST)

prop(id="C10", title="Scale limits: overflow, underflow, subnormals",
 statement="A result whose exact value lies beyond the greatest or below the smallest normal number is what General Decimal Arithmetic prescribes: on overflow Infinity or the greatest finite number, depending on rounding mode and sign, with Overflow, Inexact and Rounded; a subnormal is the exact value rounded once to Etiny, with Subnormal, with Underflow exactly if inexact, and Clamped if it became zero; a carry out of the greatest number overflows. No finite result has an exponent below Etiny or a leading digit above MaxScale.",
 over=["inputs","configurations"], quant="Add, Sub, Mul, Quo, FMA, Neg, Abs, Set and Round, as methods of Context and Big, every rounding mode and sign, compact and non-compact operands, and families of operand intervals with results on both sides of every limit.",
 why="The limits lie at exponents that tests with default Contexts never reach, and conditions depend on the order of shifting and rounding.",
 files=["util.go","big_ctx.go","big.go"], mech=[("overflow, underflow and clamping","util.go"),("limits","context.go")],
 technique="static analysis: abstract interpretation of the SSA form on intervals of 64-bit and big numbers; the images of the intervals are compared with the prescribed result",
 note="Scale limits are -40 and 40 in the analysed Contexts (the code compares exponents with the limits only). "+TRUST)

prop(id="C26", title="Exact results are returned exactly, with the ideal exponent",
 statement="Where the exact result fits the precision, Add, Sub, Mul, FMA, Neg, Abs, Set, Round, RoundToInt, Ceil, Floor, Quantize, Reduce, QuoInt, Rem and QuoRem return exactly it, and raise no condition (Rounded at most where Quantize drops zeros), with the exponent General Decimal Arithmetic prescribes: the lesser one for sums and remainders, the sum for products, 0 for integer quotients, the requested one for Quantize, no trailing zeros after Reduce. The sign of a zero is the prescribed one. An exact quotient that fits the precision is returned by Quo with its exact value.",
 over=["inputs","configurations"], quant="Every operation above, as a method of Context and of Big, both operating modes, compact and non-compact operands and results and the boundary between them, every sign, aliasing and exponent difference of a family up to 25.",
 why="The representation switches at 2^64-1 in operands, shifted operands and results independently; each shortcut and each carry is taken by few numbers.",
 files=["big_ctx.go","util.go","internal/arith/arith.go"], mech=[("sums, products, remainders","big_ctx.go"),("scaling of coefficients","internal/arith/pow.go"),("exact quotients","util.go")],
 technique="static analysis: abstract interpretation of the SSA form on intervals of 64-bit and big numbers; the images of the intervals are compared with the exact result",
 note="Coefficients and exponents come from a fixed family, most of them constants on representation boundaries; results of more than 36 digits are not decided. The exponent of Quo's result is not claimed. "+TRUST)

prop(id="C27", title="Constructors, accessors and integer conversions are exact",
 statement="New, SetMantScale, SetUint64 and SetBigMantScale make value x 10^-scale exactly, whatever the receiver held; SetScale, SetSignbit, SetInf and SetNaN change exactly what they say. Scale, Precision, Mantissa and Payload return the value's fields. Int, Int64 and Uint64 truncate towards zero; Int64 and Uint64 report success exactly if the truncated value is in range, and failure for infinities, NaNs and (Uint64) negative numbers. None of these raises a condition.",
 over=["inputs"], quant="Coefficients (constants and intervals) around every power of two and ten where the representation or the range changes, every sign, scales up to the limits, every previous state of the receiver.",
 why="The conversions have separate paths for compact and big values and for up and down scaling, with overflow tests at 2^63 and 2^64 that ordinary values never meet.",
 files=["big.go","util.go"], mech=[("constructors and conversions","big.go"),("scaling","util.go"),("powers of ten","internal/arith/pow.go")],
 technique="static analysis: abstract interpretation of the SSA form on intervals of 64-bit and big numbers; the fields of the result are compared with the arguments",
 note="Int with an exponent below -40, Uint64 of negative zero and of numbers in (-1,0) are not decided. "+TRUST)

prop(id="C15", title="Formatted numbers are exactly the value",
 statement="String and MarshalText write the General Decimal Arithmetic to-scientific-string of the value, digit for digit: plain notation if the exponent is at most 0 and the adjusted exponent at least -6, scientific otherwise; infinities, NaNs and their payloads by name (as NaN, +Inf and -Inf in Go mode, where zero is 0 and the exponent letter is e); nil as <nil>. Format's verbs s, d, v and q write the same, e and E always scientific, f, F, g and G plain. A precision rounds to that many significant digits (f and F: digits after the point) by the value's rounding mode, and pads with zeros. Sign, width, - and 0 flags work as in package fmt.",
 over=["inputs"], quant="Coefficients of one up to 45 digits (thorough: 140) on both sides of 2^64, with symbolic digits, every exponent around the thresholds and all beyond them up to the limits, both signs and operating modes; rounding of up to four kept and three dropped digits in every class of remainder and carry, in all seven modes; every combination of flags with widths around the length.",
 why="Notation, point position and leading zeros depend on length, exponent and representation together, and rounding on carries; tests of String print a few dozen values, and no test formats with flags.",
 files=["format.go","big.go"], mech=[("formatter","format.go"),("verbs","big.go")],
 technique="static analysis: abstract interpretation of the SSA form on symbolic characters; the text written on each path is compared with the prescribed one, character by character, as linear forms in the digits",
 note="A precision of zero other than for f, specials and Go-mode zeros with + or space, plain notation of zeros with positive exponents, and %+v, %#v are not decided. strconv, math/big and fmt.State are modelled by their documentation. "+TRUST)

prop(id="C16", title="Numeric strings are parsed exactly, and nothing else is accepted",
 statement="SetString, UnmarshalText, UnmarshalJSON and Scan accept exactly the numeric strings of the General Decimal Arithmetic specification in any case (with q allowed before nan), and give exactly their sign, coefficient, exponent, digit count, infinity, NaN kind and payload (up to 2^64-1), raising nothing, whatever the receiver held. An exponent beyond the range of int gives an infinity with Overflow, Inexact and Rounded, or a zero with the largest or smallest exponent; any other string gives a quiet NaN with payload 0 and ConversionSyntax. The Context is otherwise unchanged.",
 over=["inputs"], quant="All strings of up to five characters (thorough: six) of numbers, longer numbers and special names in every case, with one character added, removed or replaced by any other; coefficients up to 40 digits (thorough: 60) around 2^64, with the point anywhere; exponents and payloads of any number of digits on both sides of their limits. Every digit is symbolic.",
 why="A parser's errors sit at particular lengths, point positions and limits, and among the strings it must reject; tests parse values that other implementations print.",
 files=["scan.go","big.go"], mech=[("scanner","scan.go"),("entry points","big.go")],
 technique="static analysis: abstract interpretation of the SSA form on symbolic characters; the fields of the result are compared with the reading the grammar gives, as linear forms in the digits",
 note="Readers are modelled as documented: no read errors; Scan on ASCII. Whether SetString reports failure on invalid strings is not decided. "+TRUST)

prop(id="C24", title="Digit counts, powers of ten and word arithmetic are exact",
 statement="The arithmetic that everything else is built from is exact for every word: Length and BigLength give the number of decimal digits; Pow10, Pow10Int and BigPow10 the power of ten, in the tables, beyond them and while they grow, or report that it does not fit; PowOfTen and PowOfTenBig hold for powers of ten alone; MulPow10 and MulBigPow10 multiply by one, reporting overflow; Cmp, CmpShift and CmpBits order; Abs, Safe, Words and Set convert; Add, Sub and Mul of a big number and a word, with every carry, whether the result is an operand or not, leave the operand unchanged and share no storage with it.",
 over=["inputs"], quant="Every word value; big numbers of up to three words (four in the thorough tier) with every pattern of carries; every digit count up to 1024 and every power of ten at which a table ends or grows, and some beyond; results that are nil, short, long, or the operand.",
 why="An error at one carry pattern, one power of ten or one digit count out of a thousand is met by hardly any operand of a test.",
 files=["internal/arith/arith.go","internal/arith/pow.go","internal/arith/intlen.go","internal/arith/abs.go"], mech=[("word arithmetic","internal/arith/arith.go"),("powers of ten","internal/arith/pow.go"),("digit counts","internal/arith/intlen.go")],
 technique="static analysis: abstract interpretation of the SSA form with symbolic words; results are compared with the operands as polynomial identities on every carry path, and on intervals of words elsewhere",
 note="math/big and math/bits are modelled by their documentation. "+TRUST)

prop(id="C19", title="Conversions from binary floating point are exact",
 statement="SetFloat64 and SetFloat set the receiver to exactly the value of the float, for every float: coefficient times power of ten equals mantissa times power of two, with the recorded digit count right; zeros and infinities keep their sign, and a NaN becomes a quiet NaN of the same sign with payload 0. The receiver's Context and conditions, and its previous value, do not matter and are not changed. Float gives the infinity of the same sign, and zero for zeros and NaNs; Float64 gives infinities, NaNs and zeros with their sign, and reports them as exact; Rat gives exactly the value. Each returns the number it set.",
 over=["inputs"], quant="Every exponent of a float64 and every number of trailing zeros of its mantissa (the quick tier samples these away from the boundaries), with all other bits symbolic; big floats of up to 130 bits (thorough: 256) with symbolic mantissa and binary exponents from -300 to 300 (thorough: 1100); Rat of up to 30 symbolic digits with exponents of either sign; both signs; any receiver.",
 why="The conversion takes another path for subnormals, for integers, for each number of trailing zeros and for coefficients that leave 64 bits: a few of 2^64 floats.",
 files=["big.go"], mech=[("SetFloat64","big.go"),("SetFloat","big.go"),("Float, Rat","big.go")],
 technique="static analysis: abstract interpretation of the SSA form on symbolic bits; coefficient and exponent of the result are compared with the value of the bits, as linear forms",
 note="Float64 and Float of finite values other than zero (they round to binary) and SetRat (C13 decides its division) are not decided here. math.Float64bits and math/big are modelled by their documentation. "+TRUST)

prop(id="C20", title="Database interfaces pass exactly the value, or report that they cannot",
 statement="Decompose gives form, sign, big-endian coefficient and exponent of exactly the value, whatever the buffer, and never a wrong exponent for one beyond int32. Compose sets exactly the value of its parts, does not modify them, and returns an error for an unknown form. postgres.Decimal.Value gives exactly the value's text, NaN for NaNs, nil (or 0 if Zero is set) for a nil V, an error for infinities, and without Round a LengthError with part, length and limit exactly if more than 131072 integral or 16383 fractional digits are needed. Scan of a string or bytes returns an error exactly if the text is not a number, and otherwise sets V (a new one if nil) to exactly the number, keeping its Context and accumulating its conditions; other types are an error.",
 over=["inputs"], quant="Coefficients of 0 to 12 bytes (thorough: 40), leading zeros, around 2^64-1, every byte and every int32 exponent symbolic, every form, sign and buffer size; coefficients of up to 30 symbolic digits (thorough: 80) with every exponent on both sides of both limits; strings of the numeric grammar and near misses, with conditions raised before or not.",
 why="The interfaces fail for coefficients with particular lengths or leading bytes, exponents at the limits, and receivers with a history; tests convert a few values.",
 files=["decomposer.go","sql/postgres/decimal.go"], mech=[("parts","decomposer.go"),("DECIMAL","sql/postgres/decimal.go")],
 technique="static analysis: abstract interpretation of the SSA form on symbolic bytes and characters; parts, text and fields are compared as linear forms",
 note="The sign of zeros and NaNs in Decompose, and what Value rounds to if Round is set and a limit exceeded, are not decided. "+TRUST)
