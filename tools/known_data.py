FINDINGS=[
("C10","concrete-interval_compound","a concrete interval_compound<p> type prints as text that ParseType rejects (the text front end has no interval_compound); the text is rejected with an error, no wrong type results"),
("C10","concrete-func-multi-param","a concrete function type with several parameters prints as func<a, b -> c>, which the grammar rejects (it needs parentheses); an existing unit test pins that spelling"),
("C19","iso-tz-below-ms","the ISO text of a precision_timestamp_tz literal has exactly three fraction digits, so digits below a millisecond are dropped; an existing test of testcases/parser pins that spelling"),
("C01","write-output-dropped","the output mode of a write relation read from a message (NO_OUTPUT, MODIFIED_RECORDS) is not written back by NamedTableWriteRel.ToProto; existing builder tests compare whole plans whose writes have an output mode but must not show it, so writing it breaks them"),
("C02","read-projection","the output columns of a read relation with a projection mask are those of its base schema, not the masked ones; masks have no type in the library, so reporting the masked columns needs a feature that is missing"),
("C23","print-fixedbinary","a fixedbinary literal of a test case prints as 0x… hex text, which reads back as that text; an existing test of testcases/parser pins that spelling"),
("C23","print-timestamp-tz","a timestamp_tz literal of a test case prints without its offset, so the printed case does not parse; an existing test pins that spelling"),
("C23","print-precision-timestamp-tz","a precision_timestamp_tz literal of a test case prints three fraction digits, so finer digits are lost in the printed case; an existing test pins that spelling"),
("C23","column-precision-temporal","columns of precision_time, precision_timestamp and precision_timestamp_tz values in aggregate test cases hold microsecond time, timestamp and timestamp_tz literals instead of literals of the declared precision; an existing test pins this for columns"),
  ("C27","undecoded-extension-emit","a relation from an extension nobody decodes has columns that are not known to the library; when its message has an emit that reaches beyond the columns the library guesses, RecordType panics; an existing test pins that asking for the type of such a relation panics"),
]
FIXED=[
("C18","fix: reject non-finite and out-of-range exponents when encoding a decimal","NaN/Infinity texts and huge exponents were encoded or hung instead of being rejected"),
("C09","fix: IntervalDayType.WithNullability must not modify its receiver","WithNullability changed the original type"),
("C09","fix: IntervalCompoundType.WithPrecision keeps the type variation","WithPrecision dropped the type variation"),
("C09","fix: TypeToProto accepts the interval types the library itself produces","TypeToProto panicked for *IntervalCompoundType and IntervalYearToMonthType"),
("C02","fix: RecordType.Concat must not write into the left operand's backing array","Concat overwrote the spare capacity of the left operand's slice"),
("C10","fix: ParseType rejects characters that belong to no token","ParseType(\"i3@2\")-like text was accepted with the bad characters dropped"),
("C10","fix: ParseType rejects integer parameters that do not fit in 32 bits","varchar<4294967301> parsed as varchar<5>"),
("C10","fix: parameterized function types with several parameters print text that parses","func<(a, b) -> c> printed as func<a, b -> c>, which does not parse"),
('C19', 'fix: timestamps before 1970 round down at every precision', 'instants before 1970 rounded towards zero at precisions 1,2,4,5,7,8 and overflowed for far dates at 7,8'),
('C19', 'fix: temporal literal constructors report values that do not fit', 'NewDate, NewTime and nanosecond timestamps wrapped around silently; unknown precisions panicked'),
('C19', 'fix: years-to-month interval text is parsed whole and range checked', 'P1Y2MX, P1Y2, P1YM were accepted; P4294967297Y was read as 1 year'),
('C19', 'fix: days-to-second interval text is parsed exactly and range checked', 'PT4.35S was read as 4.349999999 s, PT3000000000S wrapped, PTS and P1DT were accepted'),
('C19', 'fix: ISO text of day intervals is valid for negative, zero and sub-second values', 'PT0.5S printed as PT500MS, zero as P, negative parts were dropped'),
('C19', 'fix: text of times keeps the sub-second digits', 'time literals printed without their microseconds'),
('C19', 'fix: retyping a time literal reports values that do not fit the new precision', 'WithType to a finer precision wrapped around silently'),
('C08', 'fix: precision timestamp literals before 1970 can be read from protobuf', 'negative precision_timestamp(_tz) values were rejected'),
('C08', 'fix: temporal and compound interval literals keep their type variation', 'type variation lost for precision_time/timestamp(_tz) and interval_compound'),
('C08', 'fix: interval year literals read from protobuf have the interval_year type and their variation', 'type variation lost; type not equal to the declared interval_year type'),
('C08', 'fix: literal equality is reflexive for NaN, independent of message state and of how a year interval was made', 'NaN literal unequal to itself; protobuf valued literals compared by internal message state'),
('C08', 'fix: malformed types, literals and reference segments in messages are reported instead of causing panics or other values', 'empty list/map literals, unset kinds, nil parts, out-of-range i8/i16 and short decimals panicked or changed value'),
('C08', 'fix: literals with an invalid precision, type reference or value are rejected; deprecated day intervals keep their microseconds', 'NewLiteral accepted unusable values; microseconds of the deprecated form were lost in text and retyping'),
('C08', 'fix: compound interval literals keep their precision when the day part is zero', 'precision dropped by ToProto when days, seconds and subseconds are 0'),
('C09', 'fix: PrecisionTimestampTzType.GetType returns the zoned type', 'GetType returned *PrecisionTimestampType'),
('C05','fix: rewriting an option of a MultiOrList no longer panics','replacing an option of a multi or-list wrote past the copied rows'),
('C06','fix: a switch expression without else can be read from protobuf and visited','a switch without else panicked on read, visit and print; a switch without clauses was accepted'),
('C05','fix: visiting an expression reaches window partitions, window sorts and field reference roots','window partitions and sorts and expression roots of references were not visited'),
('C07','fix: function equality compares argument counts and bounds types, and masks compare by content','f(a) equalled f(a,b); window bounds type was ignored; equal masks were unequal'),
('C27','fix: malformed masks are errors, masks without child and masked references can be written and printed','masks with unset selects panicked; masked references panicked in ToProto and String'),
('C25','fix: a custom aggregate function keeps its declaration','a custom aggregate invocation had no declaration'),
('C26', 'fix: subqueries read from protobuf name their operation, and a scalar subquery has one column', 'unspecified operations and multi-column scalar subqueries were accepted from protobuf'),
('C06', 'fix: expressions over a reference of unknown type are reported or have no type instead of panicking', 'if/switch/cast over an outer reference panicked'),
('C06', 'fix: function arguments in the deprecated args field are read instead of dropped', 'arguments in the deprecated args field vanished'),
('C27', 'fix: malformed relation messages are errors instead of panics or silent losses', 'missing inputs, common parts, schemas, tables and out-of-range emit or grouping references panicked; text file format was dropped'),
('C01', 'fix: an emit without columns, the build input of a hash join, and the create mode and extension of a write are kept', 'these parts were lost on reading and writing a plan; type aliases were dropped silently'),
('C04', 'fix: the further relations of a built plan do not overwrite its root', 'PlanWithTypes(root, names, urls, others...) put others[i] at relation i, leaving the last relation empty (ToProto panicked)'),
('C04', 'fix: builder calls with missing, untyped or unknown parts or wrong output columns are errors instead of panics', 'nil expressions, short virtual table rows, filter and write mappings beyond the output, unknown join and set operations were accepted or panicked'),
('C03', 'fix: remapping a read or leaf extension relation leaves the original alone', 'Remap on a read relation changed the relation it was called on'),
('C05', 'fix: rewriting a relation reaches virtual table rows, join keys and the sorts of measures', 'these expressions were not rewritten'),
('C02', 'fix: hash, merge and mark joins have the columns of their join type, and unknown join and set operations are errors', 'hash and merge joins of every type had the columns of an inner join, mark joins none'),
('C02', 'fix: an aggregation has one column per grouping expression, nullable if not in all sets, and the grouping set id', 'grouping columns were repeated for every set that uses them, not nullable, and there was no grouping set id'),
('C22', 'fix: dynamic parameters are found wherever they occur in a plan, and all uses agree with the binding', 'parameters in reads, aggregations, join keys, extension relations, subqueries and further relations were not found; the last of two conflicting declarations won'),
('C20', 'fix: grouping sets do not share the slices given to the aggregation builder', 're-using the slice passed to AddRollup or AddGroupingSet changed the grouping sets added before'),
("C01","fix: reject an iceberg read with an empty snapshot instead of reading the latest one","an iceberg read with snapshot timestamp 0 or an empty snapshot id lost its snapshot"),
("C01","fix: an aggregate measure without a function is an error, not a panic","reading an aggregate relation with a measure that has no function panicked"),
('C01', 'fix: a join key without a field reference is an error, not a panic', 'reading a hash or merge join with a key that lacks a side panicked'),
('C02', 'fix: a table creation keeps its output columns when it is written and read again', "a CTAS relation of the builder has the table's columns, but none after it was written and read; with an emit mapping it could not be read"),
('C14', 'fix: an extension set is written in anchor order with every anchor it has', 'an extension set holding one id under two anchors lost one of them when it was written, and declarations came out in map order'),
('C14', 'fix: new extension anchors do not collide with those read from a plan', 'an anchor handed out for a new function could be one the plan already uses for another'),
('C14', 'fix: conflicting or empty extension declarations of a plan are errors', 'two declarations of one anchor with different names silently overwrote each other; an empty declaration was dropped'),
('C01', 'fix: a function variant made from a name keeps that name, and a name with unknown argument types is no panic', 'reading a plan with a function such as foo:str that the collection does not declare panicked; foo:any1 and foo came back as other functions (foo:any, foo:)'),
('C01', 'fix: a function read from a plan keeps its reference when its declaration is not in the collection', 'a function reference read from a plan was replaced by a new anchor when the declared name was empty or declared twice'),
('C15', 'fix: malformed function arguments in extension files are errors, not panics', 'loading a document whose function argument has no kind, or a name, description, options or constant of another kind, panics'),
('C15', 'fix: a function with one implementation is found by its simple name, also aggregates', 'an aggregate function with one implementation is not found by its simple name; a name with several implementations is found when one entry holds one of them'),
('C13', 'fix: ill-typed operands, division by zero and wrong argument counts in return type programs are errors', 'return-type programs that divide by zero, use a boolean as a number (or the reverse) or call min/max/abs with other argument counts panic or ignore arguments'),
('C11', 'fix: integer parameters of nested types take part in matching and in return types', 'list<decimal<P,S>> and other nested parameters never match a signature that uses P twice, u! parameters panic, interval/timestamp precisions never equal lengths, values beyond 32 bits wrap'),
('C11', 'fix: too few or no arguments for a variadic signature do not panic, and positions count from the variadic parameter', "matching fewer arguments than a variadic signature's fixed ones panics; MatchAt accepts positions beyond the maximum and rejects allowed ones after fixed parameters"),
('C11', 'fix: parameter names and type placeholders are both checked when a signature has both', 'a signature with a repeated parameter name and a repeated any1 matches arguments with different types for any1; decimal<P,P> matches different values'),
('C11', 'fix: a function without nullability handling matches as mirror, as its return type does', 'a variant made from a name never matches'),
('C11', 'fix: consistent variadic arguments are consistent from the first one', 'a variadic function with min 2 accepts different types among its first arguments'),
('C12', 'fix: the nullability of all variadic arguments counts for the return type', 'a nullable argument of an inconsistent variadic mirror function does not make the result nullable'),
('C11', 'fix: type placeholders within function types and user-defined types are checked and resolved', 'any1 within func<...> or u!t<...> is not compared with its other uses, and cannot be used in the return type'),
('C12', 'fix: user-defined types within a return type refer to their declaration', 'list<u!t> as return type refers to type anchor 0'),
('C12', 'fix: resolving the type of a function without return type is an error, not a panic', 'ResolveType of a function declared without return type panics'),
('C15', 'fix: a value of an unexpected kind in an extension file is an error, not a panic', 'a number in place of a nullability handling, window type and the like makes Load panic'),
('C11', 'fix: compare integer type parameters of user-defined types without truncation', 'u!t<3> matched an argument whose parameter is 3+2^32'),
('C16', 'fix: count the arguments of variadic functions with preceding parameters', 'a variadic function with parameters before the variadic one was not found for argument counts it accepts, and found for counts it does not'),
('C16', 'fix: do not confuse local and Substrait function names of a dialect', 'a dialect whose local name for one function is the name of another was rejected depending on map order'),
('C17', 'fix: resolve local type names of a dialect independently of map order', 'a local type name shared by several types resolved to a random one'),
('C16', 'fix: keep functions of different kinds apart in the invocation lookup of a dialect', 'a dialect declaring the same function as aggregate and window panicked on invocation lookup'),
('C17', 'fix: read back the precision of local time and interval types', 'TIMESTAMP(3), the local spelling of precision_timestamp<3>, was rejected'),
('C17', 'fix: read local type names that contain parentheses', 'VARCHAR(MAX) as the local name of string was rejected'),
('C25', 'fix: reject function arguments that no signature can match', 'NewScalarFunc, NewAggregateFunc and NewWindowFunc ignored type and nil arguments when matching, so one:i32(5, type i32) was accepted, and panicked on an argument of unknown type'),
('C23', 'fix: resolve columns of aggregate function tests by their index', "aggregate invocations of table cases whose arguments are not the leading columns in order failed or had another column's type"),
('C23', 'fix: quote the elements of printed lists of function test cases', 'lists of strings, dates and other quoted literals were printed without quotes and could not be parsed again'),
('C23', 'fix: reject type parameters of function test files that are out of range', 'a type parameter above the 32-bit range was silently truncated (varchar<4294967297> read as varchar<1>)'),
('C23', 'fix: give scalar arguments of aggregate function tests their declared type', "scalar arguments of aggregate calls kept the literal's minimal type instead of the stated one"),
('C23', 'fix: keep the order of function test options stable', 'options of a test case were printed and handed out in random order'),
('C23', 'fix: handle empty tables and reject ragged tables in function test files', 'values beyond the columns of a table were silently dropped, tables without rows were rejected, column indexes were truncated to 32 bits'),
('C23', 'fix: reject values of lists and columns that are not of the declared type in function test files', 'list elements and column values of another type were accepted or silently dropped'),
('C23', 'fix: accept empty nested lists in function test files', '[[1], []]::list<list<i64>> was rejected'),
('C23', 'fix: accept function test groups without a description', 'a file with a group without description, as the grammar allows, gave an error from a panic'),
('C23', 'fix: strip only the enclosing quotes of string literals in function test files', 'string values lost quotes that belong to the value'),
('C23', 'fix: reject numbers of function test files that are out of range of their type', '300::i8 was read as 44, 1e39::fp32 as infinity'),
('C23', 'fix: report unrecognized characters in function test files', 'characters outside the grammar were silently skipped'),
('C18', 'fix: accept decimals with 38 fractional digits', '0.12345678901234567890123456789012345678 and the printed form of decimal<38,38> values were rejected'),
('C18', 'fix: allow zero as a decimal without integer digits', 'zero could not be given a decimal type whose precision equals its scale'),
('C23', 'fix: count the length of character literals in characters', "'日本語'::varchar<3> was rejected, and fixedchar literals had their length in bytes"),
('C23', 'fix: give list elements in function test files their declared time precision', 'lists of precision times held microseconds and rejected null elements'),
('C23', 'fix: print binary values of function test cases as their text', 'binary values in columns and lists printed as [97 98], which reads back as that text'),
('C23', 'fix: give interval_day cells of tables in function test files their declared precision', 'interval_day cells of tables had precision 6 whatever was declared'),
('C24', 'fix: let a dialect be localized concurrently', 'two concurrent localizations of one Dialect race on its lazily built local type registry'),
('C27', 'fix: types with parts of unknown type can be printed, compared and written', 'an expression or schema over a reference into an outer query or a lambda read from a message has a type with unknown parts, whose String, Equals and ToProto panic'),
('C27', 'fix: a named struct with missing names or types can be printed', 'NamedStruct.String panics when there are fewer names than fields or a column has no type'),
('C27', 'fix: reject extended expressions whose base schema has a column without a type', 'ExtendedFromProto accepts a base schema with an unset column type'),
('C29', 'fix: a field reference into a window function is not scalar', 'IsScalar of a field reference was true whatever its root expression is'),
('C30', 'fix: a fixed number shared by two parameters does not synchronise them', 'HasSyncParams(decimal<38, P>, decimal<38, Q>) was true because both have the number 38, though the two share no parameter'),
('C30', 'fix: return-type programs match nullability at every level', 'OutputDerivation.MatchWithNullability compared the outer nullability only, so the program ending in list<i32> matched list<i32?>'),
('C30', 'fix: ResolveURN gives aggregate and window variants the defaults GetVariants does', 'AggregateFunction and WindowFunction.ResolveURN left the decomposition (NONE) and window type (PARTITION) defaults out, so the same variant answered differently'),
('C10', 'fix: a conditional or negation prints in parentheses where it is an operand', 'the program a = (if c then P else 3) + S printed as a = (if c then P else 3 + S), which reads as another program; likewise ?: and !'),
('C31', 'fix: intermediate types of aggregate and window functions are written as type text', 'an extension file with an aggregate or window function was written with the internal structure of its intermediate type, and could not be loaded again'),
('C31', 'fix: functions that are not deterministic are written as such', 'deterministic: false was left out of a written extension file, which means true when it is read'),
('C19', 'fix: tenths and hundredths of a second convert to durations without overflow', 'SubSecondsToDuration overflowed for more than 29 years of tenths or 2.9 years of hundredths of seconds'),
('C19', 'fix: ISO text of day intervals counts sub-seconds of any size', 'the ISO text of a day interval whose sub-seconds last longer than a Go duration was wrong'),
('C19', 'fix: retyping a day interval reports sub-seconds that do not fit the new precision', 'WithType to a finer precision overflowed the sub-seconds silently'),
]
