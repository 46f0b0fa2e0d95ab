{"C01", prop_C01, 11250000, 500000000, "one product with generated operands; non-trivial: at least 3 non-zero operand coefficients and a non-zero product"},
{"C02", prop_C02, 14400000, 640000000, "one meet with generated operands; non-trivial: at least 3 non-zero operand coefficients and a non-zero result"},
{"C03", prop_C03, 8550000, 380000000, "one join or dual, or an incidence scene; non-trivial: at least 3 non-zero operand coefficients and a non-zero result"},
{"C04", prop_C04, 13050000, 580000000, "one inner product with generated operands; non-trivial: at least 3 non-zero operand coefficients and a non-zero result"},
{"C05", prop_C05, 11250000, 500000000, "one reflection or double reflection; non-trivial: non-zero operands and result"},
{"C06", prop_C06, 9900000, 440000000, "one motion applied to one object; non-trivial: at least 3 non-zero operand coefficients and a non-zero result"},
{"C07", prop_C07, 1440000, 64000000, "one batch call (motion, array, count, aliasing, placement against a guard page); non-trivial: count >= 2 and a motion with at least 2 non-zero coefficients"},
{"C08", prop_C08, 200000, 8800000, "a scene and a history of 1-10 motions compared with plain geometry after every step; non-trivial: at least 2 steps and a rotation"},
{"C09", prop_C09, 7020000, 312000000, "one inverse or quotient; non-trivial: at least 2 non-zero coefficients"},
{"C10", prop_C10, 7200000, 320000000, "one normalisation; non-trivial: at least 2 non-zero coefficients"},
{"C11", prop_C11, 4140000, 184000000, "one exponential, logarithm or interpolation; non-trivial: involves a rotation (or 2 non-zero coefficients for translators)"},
{"C12", prop_C12, 8100000, 360000000, "one square root; non-trivial: at least 2 non-zero coefficients"},
{"C13", prop_C13, 2030000, 90400000, "one matrix conversion and one matrix-vector product; non-trivial: at least 2 non-zero coefficients"},
{"C14", prop_C14, 9000000, 400000000, "one conversion to or from Euler angles; non-trivial: at least 2 non-zero operands"},
{"C15", prop_C15, 10800000, 480000000, "one projection; non-trivial: at least 3 non-zero operand coefficients and a non-zero result, or a geometric scene"},
{"C16", prop_C16, 14400000, 640000000, "one norm or distance; non-trivial: a non-zero object, or a distance scene"},
{"C17", prop_C17, 16200000, 720000000, "one constructor, accessor, conversion, assignment, load or store; non-trivial: operand values (all but one) distinct"},
{"C18", prop_C18, 13950000, 620000000, "one arithmetic operation; non-trivial: at least 2 non-zero operands"},
{"C19", prop_C19, 14400000, 640000000, "one comparison of two objects; non-trivial: a non-zero object"},
{"C20", prop_C20, 9000000, 400000000, "one construction from angle, distance and axis; non-trivial: non-zero parameters"},
{"C21", prop_C21, 11520000, 512000000, "one operation run in every build on the same operands; non-trivial: at least 2 non-zero operands"},
{"C22", prop_C22, 9720000, 432000000, "one call of a C function; non-trivial: at least 2 non-zero operands"},
{"C23", prop_C23, 13320000, 592000000, "one call of a shader function; non-trivial: at least 3 non-zero operand coefficients and a non-zero result"},
{"C29", prop_C29, 6000000, 260000000, "one operation with a line, ideal line, branch or translator as its result, and a group of operations on that result; non-trivial: at least 2 non-zero operands"},
{"C30", prop_C30, 800000, 40000000, "2-7 operations or batch calls of one build, many related to one another, repeated in drawn orders (and for one case in 250 in four threads at once); non-trivial: all"},
